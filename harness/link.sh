#!/bin/bash
# The linker of the stepped build: rustc asks for -pg, which would make the program profile itself.
a=()
for x in "$@"; do [ "$x" = -pg ] || a+=("$x"); done
exec cc "${a[@]}"
