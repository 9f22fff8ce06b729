#!/bin/bash
# check.sh <ID> [quick|thorough]     decide one property on /repo's current tree
# check.sh --replay <file>           show one recorded violation again
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed.
cd "$(dirname "$0")" || exit 2
exec 9>out.lock 2>/dev/null && flock 9
case "$1" in
  --replay) ./build.sh all && { flock -u 9; exec target/release/rvmc replay "$2"; } || exit 2 ;;
  C18|C19|C20) ./build.sh cli || exit 2 ;;
  C22) ./build.sh step || exit 2 ;;
  C*) ./build.sh || exit 2 ;;
  *) echo "usage: check.sh <ID> [quick|thorough] | --replay <file>" >&2; exit 2 ;;
esac
flock -u 9; exec 9>&-
exec target/release/rvmc check "$1" "${2:-${VERIF_TIER:-quick}}"
