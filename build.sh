#!/bin/bash
# Build the explorer (and the command line tool it drives) from /repo's working tree, each twice:
# with debug assertions and overflow checks (release/, cli-checked/) and without (plain/, cli/).
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
V="$(cd "$(dirname "$0")" && pwd)"
R="${VERIF_REPO:-$V/../repo}"
T="$V/target"
unset RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# (made here: four cargos that find it missing at once race to create it)
mkdir -p "$T/cli" "$T/cli-checked"
P=()
for profile in release plain; do
  (cd "$V/harness" && RUSTFLAGS="--cfg rezip_verif -Awarnings" cargo build --profile $profile --offline --target-dir "$T" -q) & P+=($!)
done
if [ "$1" = step ] || [ "$1" = all ]; then
  gcc -O2 -c "$V/harness/mcount.c" -o "$T/mcount.o" || exit 2
  (cd "$V/harness" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="--cfg rezip_verif --cfg rvmc_stepped -Awarnings -Zinstrument-mcount -Clink-arg=$T/mcount.o -Clinker=$V/harness/link.sh -Clinker-flavor=gcc" cargo build --profile stepped --offline --target-dir "$T" -q) & P+=($!)
fi
if [ "$1" = cli ] || [ "$1" = all ]; then
  (cd "$R" && RUSTFLAGS="-Awarnings" cargo build --release --offline -p rezippers --target-dir "$T/cli" -q) & P+=($!)
  (cd "$R" && RUSTFLAGS="-Awarnings" CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --release --offline -p rezippers --target-dir "$T/cli-checked" -q) & P+=($!)
fi
rc=0
for p in "${P[@]}"; do wait $p || rc=2; done
exit $rc
