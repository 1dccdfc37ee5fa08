#!/bin/bash
# run.sh PROPERTY quick|thorough [--only FAMILY:ITEM]
# Builds the explorer against /repo's working tree and runs the check of one property.
# Exit 0: held on everything explored; 1: violation (VIOLATION line printed); anything else: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:?tier}; shift 2
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export MC_VERIF=$here
export CARGO_TARGET_DIR=$here/mc/target
case $prop in
  C01|C02|C03|C04) bin=mc_match ;;
  C05|C11|C22|C23) bin=mc_state ;;
  C06|C07|C18) bin=mc_parsers ;;
  C08|C09|C10) bin=mc_grammar ;;
  C12|C13|C15|C16|C17) bin=mc_load ;;
  C14|C27) bin=mc_io ;;
  C25) bin=mc_routes ;;
  C26) bin=mc_mem ;;
  C28) bin=mc_sched ;;
  C19|C20|C21) bin=mc_utils ;;
  all) bin= ;;
  *) echo "run.sh: unknown property $prop" >&2; exit 3 ;;
esac
mkdir -p "$here/evidence"
log=$(mktemp "${TMPDIR:-/tmp}/mc-build.XXXXXX")
# cargo trusts modification times; trust contents instead
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
mark=$CARGO_TARGET_DIR/.repo-$sum
if [ ! -e "$mark" ]; then
  rm -f "$CARGO_TARGET_DIR"/.repo-*
  [ -d "$CARGO_TARGET_DIR/release" ] && ( cd "$here/mc" && cargo clean --release --offline -p actiondb ) >/dev/null 2>&1
fi
( cd "$here/mc" && cargo build --release --offline --locked ${bin:+--bin $bin} ) >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  echo "run.sh: the explorer does not build against /repo" >&2
  grep -E '^error' -A 12 "$log" | head -80 >&2
  rm -f "$log"
  exit 3
fi
rm -f "$log"
touch "$mark"
[ -z "$bin" ] && exit 0
exec "$CARGO_TARGET_DIR/release/$bin" "$prop" --tier "$tier" "$@"
