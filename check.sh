#!/bin/bash
# usage: check.sh <property-id> [sub]   (VERIF_SEED, VERIF_TIER from the environment)
# Exit 0: held; 1: VIOLATION line printed; anything else: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"
case "$id" in
  C01|C02|C03) bin=number ;;
  C04|C05|C06|C07|C08|C09|C10) bin=solver ;;
  C11|C12|C13|C14|C15) bin=optimizer ;;
  C16|C17) bin=buses ;;
  C18|C19) bin=apc ;;
  C26) bin=artifacts ;;
  C20|C21|C22) bin=blocks ;;
  C23|C24|C25) bin=exec ;;
  C27|C28) bin=elf ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
log=$(mktemp)
if ! bash harness/build.sh "$bin" >"$log" 2>&1; then
  tail -n 60 "$log" >&2; rm -f "$log"
  echo "ERROR: harness build failed" >&2
  exit 2
fi
rm -f "$log"
rm -f "evidence/$id.json"
unset RUST_BACKTRACE RUST_LOG
exec harness/target/debug/"$bin" "$@"
