#!/bin/bash
# check.sh ID [--quick|--thorough|--scale X|--part P|--seed N]     decide one property
# check.sh --replay FILE                                           re-run a recorded failure
cd "$(dirname "$0")" || exit 2
here="$PWD"
export CANDY_VERIF_DIR="$here"
variant() {
  case "$1" in
    C25) echo collide ;;
    C22) echo flushagg ;;
    *) echo main ;;
  esac
}
run() { # variant args...
  local v="$1"; shift
  ./build.sh "$v" || { echo "ERROR: the harness does not build (variant $v)"; exit 3; }
  "$here/target-$v/release/harness" "$@"
}
if [ "$1" = --replay ]; then
  f="$2"
  id="$(sed -n '1s/^property=\([A-Z0-9]*\) .*/\1/p' "$f")"
  v="$(variant "$id")"
  # parts decided by the unmodified build
  [[ "$(head -1 "$f")" == *" part=real"* ]] && v=main
  run "$v" replay "$f"
  exit $?
fi
id="$1"; shift
if [ "$id" = C25 ]; then # both the unmodified build and the variant decide this
  d="$(mktemp)"
  trap 'rm -f "$d"' EXIT
  (export CANDY_DUMP="$d"; run main check "$id" "$@") || exit $?
  export CANDY_LOAD="$d"
fi
run "$(variant "$id")" check "$id" "$@"
