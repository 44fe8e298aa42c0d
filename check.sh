#!/bin/bash
# check.sh PROPERTY TIER : build the property's harness from /repo's working tree and run it.
set -u
P="$1"; T="${2:-quick}"
cd "$(dirname "$0")/harness" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
case "$P" in
  C03|C04|C05|C06|C07|C08) B=c_comb ;;
  C01|C02|C12|C18|C26) B=c_dom ;;
  C13|C14|C15|C16|C17) B=c_lists ;;
  C09|C10|C27) B=c_event ;;
  C11) B=c_cell ;;
  C19|C20|C21|C22|C23) B=c_xbow ;;
  C24) B=c_css ;;
  C28) B=c_apps ;;
  C25) B=c_select ;;
  *) echo "unknown property $P" >&2; exit 2 ;;
esac
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
# The exploration of thread schedules compiles a copy of the combinators. If that copy cannot be
# compiled (they use a primitive that fakes/vstd does not have) everything else still runs.
bash "$VERIF_DIR/fakes/prepare.sh" || { echo "cannot prepare harness/gen" >&2; exit 2; }
F=""
case "$P" in C06|C08) F="--features sched" ;; esac
if [ -n "$F" ] && ! cargo build --offline --quiet --bin "$B" $F 2>"/tmp/verif_build_$$.log"; then
  echo "note: the combinators do not compile against fakes/vstd; thread schedules are not explored" >&2
  F=""
fi
if ! cargo build --offline --quiet --bin "$B" $F 2>"/tmp/verif_build_$$.log"; then
  cat "/tmp/verif_build_$$.log" >&2; rm -f "/tmp/verif_build_$$.log"
  echo "build of the harness failed" >&2
  exit 2
fi
rm -f "/tmp/verif_build_$$.log"
shift 2 2>/dev/null || shift $#
exec "$CARGO_TARGET_DIR/debug/$B" "$P" "$T" "$@"
