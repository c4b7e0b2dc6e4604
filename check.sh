#!/bin/bash
# check.sh PROPERTY [quick|thorough]    decide one property against /repo's working tree
# check.sh replay FILE                  re-run one recorded violation
# check.sh setup                        warm the build cache
set -u
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false"
W=$(mktemp -d /tmp/mc.XXXXXX)
trap 'rm -rf "$W"' EXIT
cd "$V/mc" || exit 2
go build -o "$W/instr" ./cmd/instr || exit 2
"$W/instr" /repo "$V/mc/hook" "$W/ov" || exit 2
export MC_OV="$W/ov"
if ! go build -overlay "$W/ov/overlay.json" -o "$W/mc" . 2>"$W/err" &&
   ! { "$W/instr" /repo "$V/mc/hook" "$W/ov" nogo && go build -overlay "$W/ov/overlay.json" -o "$W/mc" . 2>"$W/err"; }; then
  cat "$W/err" >&2
  exit 2
fi
race() { go build -race -overlay "$W/ov/overlay-plain.json" -o "$W/mcrace" . || exit 2; export MC_RACE="$W/mcrace"; }
example() { # the example programs as they are
  (cd /repo && go build -mod=readonly -o "$W/ex-$1" "./examples/$1") || exit 2
}
need() {
  case "$1" in
    C10) example parseownsyntax; export MC_OWN="$W/ex-parseownsyntax";;
    C17) race;;
    C19) example json; export MC_JSON="$W/ex-json";;
  esac
}
case "${1:-}" in
  setup)
    race; example json; example parseownsyntax
    echo "setup ok"; exit 0;;
  replay)
    need "$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)"
    "$W/mc" replay -verif "$V" -scratch "$W/s" "$2"; exit $?;;
esac
P=$1; TIER=${2:-${VERIF_TIER:-quick}}
CAP=420; [ "$TIER" = thorough ] && CAP=5400
[ -n "${VERIF_CAP:-}" ] && CAP=$VERIF_CAP
need "$P"
"$W/mc" check -prop "$P" -tier "$TIER" -verif "$V" -scratch "$W/s" -cap "$CAP"
exit $?
