#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]   run the check of one property
#        check.sh --replay FILE               replay a saved case
# Builds the engine against the current working tree of /repo each time.
# Exit 0: held; 1 with a VIOLATION line: violated; anything else: error of the check.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
unset GORACE GODEBUG GOGC GOMEMLIMIT

REPLAY=""
if [ "${1:-}" = "--replay" ]; then
  REPLAY="$(realpath "$2")" || exit 3
  PROP="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$REPLAY" | head -1)"
else
  PROP="${1:?property}"
fi
TIER="${2:-${VERIF_TIER:-quick}}"
[ -n "$REPLAY" ] && TIER=quick
SEED="${VERIF_SEED:-1}"

SCRATCH="$(mktemp -d "${TMPDIR:-/tmp}/vp-XXXXXXXX")" || exit 3
trap '[ -n "${SCRATCH:-}" ] && rm -rf -- "$SCRATCH"' EXIT
trap 'exit 3' INT TERM

# The engine's files appear as package zz_verif of the module under test.
{
  printf '{"Replace":{'
  sep=""
  for f in "$VERIF"/harness/*.go; do
    printf '%s"%s/zz_verif/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"
    sep=","
  done
  printf '}}\n'
} > "$SCRATCH/overlay.json"

RACE=""
[ "$PROP" = "C18" ] && RACE="-race"
# A private copy of go.mod/go.sum keeps -mod=mod from ever touching the tree.
cp "$REPO/go.mod" "$SCRATCH/go.mod" && cp "$REPO/go.sum" "$SCRATCH/go.sum" 2>/dev/null
if ! (cd "$REPO" && go build $RACE ${VERIF_COVER:+-cover -coverpkg=github.com/absolutelightning/go-immutable-adaptive-radix} \
      -modfile="$SCRATCH/go.mod" -overlay "$SCRATCH/overlay.json" -o "$SCRATCH/engine" ./zz_verif) 2> "$SCRATCH/build.log"; then
  cat "$SCRATCH/build.log" >&2
  echo "error: the engine does not build against $REPO" >&2
  exit 3
fi

if [ -n "$REPLAY" ]; then
  "$SCRATCH/engine" -replay "$REPLAY" -scratch "$SCRATCH"
  exit $?
fi
"$SCRATCH/engine" -prop "$PROP" -tier "$TIER" -seed "$SEED" -scratch "$SCRATCH" \
  -corpus "$VERIF/corpus" -replays "$VERIF/replays" -known "$VERIF/KNOWN_FINDINGS" \
  -evidence "$VERIF/evidence/$PROP.json" ${VERIF_CASES:+-cases "$VERIF_CASES"}
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) exit 3 ;;
esac
