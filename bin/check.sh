#!/bin/bash
# Usage: check.sh <property> [vmon flags]. Builds the monitors against the
# current tree of /repo and runs those of one property.
#
# whitebox/<property>.go, if there is one, is laid over the library so that the
# monitors can also look at parts that no exported function reaches. If it does
# not build (internals were renamed), the monitors run without it.
set -u
root="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"; shift
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
out="$root/build"
mkdir -p "$out"
bin="$out/vmon.$prop.$$"
over="$out/overlay.$prop.$$.json"
trap 'rm -f "$bin" "$over"' EXIT
flags=()
if [ "$prop" = C14 ]; then flags=(-race); export CGO_ENABLED=1; fi
cd "$root/harness" || exit 2
low="$(printf %s "$prop" | tr A-Z a-z)"
built=
if [ -f "$root/whitebox/$low.go" ]; then
  printf '{"Replace": {"/repo/zz_verif_%s.go": "%s/whitebox/%s.go"}}\n' "$low" "$root" "$low" > "$over"
  if go build "${flags[@]}" -overlay "$over" -tags "wb_$low" -o "$bin" ./cmd/vmon 2> "$over.log"; then
    built=1
  else
    echo "NOTE: the internals are not the ones whitebox/$low.go expects; going on through the API only"
    head -5 "$over.log"
  fi
  rm -f "$over.log"
fi
if [ -z "$built" ] && ! go build "${flags[@]}" -o "$bin" ./cmd/vmon; then
  echo "ERROR: the monitors do not build against /repo" >&2
  exit 2
fi
"$bin" -prop "$prop" -root "$root" "$@"
rc=$?
exit $rc
