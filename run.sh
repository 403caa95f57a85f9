#!/bin/bash
# run.sh <property> [flags of the check binary]
#   bash run.sh C06                          quick tier
#   VERIF_TIER=thorough bash run.sh C06      thorough tier (or --tier thorough)
#   bash run.sh C06 --replay FILE            replay one case
# Builds the area's check binary from /repo's current working tree in a
# temporary directory, runs it, and removes the directory.
set -u
V=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property id}; shift
case $ID in
C01|C02|C03|C04|C05) area=addr;;
C06|C07) area=bitset;;
C08|C09|C10|C11|C12) area=hd;;
C13|C14|C15|C16|C17|C41) area=sig;;
C18|C19|C20) area=words;;
C21|C22|C43) area=keyaddr;;
C23|C42|C46) area=wasm;;
C24|C25|C26) area=num;;
C27|C28|C29|C30|C31|C32) area=types;;
C33|C34|C35|C36|C40) area=eai;;
C37|C38) area=price;;
C44|C45|C47) area=whole;;
C39) area=pure;;
*) echo "unknown property $ID" >&2; exit 2;;
esac
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GODEBUG=randautoseed=0
unset GOOS GOARCH
# the repository's go.mod is untracked there; put it back if it is missing
[ -f /repo/go.mod ] || cp /opt/vp/ndaumath.mod /repo/go.mod
[ -f /repo/go.sum ] || cp /opt/vp/ndaumath.sum /repo/go.sum
T=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
race=()
[ $area = pure ] && race=(-race)
cd "$V/h" || exit 2
if ! go build "${race[@]+"${race[@]}"}" -o "$T/check" ./cmd/$area; then
  echo "ERROR property=$ID: the check does not build against /repo" >&2
  exit 2
fi
if [ $area = wasm ]; then
  if ! (cd /repo && GOOS=js GOARCH=wasm go build -buildvcs=false -o "$T/keyaddr.wasm" ./cmd/keyaddr); then
    echo "ERROR property=$ID: /repo/cmd/keyaddr does not build for js/wasm" >&2
    exit 2
  fi
fi
cd "$V" || exit 2
args=()
while [ $# -gt 0 ]; do
  case $1 in
  --*) args+=("-${1#--}");;
  *) args+=("$1");;
  esac
  shift
done
SCRATCH="$T" "$T/check" -prop "$ID" -verif "$V" "${args[@]+"${args[@]}"}"
rc=$?
if [ $rc != 0 ] && [ $rc != 1 ]; then
  # a library which ends the process as soon as it is loaded gives no answer to
  # any input, before the check's main function is reached
  "$T/check" -help >"$T/load" 2>&1
  if grep -q '^panic: ' "$T/load" && grep -q 'ndau/ndaumath/pkg/.*\.init' "$T/load"; then
    mkdir -p "$V/evidence/replay"
    cp "$T/load" "$V/evidence/replay/$ID-load.txt"
    echo "VIOLATION property=$ID replay=$V/evidence/replay/$ID-load.txt"
    echo "  loading the library ends the process:"
    head -12 "$T/load" | sed 's/^/  /'
    exit 1
  fi
fi
exit $rc
