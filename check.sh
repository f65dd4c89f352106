#!/bin/bash
# check.sh ID [quick|thorough]   decide a property on /repo's working tree
# check.sh replay ID SEED:SIZE   run a recorded failing input against the real code
# check.sh fuzz ID SECONDS       the random search alone
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT VERIF_REPO="${VERIF_REPO:-/repo}"
bin="$VERIF_ROOT/out/vc"
mkdir -p "$VERIF_ROOT/out"
# replaced atomically: two checks may build at the same time
(cd "$VERIF_ROOT/vc" && go build -buildvcs=false -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "the verifier does not build"; exit 2; }
case "$1" in
replay) exec "$bin" replay "$2" "$3" ;;
fuzz) exec "$bin" fuzz "$2" "${3:-20}" ;;
*) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
