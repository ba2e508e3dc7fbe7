# Builds the harness (module /verif/harness) against /repo's working tree, offline.
VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=0
unset GOOS GOARCH SECS4GO_STRESS
mkdir -p "$VERIF_DIR/.bin" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
built=0
(cd "$VERIF_DIR/harness" && go build -o "$VERIF_DIR/.bin/secsverif" .) || { echo "ERROR: the harness does not build" >&2; built=2; }
# C27 runs with the race detector
[ -z "$RACE" ] || (cd "$VERIF_DIR/harness" && CGO_ENABLED=1 go build -race -o "$VERIF_DIR/.bin/secsverif-race" .) || { echo "ERROR: the harness does not build with the race detector" >&2; built=2; }
(exit $built)
