#!/bin/bash
# check.sh ID [vrun flags]: builds the monitors against /repo's working tree and runs one property.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=readonly GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
verif=$(cd "$(dirname "$0")" && pwd) || exit 2
id=$1; shift
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags=() ; rflag=()
case $id in
  C15|C19|C20|C21|C22|C33) flags=(-race); rflag=(-race); export CGO_ENABLED=1 ;;
esac
(cd "$verif/harness" && go build "${flags[@]}" -o "$tmp/vrun" ./cmd/vrun) || { echo "check.sh: build failed" >&2; exit 2; }
case $id in # what does not depend on the word size is not repeated on 32 bits
  C38|C39) ;;
  *) (cd "$verif/harness" && GOARCH=386 CGO_ENABLED=0 go build -o "$tmp/vrun386" ./cmd/vrun) || { echo "check.sh: 32-bit build failed" >&2; exit 2; }
     rflag+=(-alt "$tmp/vrun386") ;;
esac
TMPDIR=$tmp "$tmp/vrun" -prop "$id" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" -verif "$verif" "${rflag[@]}" "$@"
exit $?
