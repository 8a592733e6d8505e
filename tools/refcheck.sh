#!/bin/bash
# Development tool (no check uses it): runs checks against a refactored scratch copy of /repo.
#   refcheck.sh [ID...]
set -e
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=mod
W=$(mktemp -d /tmp/refcheck.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /verif/harness "$W/harness"
python3 /verif/tools/refactor.py "$W/repo"
(cd "$W/repo" && go vet ./mqttp ./vlmonitoring >/dev/null && go test ./... >"$W/test" 2>&1) || { tail "$W/test"; }
sed -i "s#=> /repo#=> $W/repo#" "$W/harness/go.mod"
mkdir "$W/v"; cp -a /verif/check.sh /verif/known_findings "$W/v/"; mv "$W/harness" "$W/v/harness"
for i in ${@:-$(seq -f C%02g 1 41)}; do
  "$W/v/check.sh" $i 2>&1 | tail -${TAIL:-3} || true
done
