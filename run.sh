#!/bin/bash
# run.sh PROPERTY            build from /repo's working tree, run the property's monitors
# run.sh --replay FILE       repeat the case a replay file describes
# run.sh --build DIR         only build (binaries go to DIR)
# run.sh --setup             build everything once, keep nothing but the build cache
# Environment: VERIF_SEED, VERIF_TIER (quick|thorough), VERIF_REPO (default /repo)
set -u
verif=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_DIR=$verif
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly
unset GOROOT GOOS GOARCH GOEXPERIMENT GODEBUG 2>/dev/null
repo=${VERIF_REPO:-/repo}

scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX") || exit 3
trap 'chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
trap 'exit 3' INT TERM
export VERIF_SCRATCH=$scratch
export TMPDIR=$scratch/tmp; mkdir -p "$TMPDIR"

export GOCOVERDIR=$scratch/cov0; mkdir "$GOCOVERDIR"
mkdir "$scratch/src"
cp "$verif"/harness/*.go "$verif"/harness/*.s "$verif"/harness/go.mod "$scratch/src/" || exit 3
# go.sum comes from the repository under test plus what the harness adds
cat "$repo/go.sum" "$verif/harness/go.sum" 2>/dev/null | sort -u > "$scratch/src/go.sum"
sed -i "s#=> /repo\$#=> $repo#" "$scratch/src/go.mod"

build() { # build OUT FLAGS...
  local out=$1; shift
  (cd "$scratch/src" && go build -ldflags=-checklinkname=0 -o "$out" "$@") 2>"$scratch/build.log" || {
    echo "BUILD FAILED: $*"; head -c 4000 "$scratch/build.log"; exit 3; }
}
cover="-cover -coverpkg=verif/harness,github.com/drone/drone-yaml/..."

case "${1:-}" in
--setup)
  build "$scratch/harness" $cover . ; build "$scratch/drone-yaml" $cover github.com/drone/drone-yaml; echo "setup ok"
  exit 0;;
--build)
  build "$2/harness" $cover . ; build "$2/drone-yaml" github.com/drone/drone-yaml
  exit 0;;
--replay)
  export VERIF_CLI=$scratch/drone-yaml
  build "$scratch/drone-yaml" github.com/drone/drone-yaml
  prop=$(sed -n 's/^ *"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)
  if [ "$prop" = C32 ]; then
    build "$scratch/harness-oss" -tags oss . ; export VERIF_OSS=$scratch/harness-oss
    build "$scratch/oss/drone-yaml" -tags oss github.com/drone/drone-yaml; export VERIF_CLI_OSS=$scratch/oss/drone-yaml
  fi
  if [ "$prop" = C17 ]; then build "$scratch/harness" -race . ; else build "$scratch/harness" . ; fi
  "$scratch/harness" replay "$2"
  exit $?;;
"") echo "usage: run.sh PROPERTY"; exit 2;;
esac

prop=$1
build "$scratch/harness" $cover .
case $prop in
C28) build "$scratch/drone-yaml" github.com/drone/drone-yaml; export VERIF_CLI=$scratch/drone-yaml
  build "$scratch/drone-yaml-cov" $cover github.com/drone/drone-yaml; export VERIF_CLI_COV=$scratch/drone-yaml-cov;;
C31|C32) build "$scratch/drone-yaml" github.com/drone/drone-yaml; export VERIF_CLI=$scratch/drone-yaml
  if [ $prop = C32 ]; then
    build "$scratch/harness-oss" -tags oss $cover . ; export VERIF_OSS=$scratch/harness-oss
    build "$scratch/oss/drone-yaml" -tags oss github.com/drone/drone-yaml; export VERIF_CLI_OSS=$scratch/oss/drone-yaml
  fi;;
C17) build "$scratch/harness-race" -race . ; export VERIF_CHILD=$scratch/harness-race;;
esac
"$scratch/harness" "$prop"
exit $?
