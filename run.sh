#!/bin/bash
# run.sh <property> [quick|thorough]   build the checker against /repo's working tree and run one check
# run.sh replay <file>                 evaluate a replay file again
# run.sh build                         only build (setup)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
export TZ=UTC
export HV_DIR="$here"
export HV_TMP="$(mktemp -d /tmp/hv.XXXXXX)"
scr="$(mktemp -d /dev/shm/hv.XXXXXX 2>/dev/null || echo "$HV_TMP/scr")" # small scratch files: memory is much faster than the disk
mkdir -p "$scr"
trap 'rm -rf "$HV_TMP" "$scr"' EXIT
mkdir "$HV_TMP/src" && cp -r "$here/h/." "$HV_TMP/src/" || exit 2
[ -n "${HV_REPO:-}" ] && sed -i "s#=> /repo#=> $HV_REPO#" "$HV_TMP/src/go.mod" # another tree, for experiments
export TMPDIR="$HV_TMP"
(cd "$HV_TMP/src" && go build -o "$HV_TMP/hv" .) || { echo "cannot build the checker against /repo"; exit 2; }
export TMPDIR="$scr"
case "${1:-}" in
build) exit 0 ;;
replay) "$HV_TMP/hv" replay "$2" ; exit $? ;;
gen) "$HV_TMP/hv" gen "$2" "${3:-0}" ; exit $? ;;
*) "$HV_TMP/hv" check "$1" ${2:-} ; exit $? ;;
esac
