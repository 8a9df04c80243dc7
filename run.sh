#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--only section:index]
# Builds the explorer against the working tree of /repo and runs one check.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
id=$1; shift
args=()
while [ $# -gt 0 ]; do
	case $1 in
	--tier) args+=(-tier "$2"); shift 2 ;;
	--only) args+=(-only "$2"); shift 2 ;;
	*) echo "unknown argument $1" >&2; exit 2 ;;
	esac
done
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
export MC_SCRATCH=$bin
cd "$here/mc" || exit 2
if ! go build -o "$bin/mc" . ; then
	echo "the explorer does not build against /repo" >&2
	exit 2
fi
"$bin/mc" -check "$id" "${args[@]}"
exit $?
