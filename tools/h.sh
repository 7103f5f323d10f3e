#!/bin/bash
# runs one test of the harness: tools/h.sh TestC06 [budget [seed]]
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local GOWORK=off HOME=/root
V=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d)
python3 - "$V" "$T" "$1" <<'P'
import sys; sys.path.insert(0,sys.argv[1])
import check
check.overlay(sys.argv[2],sys.argv[3].replace('Test',''))
P
cd /repo && go test -c -vet=off -overlay $T/overlay.json -o $T/h.test $(cat $T/pkg) && cd $T && VERIF_BUDGET=${2:-5} VERIF_SEED=${3:-1} TMPDIR=$T VERIF_STATS=$T/st VERIF_CURRENT=$T/cur timeout 300 ./h.test -test.run "^($1)\$" -test.timeout 280s 2>&1 | head -${4:-60}
[ -f $T/st ] && cut -c1-200 $T/st; echo
rm -rf "$T"
