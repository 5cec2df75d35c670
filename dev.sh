#!/bin/bash
# development: run one test pattern once, in one process: dev.sh PATTERN [SEED] [extra flags]
. /opt/vp/env.sh
cd /verif/harness
export GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
D=/tmp/verif-dev; mkdir -p $D/s; 
[ $D/nchelper -nt /verif/capi/nchelper.c ] || gcc -O1 -g -w $(pkg-config --cflags hdf5) /verif/capi/nchelper.c -o $D/nchelper $(pkg-config --libs-only-L hdf5) -lhdf5 /usr/lib/x86_64-linux-gnu/libnetcdf.so.19
go test -c -vet=off -o $D/checks.test ./checks || exit 2
cd $D/s; rm -rf testdata
export VERIF_HELPER=$D/nchelper VERIF_SCRATCH=$D/s/tmp VERIF_OUT=$D/s/out.json VERIF_KNOWN=/verif/known_findings.txt VERIF_SHARDS=${SHARDS:-4}
P=$1; S=${2:-11}; shift 2
$D/checks.test -test.run "$P" -test.v -rapid.seed=$S -test.timeout 0 "$@" > $D/log 2>&1
grep -v '\[rapid\] draw' $D/log | cut -c1-${W:-1500} | tail -${T:-25}
