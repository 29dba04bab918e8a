#!/bin/bash
# build_rank.sh DIM SRC OUT [extra flags]: rank-side shared library from /repo sources
D=$1; SRC=$2; OUT=$3; shift 3
V=$(cd "$(dirname "$0")/.." && pwd)
R=${REPO:-/repo}
exec g++ -std=gnu++17 -O1 -w -fopenmp -fPIC -fno-gnu-unique -fvisibility=hidden -ftrivial-auto-var-init=pattern \
 -DEXT_GDIMENSION=$D -DPARALLEL_IO -DLOG_STRIP_LEVEL=5 \
 -I$V/lib/simmpi -I$V/stubs -I$V/lib -I$V/harness/tree -I$R/include -I$R/include/tree_topology -I$R/include/physics \
 -I$R/include/physics/eos -I$R/mpisph -I$R/app/drivers/include "$@" -shared -Wl,-Bsymbolic -o $OUT $SRC
