#!/bin/bash
# build_real.sh DIM OUT: the lives as a program for the real MPI and HDF5
V=$(cd "$(dirname "$0")/../.." && pwd)
R=${REPO:-/repo}
OMPI_CXX=g++ exec mpic++ -std=gnu++17 -O1 -w -fopenmp -ftrivial-auto-var-init=pattern -DEXT_GDIMENSION=$1 -DPARALLEL_IO -DLOG_STRIP_LEVEL=5 -I$V/stubs -I$V/harness/io \
 -I$R/include -I$R/include/tree_topology -I$R/include/physics -I$R/include/physics/eos -I$R/mpisph -I$R/app/drivers/include \
 -isystem /usr/include/hdf5/openmpi $V/harness/io/real.cc -o $2 -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5
