#!/bin/bash
# builds the demonstration against /repo's library and runs it in a scratch directory
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=8 OMP_WAIT_POLICY=passive TMPDIR=$tmp OMPI_MCA_rmaps_base_oversubscribe=1
mpicxx -std=c++17 -O1 -w -fopenmp -DNDEBUG -DDISCOTEC_USE_LZ4 -DTIMING -DBOOST_SERIALIZATION_DYN_LINK -I"$repo/src" -I"$repo/tests" -I"$repo" -o "$tmp/demo" "$here/demo.cpp" "$repo/_build/src/libdiscotec.a" -lboost_serialization -lboost_date_time -lboost_system -lboost_program_options -llz4 -lglpk -lpthread 
cd "$tmp"
timeout -k 5 150 mpirun --oversubscribe -n 1 ./demo > out.txt 2>&1 || { tail -5 out.txt; exit 1; }
