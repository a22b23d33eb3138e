#!/bin/bash
# exit 0: behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
unset LC_ALL LD_LIBRARY_PATH
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_plm=isolated OMPI_MCA_rmaps_base_oversubscribe=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
n=$(sed -n 's/^\/\/ ranks: //p' "$here/demo.cpp")
mpicxx -std=c++17 -O1 -I/repo/src -I/repo/_build/src -I"$here" "$here/demo.cpp" -L/repo/_build -lprecice -Wl,-rpath,/repo/_build -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 60 mpirun -n "$n" ./demo
