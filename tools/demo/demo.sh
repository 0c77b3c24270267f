#!/bin/bash
# Builds the program beside this script against the library that build.sh left in ./_build and runs it.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
export MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_CBWR=COMPATIBLE
inc="-I include/public -I include/private -I algebra/_common -I algebra/mkl -I /opt/vp/venv/include -I _build/include/public -I $d"
gcc -w -g -O1 $inc "$d/demo.c" -o "$t/demo" _build/out/libosqpstatic.a -L/opt/vp/venv/lib -l:libmkl_rt.so.2 -Wl,-rpath,/opt/vp/venv/lib -lm -lpthread -ldl || exit 3
timeout 120 "$t/demo"
