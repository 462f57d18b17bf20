# recompile repo sources to build/bc ; args: names
cd /verif/build; mkdir -p bc; F="-fno-pic -std=c++17 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -emit-llvm -c -I/verif/rt -isystem /verif/rt/shadow -isystem /verif/rt/hf -include cassert -I${REPO:-/repo}/lib/tetgen -I${REPO:-/repo}/src"
for s in "$@"; do clang++-18 $F ${REPO:-/repo}/src/$s.cpp -o bc/$s.bc & done; wait
