#!/bin/bash
# Build the simulator from /repo's working tree. Usage: build.sh OUT_DIR [fast|asan]
set -e
out=$1; flavour=${2:-fast}
repo=${REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out"
case $flavour in
fast) CXX=${CXX:-g++}; F="-O1 -g0";;
asan) CXX=${CXX:-g++}; F="-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer";;
esac
src=$repo/src
INC="-I$here/sim -I$out -I$src"
for d in $(find "$src" -type d); do INC="$INC -I$d"; done
flex -o "$out/smt2_lexer_gen.cpp" "$src/parser/smt2_lexer.ll"
{
  echo "FLAGS=-std=c++20 $F -w -DYAGA_SIM -MMD -MP $INC"
  echo "CXX=$CXX"
  objs=
  rule() { # source object extra
    echo "$out/$2.o: $1"
    echo "	@\$(CXX) \$(FLAGS) $3 -c $1 -o \$@"
    objs="$objs $out/$2.o"
  }
  for f in $(find "$src" -name '*.cpp' ! -name sat_solver.cpp ! -name smt_solver.cpp ! -name lexer_test.cpp | sort); do
    rule "$f" "y_$(echo "${f#$src/}" | tr '/.' '__')"
  done
  rule "$out/smt2_lexer_gen.cpp" y_lexer
  for t in smt sat; do # the tools' main() under another name
    echo "$out/y_${t}_solver.o: $src/${t}_solver.cpp"
    echo "	@\$(CXX) \$(FLAGS) -c $src/${t}_solver.cpp -o \$@ && objcopy --redefine-sym main=yaga_${t}_main \$@"
    objs="$objs $out/y_${t}_solver.o"
  done
  for f in "$here"/sim/*.cpp; do
    b=$(basename "$f" .cpp)
    rule "$f" "s_$b"
  done
  echo "$out/simyaga: $objs"
  echo "	@\$(CXX) \$(FLAGS) $objs -lgmpxx -lgmp -o \$@"
  echo "-include $out/*.d"
} > "$out/Makefile"
make -s -j"${JOBS:-10}" -f "$out/Makefile" "$out/simyaga"
