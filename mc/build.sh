#!/bin/bash
# Build check programs from /repo's current working tree.
#   build.sh <id>...     objects and programs go to /verif/build
# Objects of the repository are compiled with clang's thread-sanitizer
# instrumentation and linked against mcrt instead of the sanitizer runtime.
V=${VERIF_DIR:-$(cd "$(dirname "$0")/.." && pwd)}
R=${REPO_DIR:-/repo}
B=$V/build
mkdir -p $B/repo
exec 9>$B/.lock; flock 9
MK=$B/build.mk
{
echo "CXX=clang++"
echo "RF=-std=gnu++17 -O1 -g1 -I$R -DCACHELINE_SIZE=64 -DDEFAULT_CONFIG='\"/nonexistent\"' -fsanitize=thread -fno-pie -MMD -MP -w"
echo "HF=-std=gnu++17 -O1 -g1 -I$R -DCACHELINE_SIZE=64 -DDEFAULT_CONFIG='\"/nonexistent\"' -fno-pie -MMD -MP -w"
objs=""
for f in $R/cybozu/*.cpp $R/src/*.cpp $R/src/*/*.cpp; do
  case $f in */src/main.cpp) continue;; esac
  o=$B/repo/$(echo ${f#$R/} | tr / _).o
  objs="$objs $o"
  echo "$o: $f $MK.flags"; echo "	\$(CXX) \$(RF) -c $f -o $o"
done
echo "$B/mcrt.o: $V/mc/mcrt.cpp $V/mc/mcrt.hpp"; echo "	\$(CXX) -std=gnu++17 -O2 -g1 -fno-pie -w -c $V/mc/mcrt.cpp -o $B/mcrt.o"
# main.cpp, for the check of the program's start only
echo "$B/main.o: $R/src/main.cpp $MK.flags"; echo "	mkdir -p $B/gen/x; echo 'static char COPYING[] = \"license\";' > $B/gen/COPYING.hpp; \$(CXX) \$(RF) -I$B/gen/x -UDEFAULT_CONFIG -DDEFAULT_CONFIG=c34-default.conf -Dmain=yrmcdsd_main -c $R/src/main.cpp -o $B/main.o"
echo "-include $B/main.d"
for id in "$@"; do
  echo "$B/$id.o: $V/checks/$id.cpp"; echo "	\$(CXX) \$(HF) -c $V/checks/$id.cpp -o $B/$id.o"
  m=; [ $id = C34 ] && m=$B/main.o
  echo "$B/$id: $B/$id.o $B/mcrt.o $m $objs"; echo "	\$(CXX) -no-pie -rdynamic -o $B/$id $B/$id.o $B/mcrt.o $m $objs -latomic -lpthread -ldl"
  echo "-include $B/$id.d"
  T="$T $B/$id"
done
for o in $objs; do echo "-include ${o%.o}.d"; done
echo ".DEFAULT_GOAL := all"
echo "all: $T"
} > $MK
echo "$R v1" > $MK.flags.new; cmp -s $MK.flags.new $MK.flags || mv $MK.flags.new $MK.flags
make -s -j$(nproc) -f $MK all
