#!/bin/bash
# developer build of the schedule explorer: build_dev2.sh OUTDIR [repo]
set -e
O=$1; R=${2:-/repo}
mkdir -p $O
cd $(dirname $0)
[ -f $O/libp/build.ninja ] || cmake -S $R -B $O/libp -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS="-O1 -U_FORTIFY_SOURCE -Wno-error" >/dev/null 2>&1
ninja -C $O/libp kqueue_static >/dev/null
WRAP=$(for s in $(cat wraps.txt); do echo -n " -Wl,--wrap=$s"; done)
SRC="rt sched fine $(ls scn_*.cc | sed 's/\.cc//')"
for f in $SRC; do
  [ $O/p_$f.o -nt $f.cc -a $O/p_$f.o -nt sched.h -a $O/p_$f.o -nt rt.h ] || g++ -std=c++17 -O1 -g -U_FORTIFY_SOURCE -I$R/include -c $f.cc -o $O/p_$f.o &
done; wait
g++ -static -o $O/kqsc $(for f in $SRC; do echo $O/p_$f.o; done) $O/libp/libkqueue.a $WRAP -lpthread
