#!/bin/bash
# developer build: build_dev.sh OUTDIR [repo]
set -e
O=$1; R=${2:-/repo}
mkdir -p $O
cd $(dirname $0)
[ -f $O/lib/build.ninja ] || cmake -S $R -B $O/lib -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS="-O1 -U_FORTIFY_SOURCE -Wno-error -fsanitize=address,bounds -fno-sanitize-recover=bounds" >/dev/null
ninja -C $O/lib kqueue_static >/dev/null
WRAP=$(for s in $(cat wraps.txt); do echo -n " -Wl,--wrap=$s"; done)
for f in rt seq worlds worlds2 main; do
  S=-fsanitize=address; [ $f = rt ] && S=
  [ $O/$f.o -nt $f.cc -a $O/$f.o -nt seq.h -a $O/$f.o -nt rt.h ] || g++ -std=c++17 -O1 -g -U_FORTIFY_SOURCE $S -I$R/include -c $f.cc -o $O/$f.o &
done; wait
g++ -fsanitize=address,bounds -o $O/kqmc $O/{rt,seq,worlds,worlds2,main}.o $O/lib/libkqueue.a $WRAP -lpthread
