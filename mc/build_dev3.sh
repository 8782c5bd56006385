#!/bin/bash
# developer build of the fine-grained schedule explorer: build_dev3.sh OUTDIR [repo]
set -e
O=$1; R=${2:-/repo}
mkdir -p $O
cd $(dirname $0)
[ -f $O/libf/build.ninja ] || cmake -S $R -B $O/libf -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_FLAGS="-O1 -U_FORTIFY_SOURCE -Wno-error -fsanitize=thread" >/dev/null 2>&1
ninja -C $O/libf kqueue_static >/dev/null
objcopy --redefine-sym memcpy=kqf_memcpy --redefine-sym memset=kqf_memset --redefine-sym memmove=kqf_memmove $O/libf/libkqueue.a $O/libf/f.a
WRAP=$(for s in $(cat wraps.txt); do echo -n " -Wl,--wrap=$s"; done)
SRC="rt sched fine $(ls scn_*.cc | sed 's/\.cc//')"
for f in $SRC; do
  [ $O/f_$f.o -nt $f.cc -a $O/f_$f.o -nt sched.h -a $O/f_$f.o -nt rt.h ] || g++ -std=c++17 -O1 -g -U_FORTIFY_SOURCE -DKQ_FINE -I$R/include -c $f.cc -o $O/f_$f.o &
done; wait
g++ -static -o $O/kqsf $(for f in $SRC; do echo $O/f_$f.o; done) $O/libf/f.a $WRAP -lpthread
