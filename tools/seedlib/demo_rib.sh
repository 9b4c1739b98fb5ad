#!/bin/bash
# runs cases/<n>.rib through ribpipe with the filters in cases/<n>.args and compares with cases/<n>.want
here=$(cd "$(dirname "$0")" && pwd); B=/repo/_build/main; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O0 -w -I/repo/include -I$B/include -I/usr/include/Imath "$here/ribpipe.cpp" -o $T/ribpipe \
  -L$B/libs/riutil -L$B/libs/util -laqsis_riutil -laqsis_util -Wl,-rpath,$B/libs/riutil:$B/libs/util:$B/libs/math -Wl,-rpath-link,$B/libs/math \
  -lboost_filesystem -lboost_thread -lboost_system -lboost_iostreams -lz || exit 2
rc=0
cd $T; cp "$here"/cases/*.inc $T 2>/dev/null
for f in "$here"/cases/*.rib; do
  n=${f%.rib}
  timeout 60 $T/ribpipe $(cat $n.args) < $f > $T/got 2>&1
  if [ -n "$MAKE" ]; then cp $T/got $n.want; fi
  if ! cmp -s $T/got $n.want; then echo "differs: $(basename $n)"; diff -a $n.want $T/got; rc=1; fi
done
exit $rc
