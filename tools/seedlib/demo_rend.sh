#!/bin/bash
# renders cases/<n>.rib with the built renderer and compares what the display was sent with cases/<n>.want
here=$(cd "$(dirname "$0")" && pwd); B=/repo/_build/main; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-std=gnu++14 -O0 -w -fPIC -DNDEBUG -I/repo/include -I$B/include -I/usr/include/Imath -I/usr/include/OpenEXR -I/repo/libs/shadervm"
L=""; for l in tex util math riutil slcomp; do L="$L -L$B/libs/$l -Wl,-rpath,$B/libs/$l -laqsis_$l"; done
g++ $I "$here/rendtool.cpp" "$here/stub.cpp" -o $T/rendtool -Wl,--start-group $B/libs/core/libaqsis_core_objects.a $B/libs/shadervm/libaqsis_shadervm_objects.a -Wl,--end-group $L \
  -lboost_filesystem -lboost_thread -lboost_system -lboost_timer -lboost_regex -ltiff -ldl -lpthread -rdynamic || exit 2
g++ $I -shared "$here/cap_dspy.cpp" -o $T/cap_dspy.so || exit 2
for s in "$here"/sl/*.sl /repo/shaders/light/{ambientlight,pointlight,distantlight}.sl; do [ -f "$s" ] && (cd $T; $B/tools/aqsl/aqsl -o $T/$(basename ${s%.sl}).slx $s) || true; done
rc=0
for f in "$here"/cases/*.rib; do
  n=${f%.rib}; d=$T/w; rm -rf $d; mkdir $d; cp "$here"/cases/*.inc "$here"/cases/*.tif $d 2>/dev/null
  ( echo "Option \"searchpath\" \"string shader\" [\"$T:&\"] \"string display\" [\"$T:&\"] \"string archive\" [\".\"] \"string texture\" [\".\"]"
    echo 'Option "display" "string cap" ["cap_dspy.so"] Option "statistics" "int endofframe" [0]'; cat $f ) > $d/s.rib
  st=$(echo "$d s.rib log 60" | $T/rendtool)
  ( cd $d; for c in *.cap; do echo "== $c"; cat $c; done; grep -a "^@" log | sort -u; echo "status $st" ) > $T/got 2>/dev/null
  if [ -n "$MAKE" ]; then cp $T/got $n.want; fi
  python3 "$here/capcmp.py" $n.want $T/got || { echo "differs: $(basename $n)"; rc=1; }
done
exit $rc
