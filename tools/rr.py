#!/usr/bin/env python3
"""render one replay case again and show the log and pixels: tools/rr.py replay.json"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, rend
r = json.load(open(sys.argv[1]))["case"]["rib"] if sys.argv[1].endswith(".json") else open(sys.argv[1]).read()
print(r)
o = rend.render(build.OUT + "/rendtool", [r], "/tmp/rr")[0]
print("rc", o.rc); print(o.log)
for im in o.images["out.cap"]:
    print(im.w, im.h, im.fmt, "closed", im.closed)
    for k, v in sorted(im.pixels().items()): print(k, v)
