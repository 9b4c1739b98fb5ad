"""sshow.py PROP [k]: the shader of a replay"""
import json, sys
for k in sys.argv[2:] or ["0"]:
    d = json.load(open("/verif/replays/%s/case%s.json" % (sys.argv[1], k)))
    print("==", d["what"])
    for s in d["case"]["sl"].values(): print("\n".join("%3d %s" % (i + 1, l) for i, l in enumerate(s.split("\n")) if "aov" not in l))
