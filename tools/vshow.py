"""vshow.py PROP: the messages of the replays of PROP"""
import glob, json, sys
for f in sorted(glob.glob("/verif/replays/%s/*.json" % sys.argv[1])):
    print(f.split("/")[-1], json.load(open(f))["what"][:int(sys.argv[2]) if len(sys.argv) > 2 else 200])
