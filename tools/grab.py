"""grab.py ID: runs the check of planted bug ID with the bug applied and keeps its smallest replay as demo case seedlib/cases/ID.rib"""
import glob, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
id = sys.argv[1]; prop, edits = mkseed.BUGS[id][:2]
mkseed.edit(edits)
try:
    subprocess.call("rm -rf /verif/replays/%s" % prop, shell=True)
    p = subprocess.run([sys.executable, "-m", "vf.check", prop, "quick"], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(p.returncode, p.stdout.decode()[-600:])
    best = None
    for f in glob.glob("/verif/replays/%s/*.json" % prop):
        c = json.load(open(f))["case"]
        if best is None or len(c["rib"]) < len(best["rib"]): best = c
    if best:
        ls = best["rib"].split("\n")
        ls = [l for l in ls if not l.startswith('Option "searchpath"') and not l.startswith('Option "display"') and not l.startswith('Option "statistics"')]
        os.makedirs("/verif/tools/seedlib/cases", exist_ok=True)
        open("/verif/tools/seedlib/cases/%s.rib" % id, "w").write("\n".join(ls))
        for k, v in (best.get("sl") or {}).items(): open("/verif/tools/seedlib/cases/%s+%s" % (id, k), "w").write(v)
        for k, v in (best.get("files") or {}).items(): open("/verif/tools/seedlib/cases/%s@%s" % (id, k), "wb").write(bytes.fromhex(v))
finally: subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
