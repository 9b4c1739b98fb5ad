"""Edits /repo as one planted bug: mkseed.py ID  (bugs are defined in seedlib/bugs_*.py; patches are kept in /verif/seeded)"""
import glob, importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo, files=None):
    BUGS[id] = (prop, edits, needs, breaks, demo, files or {})
for f in sorted(glob.glob(H + "/seedlib/bugs_*.py")):
    exec(compile(open(f).read(), f, "exec"))
def edit(edits):
    for e in edits:
        f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
        p = "/repo/" + f; t = open(p).read()
        assert t.count(old) >= n and (n > 1 or t.count(old) == 1 or len(e) > 3), (f, t.count(old))
        i = -1
        for _ in range(n): i = t.index(old, i + 1)
        t = t[:i] + new + t[i+len(old):]
        open(p, "w").write(t)
def apply(id):
    prop, edits, needs, breaks, demo, files = BUGS[id]
    d = "/verif/seeded/" + id
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    for k, v in files.items():
        p = os.path.join(d, k); os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(v, str) and v.startswith("@"): shutil.copy(os.path.join(H, "seedlib", v[1:]), p)
        else: open(p, "wb").write(v if isinstance(v, bytes) else v.encode())
    shutil.copy(os.path.join(H, "seedlib", demo), d + "/demo.sh") if demo.endswith(".sh") else open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if os.path.isdir(d + "/cases") and glob.glob(d + "/cases/*.rib"):
        subprocess.check_call(["bash", d + "/demo.sh"], cwd="/repo", env=dict(os.environ, MAKE="1"))
    edit(edits)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"]).decode())
if __name__ == "__main__": apply(sys.argv[1])
