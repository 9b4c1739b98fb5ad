"""Runs the renderer on generated RIBs and decodes what reached the capturing display."""
import os, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build

FMT = {1: ("f", 4), 2: ("I", 4), 3: ("i", 4), 4: ("H", 2), 5: ("h", 2), 6: ("B", 1), 7: ("b", 1)}

class Image:
    """one open..close of the capturing display"""
    def __init__(self): self.w = self.h = 0; self.asked = []; self.fmt = []; self.params = {}; self.data = []; self.closed = 0
    def pixels(self):
        """{(x, y): [values]}; raises if a pixel is delivered twice"""
        r = {}
        code = "<" + "".join(FMT[t][0] for _, t in self.fmt)
        size = struct.calcsize(code)
        for x0, x1, y0, y1, sz, raw in self.data:
            if sz != size: raise ValueError("element size %d, expected %d" % (sz, size))
            k = 0
            for y in range(y0, y1):
                for x in range(x0, x1):
                    if (x, y) in r: raise ValueError("pixel %d,%d delivered twice" % (x, y))
                    r[x, y] = struct.unpack_from(code, raw, k); k += size
        return r

def read_cap(path):
    imgs = []
    if not os.path.exists(path): return imgs
    cur = None
    for l in open(path, errors="replace"):
        t = l.rstrip("\n").split(" ")
        if t[0] == "O":
            cur = Image(); imgs.append(cur); cur.w, cur.h = int(t[1]), int(t[2])
            cur.asked = [(a.rsplit(":", 1)[0], int(a.rsplit(":", 1)[1])) for a in t[3:]]
        elif t[0] == "F": cur.fmt = [(a.rsplit(":", 1)[0], int(a.rsplit(":", 1)[1])) for a in t[1:]]
        elif t[0] == "P":
            v = t[4:]
            cur.params[t[1]] = [float(x) for x in v] if t[2] == "f" else [int(x) for x in v] if t[2] == "i" else [bytes.fromhex(x).decode("latin1") for x in v]
        elif t[0] == "D": cur.data.append(tuple(int(x) for x in t[1:6]) + (bytes.fromhex(t[6]),))
        elif t[0] == "C": cur.closed += 1
    return imgs

class Out:
    def __init__(self, rc, log, images, dir): self.rc, self.log, self.images, self.dir = rc, log, images, dir

def header(dd, sd, extra=""):
    return ('Option "searchpath" "string shader" ["%s:&"] "string display" ["%s:&"] "string archive" ["."] "string texture" ["."]\n'
            'Option "display" "string cap" ["cap_dspy.so"]\nOption "statistics" "int endofframe" [0]\n%s' % (sd, dd, extra))

def render(exe, ribs, work, caps=("out.cap",), procs=8, secs=60, files=None, keep=False):
    """ribs: list of RIB bytes/str; returns a list of Out, with the captured images of each file of caps in order."""
    top = os.path.join(work, "render"); shutil.rmtree(top, ignore_errors=True); os.makedirs(top)
    n = len(ribs); res = [None] * n
    def chunk(k):
        idx = list(range(k, n, procs))
        if not idx: return
        inp = ""
        for i in idx:
            d = os.path.join(top, str(i)); os.makedirs(d)
            b = ribs[i]
            open(d + "/s.rib", "wb").write(b.encode() if isinstance(b, str) else b)
            for fn, c in ((files or {}).get(i, {}) if isinstance(files, dict) else (files[i] if files else {})).items():
                open(os.path.join(d, fn), "wb").write(c if isinstance(c, bytes) else c.encode())
            inp += "%s s.rib log %d\n" % (d, secs)
        env = dict(os.environ, HOME=top, AQSISHOME="", LC_ALL="C")
        for v in list(env):
            if v.startswith("AQSIS"): del env[v]
        p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=secs * len(idx) + 60)
        rcs = p.stdout.decode().split()
        for j, i in enumerate(idx):
            d = os.path.join(top, str(i))
            rc = int(rcs[j]) if j < len(rcs) else 9999
            log = open(d + "/log", errors="replace").read() if os.path.exists(d + "/log") else ""
            try: imgs = {c: read_cap(os.path.join(d, c)) for c in caps}
            except Exception as e: imgs = {c: [] for c in caps}; log += "\nCAPTURE " + repr(e)
            res[i] = Out(rc, log, imgs, d)
            if not keep: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(procs) as ex: list(ex.map(chunk, range(procs)))
    return res
