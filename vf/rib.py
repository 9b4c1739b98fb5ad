"""Runs cases through harness/ribtool."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor

class Case:
    """filters: list of strings 'name k=v'; ribs: list of (name, bytes); files: {name: bytes}; write: None or str"""
    def __init__(self, ribs, filters=(), files=None, write=None, chunk=0):
        self.chunk = chunk
        if isinstance(ribs, (bytes, str)): ribs = [("main", ribs)]
        self.ribs = [(n, b.encode("latin1") if isinstance(b, str) else b) for n, b in ribs]
        self.filters, self.write = list(filters), write
        self.files = {k: (v.encode("latin1") if isinstance(v, str) else v) for k, v in (files or {}).items()}
    def text(self, cid):
        o = ["CASE %s" % cid] + ["FILT " + f for f in self.filters]
        if self.write is not None: o.append("WRITE " + self.write)
        if self.chunk: o.append("CHUNK %d" % self.chunk)
        for n, b in self.files.items(): o.append("FILE %s %s" % (n, b.hex()))
        for n, b in self.ribs: o.append("RIB %s %s" % (n, b.hex()))
        o.append("GO")
        return "\n".join(o) + "\n"
    def describe(self):
        return {"filters": self.filters, "write": self.write, "chunk": self.chunk, "files": {k: v.decode("latin1") for k, v in self.files.items()},
                "rib": [(n, b.decode("latin1")) for n, b in self.ribs]}

class Out:
    def __init__(self):
        self.calls = []; self.calls2 = []; self.errors = []; self.exc = []; self.written = None; self.crash = None; self.events = []

def _parse(lines):
    o = Out()
    for l in lines:
        k, _, rest = l.partition(" ")
        if k == "C": o.calls.append(json.loads(rest)); o.events.append(("C", o.calls[-1]))
        elif k == "C2": o.calls2.append(json.loads(rest))
        elif k == "E": o.errors.append(json.loads(rest)); o.events.append(("E", o.errors[-1]))
        elif k in ("X", "X2"): o.exc.append(json.loads(rest)); o.events.append((k, o.exc[-1]))
        elif k == "W": o.written = bytes.fromhex(rest)
        elif k == "S": o.events.append(("S", rest))
    return o

def _batch(exe, cases, base, cwd, timeout):
    res = [None] * len(cases)
    start = 0; bad = 0
    while start < len(cases):
        if bad >= 3:          # enough: the rest is not worth waiting for
            for k in range(start, len(cases)): res[k] = Out(); res[k].crash = "not run after three crashes"
            break
        inp = "".join(c.text(base + start + i) for i, c in enumerate(cases[start:])).encode()
        rc = None
        try:
            p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = e.stdout or b"", "timeout"
        cur = None; ndone = 0
        for l in out.decode("latin1").split("\n"):
            if l.startswith("BEGIN "): cur = []
            elif l.startswith("END "):
                k = int(l.split()[1]) - base
                res[k] = _parse(cur); cur = None; ndone = k + 1 - start
            elif cur is not None: cur.append(l)
        if ndone < len(cases) - start:
            o = Out(); o.crash = "no answer (exit %s)" % rc
            res[start + ndone] = o; bad += 1
            if rc == "timeout": timeout = min(timeout, 30)
            start += ndone + 1
        else:
            if rc not in (0,) :
                pass
            start += ndone
    return res

def run_cases(exe, cases, workdir, procs=8, timeout=120):
    """Executes all cases; a case on which the code crashed or hung has .crash set."""
    if not cases: return []
    n = max(1, min(procs, len(cases)))
    chunks = [(i * len(cases) // n, (i + 1) * len(cases) // n) for i in range(n)]
    def one(k):
        a, b = chunks[k]
        cwd = os.path.join(workdir, "p%d" % k); os.makedirs(cwd, exist_ok=True)
        return _batch(exe, cases[a:b], a, cwd, timeout)
    with ThreadPoolExecutor(n) as ex: parts = list(ex.map(one, range(n)))
    return [x for p in parts for x in p]
