"""Runs TLC on a specification of /verif/spec and collects what it printed."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .build import VERIF, OUT

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ModelError(Exception):
    pass

class Result:
    def __init__(self):
        self.cases = []; self.states = 0; self.distinct = 0; self.text = ""; self.ok = False; self.violated = None

def _fmt(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    return str(v)

def run(spec, cfg=None, constants=None, mode="bfs", seed=1, num=100, depth=50, workers=4, timeout=600,
        extra_files=None, env=None, invariants=(), init="Init", next_="Next", constraint=None, postcondition=None,
        specification=None, mem="3g", action_constraint=None, view=None, properties=(), allow_violation=False,
        coverage=False):
    """spec: path under /verif/spec without .tla.  Returns Result; lines printed by the model as
    PrintT("@@" \\o json) are returned decoded in .cases."""
    d = os.path.join(VERIF, "spec", os.path.dirname(spec)); name = os.path.basename(spec)
    os.makedirs(OUT + "/tlc", exist_ok=True)
    w = tempfile.mkdtemp(prefix=name + "_", dir=OUT + "/tlc")
    try:
        for dd in (os.path.join(VERIF, "spec"), d):
            for f in os.listdir(dd):
                if f.endswith(".tla"): shutil.copy(os.path.join(dd, f), w)
        for fn, content in (extra_files or {}).items():
            with open(os.path.join(w, fn), "w") as f: f.write(content)
        lines = []
        if specification: lines.append("SPECIFICATION " + specification)
        else: lines += ["INIT " + init, "NEXT " + next_]
        for k, v in (constants or {}).items(): lines.append("CONSTANT %s %s" % (k, _fmt(v)) if k.endswith("<-") else "CONSTANT %s = %s" % (k, _fmt(v)))
        for i in invariants: lines.append("INVARIANT " + i)
        for i in properties: lines.append("PROPERTY " + i)
        if constraint: lines.append("CONSTRAINT " + constraint)
        if action_constraint: lines.append("ACTION_CONSTRAINT " + action_constraint)
        if view: lines.append("VIEW " + view)
        if postcondition: lines.append("POSTCONDITION " + postcondition)
        lines.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(w, "m.cfg"), "w").write("\n".join(lines) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", CP, "tlc2.TLC",
               "-config", "m.cfg", "-metadir", os.path.join(w, "meta"), "-workers", str(workers), "-noGenerateSpecTE"]
        if coverage: cmd += ["-coverage", "1"]
        if mode == "simulate": cmd += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
        else: cmd += ["-fp", "1"]
        cmd.append(name + ".tla")
        try:
            p = subprocess.run(cmd, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 60,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out on %s" % spec)
        r = Result(); r.rc = p.returncode
        seen = set()
        rest = []
        for l in p.stdout.decode("utf-8", "replace").splitlines():
            if l.startswith('"@@'):
                if l in seen: continue
                seen.add(l)
                try: r.cases.append(json.loads(json.loads(l)[2:]))
                except Exception as e: raise ModelError("bad model output: %s (%s)" % (l[:300], e))
            elif not l.startswith(("Parsing file", "Semantic processing", "Linting of")): rest.append(l)
        r.text = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.text)
        if m: r.states, r.distinct = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", r.text) or re.findall(r"([\d,]+) states checked", r.text)
            if m: r.states = int(m[-1].replace(",", ""))
        v = re.search(r"(Invariant|Property|Temporal properties|Postcondition|Assumption|Action property)[^\n]*(violated|were violated|is false)[^\n]*", r.text)
        if v: r.violated = v.group(0)
        r.ok = p.returncode == 0
        if not r.ok and not (allow_violation and r.violated):
            raise ModelError("TLC failed on %s (rc %d):\n%s" % (spec, p.returncode, r.text[-3000:]))
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)

def simulate(spec, seed, num, depth, procs=4, **kw):
    """Random behaviours of the specification, in `procs` TLC processes with derived seeds."""
    def one(k):
        return run(spec, mode="simulate", seed=seed * 1000 + k, num=max(1, num // procs), depth=depth, workers=1, mem="1g", **kw)
    with ThreadPoolExecutor(procs) as ex: rs = list(ex.map(one, range(procs)))
    r = Result(); r.ok = True
    seen = set()
    for x in rs:
        for c in x.cases:
            k = json.dumps(c, sort_keys=True)
            if k not in seen: seen.add(k); r.cases.append(c)
        r.states += x.states
    return r
