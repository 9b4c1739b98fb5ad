"""The C interface: contexts, handles, implied array lengths (spec RiApi)."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vf import build, tlc, rib

hx = lambda s: s.encode().hex()
FLOATS = {"float", "point", "color", "hpoint", "matrix", "vector", "normal"}

def pvals(p, salt):
    """the values of a parameter: distinct, exactly representable"""
    n = p["size"]
    if p["ty"] == "string": return ["v%d_%d" % (salt, k) for k in range(n)]
    if p["ty"] == "int": return [salt * 7 + k for k in range(n)]
    return [salt + 0.5 * k for k in range(n)]

def line(e, salt):
    w = [e["n"], str(e["h"] if e["k"] == "call" else 0), e["form"]]
    for a in e["args"]:
        t, v = a["t"], a["v"]
        w.append(t + (hx(v) if t in "sxep" else ",".join(hx(x) for x in v.split(",")) if t == "S" and v else v))
    if e["par"]:
        w.append("P")
        for k, p in enumerate(e["par"]):
            vs = pvals(p, salt + k)
            w.append(hx(p["tok"]))
            w.append("S" + ",".join(hx(x) for x in vs) if p["ty"] == "string" else ("I" if p["ty"] == "int" else "F") + ",".join("%r" % x for x in vs))
    return " ".join(w)

def norm(a):
    t, v = a["t"], a["v"]
    if t == "i": return int(v)
    if t == "f": return float(v)
    if t == "I": return [int(x) for x in v.split(",")] if v else []
    if t == "F": return [float(x) for x in v.split(",")] if v else []
    if t == "S": return v.split(",") if v else []
    if t == "h": return ("h", int(v))
    return v

def want(e, salt):
    args = [norm(a) for a in e["args"] if a["r"]]
    if e["n"] == "Procedural": args = [args[1], args[2], args[0]]
    if e["n"] in ("LightSource", "AreaLightSource"): args.append(("h", e["h"]))
    if e["n"] == "ObjectBegin": args.append(("h", e["h"]))
    ps = [[p["spec"], p["nm"], pvals(p, salt + k)] for k, p in enumerate(e["par"])]
    return {"n": e["n"], "a": args, "p": ps}

def program(c):
    """the lines of the driver, the files, and per line the event"""
    lines, cur, live = [], 0, set()
    for k, e in enumerate(c):
        if e["k"] == "begin": lines.append("begin %d o%d.rib" % (e["c"], e["c"])); cur = e["c"]; live.add(cur)
        elif e["k"] == "end": lines.append("end"); live.discard(cur); cur = 0
        elif e["k"] == "switch": lines.append("switch %d" % e["c"]); cur = e["c"]
        elif e["k"] == "opt":
            lines.append("opt %s %s %s" % (e["form"], "Type" if e["n"] == "bin" else "Compression", ("Binary" if e["ok"] else "Ascii") if e["n"] == "bin" else ("Gzip" if e["ok"] else "None")))
        else: lines.append(line(e, k % 50 + 1))
    if cur: lines.append("end"); live.discard(cur)
    for d in sorted(live): lines += ["switch %d" % d, "end"]
    return lines

def run_programs(exe, progs, work, procs=8):
    """[(status, {handle: pointer}, [text reported by each line], {context: bytes})]"""
    res = [None] * len(progs)
    def one(j):
        for k in range(j, len(progs), procs):
            d = os.path.join(work, "c%d" % k); os.makedirs(d, exist_ok=True)
            p = subprocess.run([exe], input="CASE x\n%s\nGO\n" % "\n".join(progs[k]), text=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            st, hs = None, {}
            for l in p.stdout.split("\n"):
                w = l.split(" ")
                if w[0] == "H": hs[int(w[1])] = w[2]
                elif w[0] == "END": st = int(w[2])
            err = open(d + "/x.err", errors="replace").read() if os.path.exists(d + "/x.err") else ""
            files = {int(f[1:-4]): open(os.path.join(d, f), "rb").read() for f in os.listdir(d) if f.startswith("o")}
            res[k] = (st, hs, err.split("\n@done\n"), files)
            for f in os.listdir(d): os.unlink(os.path.join(d, f))
            os.rmdir(d)
    with ThreadPoolExecutor(procs) as ex: list(ex.map(one, range(procs)))
    return res

def run(ctx):
    rt, ct = build.ribtool(), build.capitool()
    ctx.level = "model_checking"
    inv = ["TypeOK", "HandlesApart", "Saved", "Emit"]
    K = lambda kinds, n, rand, nc=3: {"Kinds": kinds, "MaxLen": n, "Rand": rand, "NCtx": nc}
    n = ctx.pick(160, 3000)
    ms = [tlc.run("RiApi", constants=K('{"ctx", "block"}', ctx.pick(4, 5), False, 2), invariants=inv, workers=8, timeout=800),
          tlc.simulate("RiApi", seed=ctx.seed, num=n * 2, depth=400, procs=8, constants=K('{"ctx", "block", "plain", "basis", "decl", "prim", "handle"}', 60, True), invariants=inv),
          tlc.simulate("RiApi", seed=ctx.seed + 2, num=n, depth=400, procs=8, constants=K('{"ctx", "block", "basis", "prim"}', 60, True, 2), invariants=inv),
          tlc.simulate("RiApi", seed=ctx.seed + 4, num=n, depth=400, procs=8, constants=K('{"ctx", "block", "handle"}', 60, True), invariants=inv),
          tlc.simulate("RiApi", seed=ctx.seed + 6, num=n, depth=400, procs=8, constants=K('{"ctx", "plain", "decl"}', 60, True), invariants=inv)]
    cases = []
    for r in ms:
        ctx.model(r)
        cases += [c for c in r.cases if any(e["k"] == "begin" for e in c)]
    progs = [program(c) for c in cases]
    outs = run_programs(ct, progs, ctx.work)
    # what was written, read back
    rc, where = [], []
    for k, (st, hs, err, files) in enumerate(outs):
        for x, b in sorted(files.items()): rc.append(rib.Case([("main", b)])); where.append((k, x))
    got = {}
    for w, o in zip(where, rib.run_cases(rt, rc, ctx.work)): got[w] = o
    names = set()
    for k, c in enumerate(cases):
        st, hs, err, files = outs[k]
        ctx.add("traces_validated_against_impl"); ctx.add("calls_judged", len(c))
        bad = judge(k, c, st, hs, err, files, got, names)
        if bad and len(ctx.violations) < 5: ctx.violation(bad[0], {"program": progs[k], "at": bad[1], "events": c})
    ctx.cov["functions_accepted_at_least_once"] = len(names)
    ctx.sample({"program": progs[-1][:12]})

def judge(k, c, st, hs, err, files, got, names):
    if st != 0: return "the program ended with status %s after %d of %d calls" % (st, len(err) - 1, len(c)), len(err) - 1
    exp = {}; fmt = {}; frames = {}; orphan = False
    for j, e in enumerate(c):
        x = e["c"]
        if e["k"] == "begin": exp[x] = []; fmt[x] = e["fmt"]; frames[x] = [set()]; continue
        if e["k"] == "end": frames[x] = []; continue
        if e["k"] not in ("call", "use"): continue
        ok = e["ok"]
        if e["k"] == "use" and not ok and e["fmt"] == "scope":
            # a handle that is gone: its value may have been issued again
            ok = any(hs.get(h) == hs.get(e["h"]) and hs.get(h) not in (None, "(nil)", "0x0") for f in frames[x] for h in f)
            if ok: e = dict(e, args=[dict(e["args"][0], v=str([h for f in frames[x] for h in f if hs.get(h) == hs[e["h"]]][0]))] + e["args"][1:])
            # (a rejected call may have been given it for a moment)
            if not ok and orphan and not any(e["h"] in f for y in frames.values() for f in y) and err[j].strip() == "":
                ok = True; e = dict(e, args=[dict(e["args"][0], v="-1")] + e["args"][1:])
        told = err[j].strip() != ""
        if told != (not ok): return "call %d %s: %s" % (j + 1, line(e, j % 50 + 1), "reported as wrong: %s" % err[j].strip() if told else "is illegal and was not reported"), j
        if e["k"] == "call" and e["h"] and not ok and hs.get(e["h"]) not in ("(nil)", "0x0"): return "call %d %s: rejected but returned a handle" % (j + 1, e["n"]), j
        if not ok:
            orphan = orphan or (e["k"] == "call" and e["h"] > 0)
            continue
        names.add(e["n"])
        if e["k"] == "call" and e["h"]: frames[x][-1].add(e["h"])
        if e["n"] in ("FrameBegin", "WorldBegin"): frames[x].append(set())
        if e["n"] in ("FrameEnd", "WorldEnd") and len(frames[x]) > 1: frames[x].pop()
        exp[x].append((j, want(e, j % 50 + 1)))
    for x in exp:
        o = got.get((k, x))
        if o is None: return "context %d wrote no file" % x, 0
        b = files[x]
        f = "gz" if b[:2] == b"\x1f\x8b" else "bin" if any(y >= 128 for y in b) else "ascii"
        if fmt[x] != f and not (fmt[x] == "bin" and len(exp[x]) < 3): return "context %d: format %s, asked for %s" % (x, f, fmt[x]), 0
        if o.crash or o.exc: return "context %d: what was written cannot be read back: %s" % (x, o.crash or o.exc), 0
        calls = [y for y in o.calls if y["n"] != "ArchiveRecord"]
        hn = {}; rev = {}
        for m in range(max(len(calls), len(exp[x]))):
            if m >= len(calls): return "context %d: call %d %s is missing from the stream" % (x, exp[x][m][0] + 1, exp[x][m][1]["n"]), exp[x][m][0]
            if m >= len(exp[x]): return "context %d: the stream has %s, which was not called there" % (x, calls[m]["n"]), 0
            j, w = exp[x][m]
            if not same(w, calls[m], hn, c, j): return "context %d: call %d should write %s, the stream has %s" % (x, j + 1, str(w)[:400], str(calls[m])[:400]), j
    return None

def same(w, g, hn, c, j):
    if w["n"] != g["n"] or len(w["a"]) != len(g["a"]) or w["p"] != g["p"]: return False
    for a, b in zip(w["a"], g["a"]):
        if isinstance(a, tuple):
            if w["n"] in ("LightSource", "AreaLightSource", "ObjectBegin"): hn[a[1]] = b
            elif a[1] != -1 and hn.get(a[1]) != b: return False
        elif a != b: return False
    return True
