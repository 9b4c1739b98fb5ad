"""Malformed RIB: one diagnostic per malformed request, everything else delivered (spec RibErrors)."""
import random, re
from vf import build, tlc, rib

ERR = {"plus": b"+", "exp": b"1e", "dot": b".", "reserved": b"\xd5", "undefstr": b"\xcf\x09", "undefreq": b"\xa6\x09"}
SEP = {"sp": b" ", "nl": b"\n", "crlf": b"\r\n", "cr": b"\r", "comment": b" # a [comment] \"here\n", "nlnl": b"\n\n", "tab": b"\t", "long": b" " * 250 + b"\r\n"}

def render(toks):
    r = b""
    for t in toks:
        if t["k"] == "STR": b = b'"' + t["v"].encode() + b'"'
        elif t["k"] == "ERR": b = ERR[t["v"]]
        else: b = t["v"].encode()
        r += b + (b" " if t["k"] in ("REQ", "INT", "FLT", "ERR") and t["sep"] in ("cr",) else b"") + SEP[t["sep"]]
    return r

def val(t):
    return t["v"] if t["k"] == "STR" else float(t["v"])

def atoms(call):
    r = []
    def flat(x):
        if isinstance(x, list):
            for y in x: flat(y)
        else: r.append(x)
    flat(call["a"])
    for ty, name, v in call["p"]: r.append((ty, name)); flat(v)
    return r

PN = {"uniform float fa": ("uniform float[1]", "fa"), "uniform string sa": ("uniform string[1]", "sa"), "uniform int ia": ("uniform int[1]", "ia")}

def mismatch(c, o, name, base):
    if o.crash: return "the parser gave " + o.crash
    if o.exc: return "parsing stopped with an exception: " + o.exc[0]
    evs = [e for e in o.events if not (e[0] == "C" and e[1]["n"] == "ArchiveRecord")]
    exp = c["ev"]
    for i in range(max(len(exp), len(evs))):
        if i >= len(evs): return "event %d missing, expected %r" % (i, exp[i])
        if i >= len(exp): return "unexpected event %r" % (evs[i],)
        x, (k, y) = exp[i], evs[i]
        if x["c"]:
            if k != "C": return "event %d: expected the call %s, got the diagnostic %r" % (i, x["n"], y)
            if y["n"] != x["n"]: return "event %d: expected the call %s, got %s" % (i, x["n"], y["n"])
            ea = []
            inpar = False
            for t in x["a"]:
                v = val(t)
                ea.append(v)
            ga = atoms(y)
            if len(ga) != len(ea): return "%s called with %r, written %r" % (x["n"], ga, ea)
            for g, e in zip(ga, ea):
                if isinstance(g, tuple): ok = PN.get(e) == g
                elif isinstance(g, str): ok = (g == e) or (isinstance(e, float) and g == str(int(e)))
                else: ok = g == e
                if not ok: return "%s called with %r, written %r" % (x["n"], ga, ea)
        else:
            if k != "E": return "event %d: expected a diagnostic for %r, got %r" % (i, x["n"], y)
            mm = re.search(re.escape(name) + r":(\d+)", y)
            if not mm: return "diagnostic without position: %r" % y
            l = int(mm.group(1))
            if not (x["lo"] + base <= l <= x["hi"] + base): return "diagnostic for %r names line %d, expected %d..%d: %r" % (x["n"], l, x["lo"] + base, x["hi"] + base, y)
            if x["n"] and x["n"] not in y: return "diagnostic does not name the request %s: %r" % (x["n"], y)
    return None

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Accounted", "LinesOK", "EndOK", "Emit"]
    sim = tlc.simulate("RibErrors", seed=ctx.seed, num=ctx.pick(4000, 40000), depth=400, procs=8, timeout=600,
        constants={"Toks <-": "AllToks", "MaxTok": 40, "Planned": True, "Seps": '{"sp", "nl", "crlf", "cr", "comment", "nlnl", "tab", "long"}'}, invariants=inv)
    ctx.model(sim)
    bfs = tlc.run("RibErrors", constants={"Toks <-": "FewToks", "MaxTok": ctx.pick(4, 5), "Planned": False, "Seps": '{"nl"}'}, invariants=inv, timeout=800, workers=8)
    ctx.model(bfs)
    cases, meta = [], []
    for r, deep in ((sim, True), (bfs, False)):
        for c in r.cases:
            raw = render(c["toks"])
            cases.append(rib.Case(raw)); meta.append((c, 0))
            if deep:
                n = rnd.randint(0, 300)
                cases.append(rib.Case(b" " * n + b"\r\n" + raw, chunk=rnd.choice([0, 1, 3, 100]))); meta.append((c, 1))
    outs = rib.run_cases(exe, cases, ctx.work)
    for (c, base), case, o in zip(meta, cases, outs):
        ctx.add("traces_validated_against_impl")
        x = mismatch(c, o, "main", base)
        if x and len(ctx.violations) < 5: ctx.violation(x, dict(case.describe(), expected=c["ev"]))
    ctx.sample({"rib": cases[0].ribs[0][1].decode("latin1"), "events": [(e["n"], e["c"]) for e in meta[0][0]["ev"]]})
