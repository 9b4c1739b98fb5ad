"""Every encoding of a RIB stream denotes the same requests (spec RibCodec)."""
import gzip, random
from vf import build, tlc, rib

def pad(kind, n):
    if kind == "space": return b" " * n
    if kind == "newline": return b"\n" * n
    if kind == "crlf": return b"\r\n" * n
    return b"#" + b"c" * n + b"\n"

def to_bytes(out):
    r = b""
    for c in out:
        if c["t"] == "b": r += bytes(c["v"])
        elif c["t"] == "pad": r += pad(*c["v"])
        else: r += c["v"].encode("latin1")
    return r

def atoms(call):
    r = []
    def flat(x):
        if isinstance(x, list):
            for y in x: flat(y)
        else: r.append(x)
    flat(call["a"])
    for ty, name, val in call["p"]:
        r.append(ty + " " + name); flat(val)
    return r

def same(exp, act, n, approx=False):
    if exp["k"] == "s": return exp["v"] == act
    if isinstance(act, str):       # int given where a name is allowed
        return exp["k"] == "i" and str(exp["v"][0]) == act
    v = exp["v"][0] * 2.0 ** exp["v"][1]
    if exp["k"] == "i": return act == v
    if exp["x"] and not approx:
        import struct
        return act == v or float("%.9g" % struct.unpack("f", struct.pack("f", v))[0]) == act
    return abs(act - v) <= 1.3e-7 * max(1e-30, abs(v))

def mismatch(sem, o, approx=False):
    if o.crash: return "the parser gave " + o.crash
    if o.exc: return "exception " + o.exc[0]
    calls = [c for c in o.calls if c["n"] != "ArchiveRecord"]
    if o.errors: return "valid stream reported as an error: %s" % o.errors[0]
    if len(calls) != len(sem): return "%d requests read, %d written" % (len(calls), len(sem))
    for k, (e, c) in enumerate(zip(sem, calls)):
        if e["n"] != c["n"]: return "request %d is %s, written as %s" % (k, c["n"], e["n"])
        ac = atoms(c)
        if len(ac) != len(e["a"]) or not all(same(x, y, e["n"], approx) for x, y in zip(e["a"], ac)):
            return "request %d %s read with %r, written as %r" % (k, e["n"], ac, [a["v"] for a in e["a"]])
    return None


def models(ctx, num=None):
    inv = ["TypeOK", "BytesOK", "Emit"]
    ms = []
    r = tlc.simulate("RibCodec", seed=ctx.seed, num=num or ctx.pick(1200, 16000), depth=1500, procs=8, timeout=ctx.pick(200, 600),
                     constants={"Names <-": "AllNames", "Spaces": True, "Rand": True, "MaxReq": 12, "MaxDefs": 5}, invariants=inv)
    ms.append((r, True))
    # every value in every encoding, exhaustively
    c = {"Spaces": False, "Rand": False, "MaxReq": 1}
    ms.append((tlc.run("RibCodec", constants=dict(c, Names='{"Sides", "ShadingRate", "Orientation"}', MaxDefs=0), invariants=inv), False))
    ms.append((tlc.run("RibCodec", constants=dict(c, Names='{"Orientation"}', MaxDefs=1), invariants=inv), False))
    return ms

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ms = models(ctx)
    if ctx.thorough:
        ms.append((tlc.run("RibCodec", constants={"Names": '{"Sides", "ShadingRate", "Orientation"}', "Spaces": False, "Rand": False, "MaxReq": 1, "MaxDefs": 1}, invariants=["TypeOK", "BytesOK", "Emit"], timeout=800), False))
    cases, meta = [], []
    for r, deep in ms:
        ctx.model(r)
        for c in r.cases:
            raw = to_bytes(c["out"])
            var = [("plain", raw, 0)]
            if deep:
                ks = rnd.sample(range(1, 520), ctx.pick(6, 24))
                var += [("pad%d" % k, b" " * k + raw, 0) for k in ks]
                var += [("gzip", gzip.compress(raw, mtime=0), 0), ("chunk1", raw, 1), ("chunk7", raw, rnd.randint(2, 300)),
                        ("gzipchunk", gzip.compress(raw, mtime=0), rnd.randint(1, 40))]
            elif ctx.thorough:
                var += [("pad", b" " * rnd.randint(235, 256) + raw, 0)]
            for name, by, ch in var:
                cases.append(rib.Case(by, chunk=ch)); meta.append((name, c))
    ctx.cov["requests_seen"] = len(set(x["n"] for _, c in meta for x in c["sem"]))
    outs = rib.run_cases(exe, cases, ctx.work)
    for (name, c), case, o in zip(meta, cases, outs):
        ctx.add("traces_validated_against_impl")
        m = mismatch(c["sem"], o)
        if m and len(ctx.violations) < 5:
            o2 = rib.run_cases(exe, [case], ctx.work)[0]
            if mismatch(c["sem"], o2): ctx.violation("%s (variant %s)" % (m, name), dict(case.describe(), sem=c["sem"], hex=case.ribs[0][1].hex()))
    ctx.cov["exhaustive"] = False
    ctx.sample({"bytes": cases[0].ribs[0][1].hex()[:400], "requests": [s["n"] for s in meta[0][1]["sem"]]})
    ctx.assumptions = ["decimal numbers are compared to within 2e-6 relative; every binary encoding exactly"]
