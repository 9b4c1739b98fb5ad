"""Frame selection, ignored archives and tee junctions pass exactly the right requests, unchanged (specs RiFilters, RibCodec)."""
import importlib.util, os, random
from vf import build, tlc, rib, stream
sp = importlib.util.spec_from_file_location("c01", os.path.join(os.path.dirname(__file__), "C01.py"))
c01 = importlib.util.module_from_spec(sp); sp.loader.exec_module(c01)

def text(it):
    return {"FB": "FrameBegin %d" % it["x"], "FE": "FrameEnd", "leaf": stream.leaf_text(str(it["x"])), "RA": 'ReadArchive "f%d"' % it["x"]}[it["o"]]

def got(calls):
    r = []
    for e in calls:
        if e["n"] == "ArchiveRecord": continue
        if e["n"] == "FrameBegin": r.append(["FB", e["a"][0]])
        elif e["n"] == "FrameEnd": r.append(["FE", 0])
        elif e["n"] == "ReadArchive": r.append(["RA", int(e["a"][0][1:])])
        else: r.append(["leaf", stream.leaf_of(e)])
    return [[a, str(b)] for a, b in r]

def filters(fl, ranges, rnd):
    seps = [",", ",,", ","]
    t = rnd.choice(seps).join("%d" % a if a == b and rnd.random() < .7 else "%d-%d" % (a, b) for a, b in ranges)
    if rnd.random() < .2: t += ","
    return [("framedrop frames=%s" % t) if f == "framedrop" else f for f in fl]

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["NoDropped", "OutsideKept", "Paired", "Emit"]
    ms = [tlc.run("RiFilters", constants={"MaxItems": ctx.pick(3, 4), "Rand": False, "MaxFrame": ctx.pick(1, 2)}, invariants=inv, workers=8, timeout=800),
          tlc.simulate("RiFilters", seed=ctx.seed, num=ctx.pick(3000, 30000), depth=100, procs=8, constants={"MaxItems": 25, "Rand": True, "MaxFrame": 12}, invariants=inv)]
    cases, meta = [], []
    for r in ms:
        ctx.model(r)
        for c in r.cases:
            cases.append(rib.Case("".join(text(i) + "\n" for i in c["src"]), filters=filters(c["filt"], c["ranges"], rnd))); meta.append(c)
    key = lambda l: [[i["o"], str(i["x"])] for i in l]
    for c, case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        w, g = key(c["kept"]), got(o.calls)
        w2, g2 = key(c["branch"]), got(o.calls2)
        if (o.crash or o.exc or o.errors or g != w or g2 != w2) and len(ctx.violations) < 5:
            ctx.violation("filters %s let through %r, expected %r; branch %r, expected %r %s" % (case.filters, g, w, g2, w2, o.crash or o.exc or o.errors), case.describe())
    # every request passes a filter with its arguments unchanged, and is dropped whole
    sim = tlc.simulate("RibCodec", seed=ctx.seed + 11, num=ctx.pick(2400, 20000), depth=1500, procs=8, timeout=600,
                       constants={"Names <-": "RecordableNames", "Spaces": False, "Rand": True, "MaxReq": 12, "MaxDefs": 2}, invariants=["TypeOK", "BytesOK", "Emit"])
    ctx.model(sim)
    cases, meta = [], []
    for k, c in enumerate(sim.cases):
        sem = [x for x in c["sem"]]
        if any(x["n"] in ("FrameBegin", "FrameEnd") for x in sem): continue
        raw = c01.to_bytes(c["out"])
        how = k % 4
        if how == 0: t, fl, want = b"FrameBegin 3\n" + raw + b"\nFrameEnd\nSides 1\n", ["framedrop frames=3"], [{"n": "FrameBegin", "a": None}] + sem + [{"n": "FrameEnd", "a": None}, {"n": "Sides", "a": None}]
        elif how == 1: t, fl, want = b"FrameBegin 4\n" + raw + b"\nFrameEnd\nSides 1\n", ["framedrop frames=3"], [{"n": "Sides", "a": None}]
        elif how == 2: t, fl, want = raw, ["ignorearchives"], sem
        else:
            if any(x["n"] == "Procedural" for x in sem): continue
            t, fl, want = raw, ["tee"], sem
        cases.append(rib.Case(t, filters=fl)); meta.append((want, fl))
    for (want, fl), case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        for br in ([o.calls, o.calls2] if fl == ["tee"] else [o.calls]):
            o.calls = br
            real = [x for x in br if x["n"] != "ArchiveRecord"]
            if [x["n"] for x in real] != [w["n"] for w in want] or o.crash or o.exc:
                if len(ctx.violations) < 5: ctx.violation("filter %s: %r instead of %r %s" % (fl, [x["n"] for x in real], [w["n"] for w in want], o.crash or o.exc), dict(case.describe(), hex=case.ribs[0][1].hex()))
                continue
            o.calls = [x for x, w in zip(real, want) if w["a"] is not None]
            m = c01.mismatch([w for w in want if w["a"] is not None], o)
            if m and len(ctx.violations) < 5: ctx.violation("filter %s: %s" % (fl, m), dict(case.describe(), hex=case.ribs[0][1].hex()))
    ctx.cov["requests_seen"] = len(set(w["n"] for want, _ in meta for w in want))
    ctx.sample({"filters": ms[1].cases[0]["filt"], "ranges": ms[1].cases[0]["ranges"], "kept": ms[1].cases[0]["kept"][:8]})
