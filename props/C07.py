"""Inline archives and objects replay exactly what was recorded (specs RiStream, RibCodec)."""
import importlib.util, os, random
from vf import build, tlc, rib, stream
sp = importlib.util.spec_from_file_location("c01", os.path.join(os.path.dirname(__file__), "C01.py"))
c01 = importlib.util.module_from_spec(sp); sp.loader.exec_module(c01)

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Balanced", "NoInvention", "Emit"]
    ops = '{"leaf", "AB", "RA", "OB"}'
    ms = [tlc.run("RiStream", constants={"MaxItems": ctx.pick(5, 6), "Ops": ops, "Rand": False, "FileNames": "{}", "Enc": False}, invariants=inv, workers=8, timeout=800),
          tlc.simulate("RiStream", seed=ctx.seed, num=ctx.pick(4000, 40000), depth=200, procs=8, constants={"MaxItems": 30, "Ops": ops, "Rand": True, "FileNames": "{}", "Enc": False}, invariants=inv)]
    cases, meta = [], []
    for r in ms:
        ctx.model(r)
        for c in r.cases: cases.append(rib.Case(stream.render(c["src"]), filters=["renderutil"])); meta.append(c)
    for c, case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        want = ["E" if x.startswith("E:") else x for x in c["outp"]]
        g = stream.got(o)
        if (o.crash or o.exc or g != want) and len(ctx.violations) < 5:
            ctx.violation("archive/object stream executed %r, expected %r %s" % (g, want, o.crash or o.exc), dict(case.describe(), expected=want))
    # every request, with all its arguments, survives recording
    sim = tlc.simulate("RibCodec", seed=ctx.seed + 7, num=ctx.pick(1500, 15000), depth=1500, procs=8, timeout=600,
                       constants={"Names <-": "RecordableNames", "Spaces": False, "Rand": True, "MaxReq": 12, "MaxDefs": 2}, invariants=["TypeOK", "BytesOK", "Emit"])
    ctx.model(sim)
    cases, meta = [], []
    for c in sim.cases:
        raw = c01.to_bytes(c["out"])
        how = rnd.choice(["arch", "obj", "nested", "filler"])
        if how == "arch": t = b'ArchiveBegin "zz"\n' + raw + b'\nArchiveEnd\nReadArchive "zz"\nReadArchive "zz"\n'; k = 2
        elif how == "obj": t = b'ObjectBegin "zz"\n' + raw + b'\nObjectEnd\nObjectInstance "zz"\nTransformBegin ObjectInstance "zz"\n'; k = 2
        elif how == "nested": t = b'ArchiveBegin "yy"\nArchiveBegin "zz"\n' + raw + b'\nArchiveEnd\nReadArchive "zz"\nArchiveEnd\nReadArchive "yy"\nReadArchive "zz"\n'; k = 2
        else: t = b'ArchiveBegin "zz"\n' + raw + b'\nArchiveEnd\n' + b'Surface "filler" "uniform string x" ["over" "write"] "uniform float[3] y" [9 9 9]\n' * 3 + b'ReadArchive "zz"\n'; k = 1
        cases.append(rib.Case(t, filters=["renderutil"])); meta.append((c, how, k))
    for (c, how, k), case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        o.calls = [x for x in o.calls if not (x["n"] == "Surface" and x["a"] == ["filler"])]
        sem = c["sem"] * k
        if how == "obj": sem = c["sem"] + [{"n": "TransformBegin", "a": []}] + c["sem"]
        m = c01.mismatch(sem, o)
        if m and len(ctx.violations) < 5: ctx.violation("replayed as %s: %s" % (how, m), dict(case.describe(), hex=case.ribs[0][1].hex()))
    ctx.cov["requests_seen"] = len(set(x["n"] for c, _, _ in meta for x in c["sem"]))
    ctx.sample({"rib": stream.render(ms[1].cases[0]["src"]), "executed": ms[1].cases[0]["outp"]})
