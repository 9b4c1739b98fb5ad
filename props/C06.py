"""Conditional requests: exactly one branch of every If is taken (spec RiStream)."""
from vf import build, tlc, rib, stream

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    inv = ["Balanced", "NoInvention", "Emit"]
    ms = [tlc.run("RiStream", constants={"MaxItems": ctx.pick(6, 8), "Ops": '{"leaf", "IF"}', "Rand": False, "FileNames": "{}", "Enc": False}, invariants=inv, workers=8, timeout=800),
          tlc.simulate("RiStream", seed=ctx.seed, num=ctx.pick(1500, 20000), depth=200, procs=8, constants={"MaxItems": 30, "Ops": '{"leaf", "IF"}', "Rand": True, "FileNames": "{}", "Enc": False}, invariants=inv),
          tlc.simulate("RiStream", seed=ctx.seed + 50, num=ctx.pick(1500, 20000), depth=200, procs=8, constants={"MaxItems": 30, "Ops": '{"leaf", "IF", "AB", "RA", "OB"}', "Rand": True, "FileNames": "{}", "Enc": False}, invariants=inv)]
    cases, meta = [], []
    for r in ms:
        ctx.model(r)
        for c in r.cases: cases.append(rib.Case(stream.render(c["src"]), filters=["renderutil"])); meta.append(c)
    # a stray ElseIf, Else or IfEnd is harmless
    for s in ("Else", "ElseIf \"T\"", "IfEnd", "IfEnd\nElse", "IfBegin \"F\"\nIfEnd\nElse"):
        cases.append(rib.Case("%s\n" % s, filters=["renderutil"])); meta.append({"src": [], "outp": [], "stray": True})
    for c, case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        want = ["E" if x.startswith("E:") else x for x in c["outp"]]
        g = stream.got(o)
        if c.get("stray"):
            if o.crash or o.exc: ctx.violation("stray conditional: %s" % (o.crash or o.exc), case.describe())
            continue
        if o.crash or o.exc or g != want:
            if len(ctx.violations) < 5: ctx.violation("conditional stream executed %r, expected %r %s" % (g, want, o.crash or o.exc), dict(case.describe(), expected=want))
    ctx.sample({"rib": cases[len(ms[0].cases) + 3].ribs[0][1].decode(), "executed": meta[len(ms[0].cases) + 3]["outp"]})
