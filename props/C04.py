"""Nested archive files: isolation of streams, expansion in place (spec RiStream with files)."""
import gzip, random
from vf import build, tlc, rib, stream

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Balanced", "NoInvention", "Emit"]
    K = lambda ops, n, enc: {"MaxItems": n, "Ops": ops, "Rand": True, "FileNames": '{"f1", "f2"}', "Enc": enc}
    n = ctx.pick(2400, 24000)
    ms = [tlc.run("RiStream", constants={"MaxItems": ctx.pick(5, 6), "Ops": '{"leaf", "RA", "err"}', "Rand": False, "FileNames": '{"f1", "f2"}', "Enc": False}, invariants=inv, workers=8, timeout=800),
          tlc.simulate("RiStream", seed=ctx.seed, num=n, depth=200, procs=8, constants=K('{"leaf", "RA", "err"}', 20, True), invariants=inv),
          tlc.simulate("RiStream", seed=ctx.seed + 9, num=n, depth=200, procs=8, constants=K('{"leaf", "IF", "AB", "RA", "OB", "err"}', 40, True), invariants=inv),
          tlc.simulate("RiStream", seed=ctx.seed + 19, num=n, depth=200, procs=8, constants=K('{"leaf", "IF", "RA", "err"}', 40, False), invariants=inv)]
    cases, meta = [], []
    for r in ms:
        ctx.model(r)
        for c in r.cases:
            files = {k: stream.enc_stream(v) for k, v in c["files"].items()}
            if rnd.random() < .3: files = {k: gzip.compress(v, mtime=0) for k, v in files.items()}
            cases.append(rib.Case(stream.enc_stream(c["src"]), filters=["renderutil"], files=files, write="interp")); meta.append(c)
    for c, case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl")
        binary = any(i["enc"] != "plain" or i["senc"] != "plain" for f in list(c["files"].values()) + [c["src"]] for i in f)
        want = ["E" if x.startswith("E:") else x for x in c["outp"]]
        g = stream.got(o, ra=None)
        cut = (lambda l: [x.rsplit(":", 1)[0] if x.startswith("X:") else x for x in l]) if binary else (lambda l: l)
        if (o.crash or o.exc or cut(g) != cut(want)) and len(ctx.violations) < 5:
            ctx.violation("nested streams executed %r, expected %r %s" % (g, want, o.crash or o.exc), dict(case.describe(), expected=want))
    # two streams read one after the other by the same reader do not see each other's tables
    k = len(ms[0].cases) + 3
    ctx.sample({"files": {a: b.decode("latin1") for a, b in cases[k].files.items()}, "rib": cases[k].ribs[0][1].decode("latin1"), "executed": meta[k]["outp"]})
