"""Legality of requests: scope, ranges, array lengths (spec RiValidate)."""
import re
from vf import build, tlc, rib

SIZE = {"float": 1, "point": 3, "hpoint": 4, "color": 3, "string": 1, "float[2]": 2}

def par(m):
    cl, ty, name, n = m.group(1).split(" ")
    k = int(n) * SIZE[ty]
    v = " ".join('"s"' if ty == "string" else "1" for _ in range(k))
    return '"%s %s %s" [%s]' % (cl, ty, name, v)

def text(t): return re.sub("@([^@]*)@", par, t)

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    inv = ["TypeOK", "Nesting", "StepsOK", "Emit"]
    K = lambda kinds, n, rand, rel: {"Kinds": kinds, "MaxLen": n, "Rand": rand, "Relaxed": rel}
    n = ctx.pick(400, 6000)
    ms = []
    for rel in (False, True):
        ms += [(rel, tlc.run("RiValidate", constants=K('{"block"}', ctx.pick(4, 5), False, rel), invariants=inv, workers=8, timeout=800)),
               (rel, tlc.run("RiValidate", constants=K('{"plain", "ranged"}', 1, False, rel), invariants=inv, workers=8, timeout=800)),
               (rel, tlc.run("RiValidate", constants=K('{"block", "plain"}', ctx.pick(2, 3), False, rel), invariants=inv, workers=8, timeout=800)),
               (rel, tlc.simulate("RiValidate", seed=ctx.seed, num=n, depth=400, procs=8, constants=K('{"block", "plain", "ranged"}', 60, True, rel), invariants=inv)),
               (rel, tlc.simulate("RiValidate", seed=ctx.seed + 3, num=n, depth=400, procs=8, constants=K('{"block", "prim", "basis"}', 60, True, rel), invariants=inv))]
    cases, meta = [], []
    for rel, r in ms:
        ctx.model(r)
        for c in r.cases:
            cases.append(rib.Case("".join(text(x["t"]) + "\n" for x in c), filters=["validate #relaxed_outer_scope=%d" % rel])); meta.append(c)
    names = set()
    for c, case, o in zip(meta, cases, rib.run_cases(exe, cases, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("requests_judged", len(c))
        # requests rejected: reported with the line they are on; the others reach the end of the pipeline in order
        bad = set(int(m.group(1)) for e in o.errors for m in [re.search(r"Parse error at main:(\d+) ", e)] if m)
        calls = [x["n"] for x in o.calls if x["n"] not in ("ArchiveRecord",)]
        want = [x["t"].split(" ")[0] for x in c if x["ok"]]
        names.update(want)
        wbad = set(k + 1 for k, x in enumerate(c) if not x["ok"])
        if o.crash or o.exc or calls != want or bad != wbad:
            if len(ctx.violations) < 5:
                k = sorted(bad ^ wbad)[:1]
                t = text(c[k[0] - 1]["t"]) if k else ""
                ctx.violation("%s: line %s %r should be %s %s" % (case.filters, k, t, "rejected" if k and k[0] in wbad else "accepted", o.crash or o.exc or ""),
                              dict(case.describe(), expected_rejected=sorted(wbad), rejected=sorted(bad), calls=calls))
    ctx.cov["requests_accepted_at_least_once"] = len(names)
    ctx.sample({"stream": [[text(x["t"]), x["ok"]] for x in meta[-1][:12]]})
