"""Depth output and depth filters (spec HiddenSurface)."""
import importlib.util, os, random
from vf import build, tlc, rend
sp = importlib.util.spec_from_file_location("h01", os.path.join(os.path.dirname(__file__), "H01.py"))
h01 = importlib.util.module_from_spec(sp); sp.loader.exec_module(h01)

INF = float("inf")
THR = {"a": "1 1 1", "b": "0.45 0.45 0.45", "c": "0.45 0.95 0.2"}   # away from the opacities used, which are only exact to rounding
def depth(zs, filt):
    if not zs: return INF
    if filt == "min": return zs[0]
    if filt == "max": return zs[-1]
    if filt == "average": return sum(zs) / float(len(zs))
    return (zs[0] + zs[1]) / 2.0 if len(zs) > 1 else INF

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ribs, meta = [], []
    inv = ["Sorted", "Complete", "Bounded", "OpaqueHides", "Emit"]
    ms = []
    for k, (w, h, ml, n, op) in enumerate([(3, 3, 6, 1000, False), (1, 1, 6, 1000, False), (2, 2, 8, 1000, True), (5, 4, 9, 400, False), (3, 2, 9, 800, False)]):
        ms.append(tlc.simulate("HiddenSurface", seed=ctx.seed * 10 + k + 5, num=ctx.pick(n, n * 12), depth=ml + 3, procs=8, timeout=900,
                  constants=dict(W=w, H=h, NX=1, NY=1, MaxLayers=ml, Rand=True, Mattes=True, Opaque=op), invariants=inv))
    for r in ms:
        ctx.model(r)
        for c in r.cases:
            f = rnd.choice(["min", "max", "average", "midpoint"]); t = rnd.choice("aabc"); dm = rnd.choice(["z", "z", "rgbaz"])
            extra = 'Option "limits" "color zthreshold" [%s]\n' % THR[t]
            ribs.append(h01.scene(c, rnd, dd, sd, dm, hider=' "string depthfilter" ["%s"]' % f if f != "min" or rnd.random() < .5 else "", extra=extra)); meta.append((c, f, t))
    for (c, f, t), rib, o in zip(meta, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("filter_" + f)
        m = None
        if o.rc != 0 or len(o.images["out.cap"]) != 1: m = "no image (status %d): %s" % (o.rc, o.log[-300:])
        else:
            im = o.images["out.cap"][0]
            try:
                px = im.pixels(); zi = [n for n, _ in im.fmt].index("z")
                if len(px) != c["w"] * c["h"]: m = "%d pixels delivered" % len(px)
                for k, z in enumerate(c["zs"] if not m else []):
                    want = depth(z[t], f); got = px[k % c["w"], k // c["w"]][zi]
                    if not (got > 1e37 if want == INF else abs(got - want) < 1e-5):
                        m = "pixel %d,%d: depth filter %s gives %.7g, the surfaces there (depths %s) give %.7g" % (k % c["w"], k // c["w"], f, got, z[t], want); break
                if not m: m = h01.compare(c, o)
            except ValueError as e: m = str(e)
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "zs": c["zs"], "threshold": THR[t]})
    ctx.sample({"rib": ribs[-1], "depths": meta[-1][0]["zs"]})
