"""Pixel filtering, exposure, buckets and crop windows (spec Reconstruct)."""
import math, random
from vf import build, tlc, rend, geom

def mitchell1(x):
    x = abs(2 * x); B = C = 1 / 3.0
    if x > 1: return ((-B - 6 * C) * x ** 3 + (6 * B + 30 * C) * x * x + (-12 * B - 48 * C) * x + (8 * B + 24 * C)) / 6
    return ((12 - 9 * B - 6 * C) * x ** 3 + (-18 + 12 * B + 6 * C) * x * x + 6 - 2 * B) / 6
def sinc1(x, w): return 1.0 if x == 0 else math.cos(.5 * math.pi * x / w) * math.sin(math.pi * x) / (math.pi * x)
def catmull(x, y):
    r = math.hypot(x, y)
    return 0 if r >= 2 else 3 * r ** 3 - 5 * r * r + 2 if r < 1 else -r ** 3 + 5 * r * r - 8 * r + 4
KERNELS = {
    "box": lambda x, y, w, h: 1.0 if abs(x) <= w / 2 and abs(y) <= h / 2 else 0.0,
    "triangle": lambda x, y, w, h: max(0, min(1 - abs(x) * 2 / w, 1 - abs(y) * 2 / h)),
    "gaussian": lambda x, y, w, h: math.exp(-8 * ((x / w) ** 2 + (y / h) ** 2)),
    "mitchell": lambda x, y, w, h: mitchell1(x / w) * mitchell1(y / h),
    "catmull-rom": lambda x, y, w, h: catmull(x, y),
    "sinc": lambda x, y, w, h: sinc1(x, w) * sinc1(y, h),
    "disk": lambda x, y, w, h: 1.0 if (2 * x / w) ** 2 + (2 * y / h) ** 2 < 1 - 1e-9 else 0.0,
}
POSITIVE = ("box", "triangle", "gaussian", "disk")

def scene(c, v, dd, sd, rnd):
    W, H = c["w"], c["h"]; x0, x1, y0, y1 = c["crop"]
    out = rend.header(dd, sd)
    out += 'Option "limits" "integer[2] bucketsize" [%d %d]\nOption "limits" "integer gridsize" [%d]\n' % (*v["bucket"], rnd.choice([256, 16, 4, 64]))
    out += 'Display "out.cap" "cap" "%s"\nQuantize "rgba" 0 0 0 0\nFormat %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\n' % (v["mode"], W, H, W, H)
    if [x0, x1, y0, y1] != [0, W - 1, 0, H - 1] or rnd.random() < .3: out += "CropWindow %.6f %.6f %.6f %.6f\n" % (max(0, (x0 - .5) / W), min(1, (x1 + .5) / W), max(0, (y0 - .5) / H), min(1, (y1 + .5) / H))
    out += 'PixelSamples %d %d\nPixelFilter "%s" %g %g\nExposure %g %g\nHider "hidden" "int jitter" [%d]\nClipping 0.5 100\nWorldBegin\nSurface "vconst"\n' % (c["nx"], c["ny"], v["filter"], c["fx"] - v["frac"][0], c["fy"] - v["frac"][1], v["gain"], v["gamma"], v["jitter"])
    for r in c["rects"]:
        out += "AttributeBegin\nColor [%g %g %g]\nShadingRate %s\n" % (*[x / 4.0 for x in r["c"]], rnd.choice(["1", "0.25", "4", "100"]))
        X = [r["x0"] / float(c["nx"]), r["x1"] / float(c["nx"])]; Y = [H - r["y0"] / float(c["ny"]), H - r["y1"] / float(c["ny"])]
        out += geom.rect(rnd.choice([k for k in geom.KINDS if k not in geom.TRIANGLES]), X[0], Y[0], X[1], Y[1], r["z"]) + "AttributeEnd\n"
    return out + "WorldEnd\n"

def variant(c, rnd):
    v = {"filter": rnd.choice(sorted(KERNELS)), "bucket": rnd.choice([(16, 16), (1, 1), (2, 3), (3, 1), (5, 4), (8, 2), (4, 4)]), "mode": rnd.choice(["rgba", "rgb", "rgba"]), "gain": rnd.choice([1, 1, 2, .5]), "gamma": 1, "jitter": 0, "frac": rnd.choice([(0, 0), (0, 0), (.5, .5), (.25, 0)])}
    if v["filter"] in POSITIVE: v["gamma"] = rnd.choice([1, 1, 2])
    if (c["fx"] % 2 or c["nx"] % 2 == 0) and (c["fy"] % 2 or c["ny"] % 2 == 0): v["jitter"] = rnd.choice([0, 1])
    return v

def dists(n, f): return [d for d in range(n * f + 1) if d % 2 == (n + 1) % 2]
def compare(c, v, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = o.images["out.cap"]
    if len(im) != 1: return "%d images were opened" % len(im)
    try: px = im[0].pixels()
    except ValueError as e: return str(e)
    names = [n for n, _ in im[0].fmt]; x0, x1, y0, y1 = c["crop"]
    if len(px) != (x1 - x0 + 1) * (y1 - y0 + 1): return "%d pixels delivered of %d" % (len(px), (x1 - x0 + 1) * (y1 - y0 + 1))
    K = KERNELS[v["filter"]]; nx, ny, fx, fy = c["nx"], c["ny"], c["fx"], c["fy"]
    wt = {(a, b): K(a / (2.0 * nx), b / (2.0 * ny), float(fx), float(fy)) for a in dists(nx, fx) for b in dists(ny, fy)}
    tot = sum(w * (1 if a == 0 else 2) * (1 if b == 0 else 2) for (a, b), w in wt.items())
    if abs(tot) < 1e-6: return None
    mass = sum(abs(w) * (1 if a == 0 else 2) * (1 if b == 0 else 2) for (a, b), w in wt.items())
    for y in range(y0, y1 + 1):
        for x in range(x0, x1 + 1):
            ts = c["image"][y][x]; got = dict(zip(names, px[x, y]))
            want = [sum(wt[t["a"], t["b"]] * t["c"][q] for t in ts) / (4 * tot) for q in range(3)]
            want = [max(0, u * v["gain"]) ** .5 if v["gamma"] == 2 else u * v["gain"] for u in want]
            al = sum(wt[t["a"], t["b"]] * t["n"] for t in ts) / tot
            tol = 4e-6 * max(1, mass / abs(tot)); tol = math.sqrt(tol) if v["gamma"] == 2 and min(want) < .01 else tol * 40 if v["gamma"] == 2 else tol
            for n, e in (("r", want[0]), ("g", want[1]), ("b", want[2]), ("a", al)):
                if n in got and not abs(got[n] - e) <= tol * max(1, abs(v["gain"])): return "pixel %d,%d channel %s is %.7g, the filter gives %.7g" % (x, y, n, got[n], e)
    return None

CONF = [(6, 5, 1, 1, 1, 1), (6, 5, 2, 2, 2, 2), (7, 4, 1, 1, 3, 3), (5, 5, 3, 2, 2, 3), (8, 3, 2, 1, 4, 2), (4, 6, 1, 3, 2, 5), (9, 7, 2, 2, 3, 3), (10, 9, 1, 2, 5, 3), (6, 6, 4, 4, 2, 2), (12, 10, 1, 1, 7, 6)]
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ctx.model(tlc.run("Reconstruct", constants=dict(W=2, H=1, NX=1, NY=1, FX=2, FY=1, MaxRects=0, Rand=False), invariants=["Whole", "Own"], workers=4, timeout=300))
    meta, ribs = [], []
    for k, (w, h, nx, ny, fx, fy) in enumerate(CONF):
        r = tlc.simulate("Reconstruct", seed=ctx.seed * 20 + k, num=ctx.pick(72, 600), depth=9, procs=8, timeout=900, constants=dict(W=w, H=h, NX=nx, NY=ny, FX=fx, FY=fy, MaxRects=6, Rand=True), invariants=["Whole", "Own", "Emit"])
        ctx.model(r)
        for c in r.cases:
            for _ in range(ctx.pick(2, 4)):
                v = variant(c, rnd); meta.append((c, v)); ribs.append(scene(c, v, dd, sd, rnd))
    for (c, v), rib, o in zip(meta, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("pixels", c["w"] * c["h"])
        m = compare(c, v, o)
        if m and len(ctx.violations) < 25: ctx.violation("%s %dx%d, buckets %dx%d: %s" % (v["filter"], c["fx"], c["fy"], *v["bucket"], m), {"rib": rib})
    ctx.sample({"rib": ribs[-1]})
