"""Hidden surface removal and compositing (spec HiddenSurface)."""
import random
from vf import build, tlc, rend, geom

def q(v): return " ".join("%g" % (x / 4.0) for x in v)

def body(c, rnd, plain=False):
    out = []
    ls = [(k, l) for k, l in enumerate(c["scene"])]
    for k, l in ls:
        kind = "poly" if plain else rnd.choice(geom.KINDS)
        H = c["h"]
        if kind in geom.TRIANGLES and (on_diagonal(c, l) or any(v < 4 for v in l["o"])): kind = "bilinear"
        out.append("AttributeBegin\nColor [%s] Opacity [%s]\nMatte %d\nShadingRate %s\n" % (q(l["c"]), q(l["o"]), 1 if l["m"] else 0,
                    "1" if plain else rnd.choice(["1", "0.25", "4", "100", "0.06"])))
        if not plain and rnd.random() < .5: out.append('GeometricApproximation "focusfactor" 0\nShadingInterpolation "%s"\n' % rnd.choice(["constant", "smooth"]))
        out.append(geom.rect(kind, l["x0"] / 16.0, H - l["y0"] / 16.0, l["x1"] / 16.0, H - l["y1"] / 16.0, l["z"]) + "AttributeEnd\n")
    return out

def on_diagonal(c, l):
    """does a sample lie on a diagonal of the rectangle (where the triangulation has an edge)?"""
    w, h = l["x1"] - l["x0"], l["y1"] - l["y0"]
    for x in range(c["w"] * c["nx"]):
        for y in range(c["h"] * c["ny"]):
            u, v = (16 * (x + .5) / c["nx"] - l["x0"]) / w, (16 * (y + .5) / c["ny"] - l["y0"]) / h
            if -.01 < u < 1.01 and (abs(u - v) < 1e-3 or abs(u + v - 1) < 1e-3): return True
    return False

def scene(c, rnd, dd, sd, mode, hider="", plain=False, extra=""):
    W, H = c["w"], c["h"]
    opts = ""
    if not plain:
        opts += 'Option "limits" "integer[2] bucketsize" [%d %d]\n' % rnd.choice([(16, 16), (1, 1), (2, 3), (3, 1), (5, 4)])
        opts += 'Option "limits" "integer gridsize" [%d]\n' % rnd.choice([256, 16, 4, 64])
    return (rend.header(dd, sd) + opts + extra + 'Declare "Oi" "varying color"\nDisplay "out.cap" "cap" "%s"\nQuantize "rgba" 0 0 0 0\nQuantize "z" 0 0 0 0\nFormat %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\n'
            'PixelSamples %d %d\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [0]%s\nClipping 0.5 100\nWorldBegin\nSurface "vconst"\n' % (mode, W, H, W, H, c["nx"], c["ny"], hider)
            + "".join(body(c, rnd, plain)) + "WorldEnd\n")

def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = o.images["out.cap"]
    if len(im) != 1: return "%d images were opened" % len(im)
    try: px = im[0].pixels()
    except ValueError as e: return str(e)
    names = [n for n, _ in im[0].fmt]
    if len(px) != c["w"] * c["h"]: return "%d pixels delivered of %d" % (len(px), c["w"] * c["h"])
    n = c["nx"] * c["ny"]; D = c["d"]
    for k, e in enumerate(c["image"]):
        x, y = k % c["w"], k // c["w"]
        col = [v / (4.0 * D * n) for v in e["c"]]; opa = [v / (1.0 * D * n) for v in e["o"]]
        got = dict(zip(names, px[x, y]))
        want = {"r": col[0], "g": col[1], "b": col[2], "a": sum(opa) / 3}
        if "Oi.000" in got or any(nm.startswith("Oi") for nm in names):
            want = {}
            for i in range(3): want[names[i]] = opa[i]
        for nm, g in got.items():
            if nm in want and not abs(g - want[nm]) <= 2e-6: return "pixel %d,%d channel %s is %.7g, the surfaces there give %.7g" % (x, y, nm, g, want[nm])
    return None

def models(ctx):
    ms = []
    base = {"MaxLayers": 5, "Rand": True, "Mattes": True, "Opaque": False}
    inv = ["Sorted", "Complete", "Bounded", "OpaqueHides", "Emit"]
    ms.append(tlc.run("HiddenSurface", constants=dict(W=1, H=1, NX=1, NY=1, MaxLayers=1, Rand=False, Mattes=True, Opaque=False), invariants=inv, workers=8, timeout=600))
    for k, (w, h, nx, ny, ml, n) in enumerate([(3, 3, 1, 1, 5, 800), (2, 2, 2, 2, 6, 600), (4, 2, 3, 2, 7, 600), (6, 5, 1, 1, 8, 300), (2, 3, 4, 4, 3, 200), (3, 4, 1, 4, 8, 300), (9, 7, 2, 1, 9, 160)]):
        ms.append(tlc.simulate("HiddenSurface", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 12), depth=ml + 3, procs=8, timeout=900,
                  constants=dict(base, W=w, H=h, NX=nx, NY=ny, MaxLayers=ml), invariants=inv))
    return ms

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ribs, meta = [], []
    for r in models(ctx):
        ctx.model(r)
        for c in (r.cases if ctx.thorough or len(r.cases) < 1500 else rnd.sample(r.cases, 1500)):
            ribs.append(scene(c, rnd, dd, sd, "rgba")); meta.append(c)
    for c, rib, o in zip(meta, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl")
        m = compare(c, o)
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "expected": c["image"]})
    ctx.cov["layers"] = sum(len(c["scene"]) for c in meta)
    ctx.sample({"rib": ribs[-1], "image": meta[-1]["image"]})
