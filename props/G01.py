"""The graphics state (spec GraphicsState)."""
import random
from vf import build, tlc, rend, geom

COLS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (.5, .25, 0), (.25, .75, .5), (0, .5, 1), (.75, 0, .25), (1, 1, 1)]
AOVS = ["rgb", "aovo", "aovu", "aovk", "aovP", "aovs", "aovb", "aovw"]
def fm(m): return "[%d %d 0 0 %d %d 0 0 0 0 1 0 %d %d 0 1]" % (m["a"], m["c"], m["b"], m["d"], m["tx"], m["ty"])
def quad(r, cw, z):
    x, y, w, h = r
    p = [(x, y, z), (x, y + h, z), (x + w, y + h, z), (x + w, y, z)]    # clockwise seen along +z with y up
    if not cw: p.reverse()
    return 'Polygon "P" %s\n' % geom.pts(p)

def text(c, dd, sd, rnd):
    o = [rend.header(dd, sd, 'Option "limits" "integer[2] bucketsize" [%d %d]\n' % rnd.choice([(16, 16), (3, 2), (1, 1)])),
         "".join('Declare "%s" "varying %s"\n' % (a, "float" if a in ("aovu", "aovk") else "color") for a in AOVS[1:]),
         'Format %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\nPixelSamples 1 1\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [0]\nClipping .5 200\nQuantize "rgba" 0 0 0 0\n' % (c["w"], c["h"], c["w"], c["h"]),
         "".join('Display "%sd%d.cap" "cap" "%s"\n' % ("+" if i else "", i, a) for i, a in enumerate(AOVS)), 'Surface "vstate"\nShadingInterpolation "constant"\n']
    for s in c["prog"]:
        op = s["op"]
        if op in ("Color", "Opacity"): o.append("%s [%g %g %g]\n" % ((op,) + COLS[s["v"]]))
        elif op == "User": o.append('Attribute "user" "uniform float x" [%d]\n' % s["v"])
        elif op == "Surface": o.append('Surface "%s" "float k" [%d]\n' % ("vstate" if s["s"] == 1 else "vstate2", s["v"]))
        elif op == "Sides": o.append("Sides %d\n" % s["v"])
        elif op == "Orientation": o.append('Orientation "%s"\n' % s["v"])
        elif op == "Translate": o.append("Translate %d %d 0\n" % (s["x"], s["y"]))
        elif op == "Scale": o.append("Scale %d %d 1\n" % (s["x"], s["y"]))
        elif op == "Rotate": o.append("Rotate %d 0 0 1\n" % s["x"])
        elif op == "Concat": o.append("ConcatTransform %s\n" % fm(dict(a=0, b=s["x"], c=1, d=0, tx=s["y"], ty=1)))
        elif op == "Transform": o.append("Transform %s\n" % fm(s["m"]))
        elif op in ("CoordinateSystem", "CoordSysTransform"): o.append('%s "%s"\n' % (op, s["n"]))
        elif op == "FrameBegin": o.append("FrameBegin %d\n" % s["n"])
        elif op == "Prim": o.append(quad(s["r"], s["cw"], 100 - s["n"]))
        elif op == "Object": o.append('ObjectBegin "o%d"\n%sObjectEnd\n' % (s["n"], quad(s["r"], s["cw"], 0)))
        elif op == "Instance": o.append('TransformBegin\nTranslate 0 0 %d\nObjectInstance "o%d"\nTransformEnd\n' % (100 - s["n"], s["o"]))
        else: o.append(op + "\n")
    for k in reversed(c["open"]): o.append({"frame": "FrameEnd", "attribute": "AttributeEnd", "transform": "TransformEnd"}[k] + "\n")
    return "".join(o)

def inv(m, x, y):
    d = float(m["a"] * m["d"] - m["b"] * m["c"]); x -= m["tx"]; y -= m["ty"]
    return (m["d"] * x - m["b"] * y) / d, (m["a"] * y - m["c"] * x) / d
def close(a, b, e=1e-3): return abs(a - b) <= e

def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    for a in range(len(AOVS)):
        if len(o.images["d%d.cap" % a]) != len(c["pics"]): return "%d images were made, %d worlds given" % (len(o.images["d%d.cap" % a]), len(c["pics"]))
    for n, pic in enumerate(c["pics"]):
        try: px = [o.images["d%d.cap" % a][n].pixels() for a in range(len(AOVS))]
        except ValueError as e: return str(e)
        for i, k in enumerate(pic["map"]):
            x, y = i % c["w"], i // c["w"]; at = "world %d pixel %d,%d: " % (n + 1, x, y)
            v = dict(zip(AOVS, [p[x, y] for p in px]))
            if k == 0:
                if any(abs(t) > 1e-6 for t in v["rgb"]) or any(abs(t) > 1e-6 for t in v["aovP"]): return at + "something is visible where nothing should be"
                continue
            p = pic["prims"][k - 1]
            P = v["aovP"]
            if P[2] == 0: return at + "primitive %d should be visible" % k
            if not close(P[2], 100 - k): return at + "primitive %g is visible instead of %d" % (100 - P[2], k)
            if not (abs(P[0] - x - .5) < 10 and abs(P[1] - (c["h"] - y - .5)) < 10): return at + "shaded at %s" % (P,)
            if any(not close(g, w) for g, w in zip(v["rgb"], COLS[p["col"]])): return at + "colour %s, set to %s" % (v["rgb"], COLS[p["col"]])
            if any(not close(g, w) for g, w in zip(v["aovo"], COLS[p["opa"]])): return at + "opacity %s, set to %s" % (v["aovo"], COLS[p["opa"]])
            if not close(v["aovu"][0], p["user"]): return at + "user attribute %s, set to %d" % (v["aovu"][0], p["user"])
            want = {0: -5, 1: p["k"], 2: 100 + p["k"]}[p["surf"]]
            if not close(v["aovk"][0], want): return at + "shader parameter %s, set to %d" % (v["aovk"][0], want)
            W = inv(pic["cam"], P[0], P[1])
            spaces = [("aovw", "world", W), ("aovb", "object", inv(p["om"], *W))]
            if p["surf"]: spaces.append(("aovs", "shader", inv(p["sm"], *W)))
            for ao, nm, e in spaces:
                if any(not close(g, w, 2e-3) for g, w in zip(v[ao][:2], e)): return at + "point %s is %s in %s space, expected %s" % (P[:2], v[ao][:2], nm, e)
    return None

CFG = [dict(MaxSteps=14, MaxWorlds=1, MaxPrims=4, W=6, H=5, Spaces=False, Orients=False, Procs=False), dict(MaxSteps=30, MaxWorlds=2, MaxPrims=8, W=8, H=6, Spaces=False, Orients=False, Procs=False),
       dict(MaxSteps=45, MaxWorlds=3, MaxPrims=8, W=8, H=6, Spaces=False, Orients=False, Procs=False)]
N = [600, 800, 500]
def run(ctx, cfgs=CFG, ns=N):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    inv_ = ["Balanced", "StackDepth", "PrimsInPicture", "Emit"]
    for k, (cfg, n) in enumerate(zip(cfgs, ns)):
        r = tlc.simulate("GraphicsState", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=cfg["MaxSteps"] + 20, procs=8, timeout=900, constants=dict(cfg, Rand=True), invariants=inv_)
        ctx.model(r); cases += r.cases
    ribs = [text(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % i for i in range(len(AOVS))))):
        ctx.add("traces_validated_against_impl"); ctx.add("primitives", sum(len(p["prims"]) for p in c["pics"]))
        m = compare(c, o)
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "expected": c["pics"]})
    ctx.sample({"rib": ribs[-1][:3000]})
