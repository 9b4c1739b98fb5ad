"""Constructive solid geometry (spec Solids)."""
import random
from vf import build, tlc, rend, geom
CFG = [dict(W=3, H=3, D=8, MaxBoxes=4, MaxOps=12, MaxDepth=2, Inside=False), dict(W=4, H=3, D=16, MaxBoxes=8, MaxOps=24, MaxDepth=3, Inside=False), dict(W=5, H=4, D=24, MaxBoxes=12, MaxOps=40, MaxDepth=4, Inside=False),
       dict(W=3, H=3, D=14, MaxBoxes=6, MaxOps=20, MaxDepth=3, Inside=True)]
N = [700, 700, 500, 500]

def colour(k, i): return [((i * 3 + 1) % 8) / 7.0, ((i * 5 + 2) % 8) / 7.0, (1 if k == "box" else 2) / 3.0]
def text(c, dd, sd, rnd):
    W, H = c["w"], c["h"]
    objs, body = "", ""
    def face(b, shift, z, kind): return geom.rect(kind, b["x0"] - shift[0], H - b["y0"] + shift[1], b["x1"] - shift[0], H - b["y1"] + shift[1], z)
    def attr(k, i, o): cl = colour(k, i); return "Color [%.9g %.9g %.9g] Opacity [%g %g %g]\n" % (*cl, o / 2.0, o / 2.0, o / 2.0)
    for s in c["prog"]:
        o = s["op"]
        if o == "box":
            b, sh = s["b"], s["shift"]
            kinds = [k for k in geom.KINDS if k not in geom.TRIANGLES]
            t = ""
            if b["z0"] > 0 or rnd.random() < .5: t += face(b, sh, b["z0"], rnd.choice(kinds))
            t2 = face(b, sh, b["z1"], rnd.choice(kinds))
            t = t2 + t if rnd.random() < .5 else t + t2
            if rnd.random() < .4:
                x0, x1, y0, y1 = b["x0"] - sh[0], b["x1"] - sh[0], H - b["y0"] + sh[1], H - b["y1"] + sh[1]; z0, z1 = max(b["z0"], 1), b["z1"]
                t += 'Polygon "P" [%s]\nPolygon "P" [%s]\n' % (" ".join("%g %g %g" % p for p in [(x0, y0, z0), (x0, y1, z0), (x0, y1, z1), (x0, y0, z1)]), " ".join("%g %g %g" % p for p in [(x0, y0, z0), (x1, y0, z0), (x1, y0, z1), (x0, y0, z1)]))
            if rnd.random() < .25:
                objs += 'ObjectBegin %d\n%sObjectEnd\n' % (s["id"], t); t = "ObjectInstance %d\n" % s["id"]
            t = attr("box", s["id"], b["o"]) + t
            body += "AttributeBegin\n%sAttributeEnd\n" % t if rnd.random() < .5 else t
        elif o == "loose":
            body += "AttributeBegin\n" + attr("loose", s["id"], s["b"]["o"]) + face(s["b"], s["shift"], s["b"]["z"], rnd.choice([k for k in geom.KINDS if k not in geom.TRIANGLES])) + "AttributeEnd\n"
        elif o == "translate": body += "Translate %d %d 0\n" % (s["x"], -s["y"])
        elif o == "solidbegin": body += 'SolidBegin "%s"\n' % s["t"]
        else: body += {"solidend": "SolidEnd", "attributebegin": "AttributeBegin", "attributeend": "AttributeEnd", "transformbegin": "TransformBegin", "transformend": "TransformEnd"}[o] + "\n"
    opts = 'Option "limits" "integer[2] bucketsize" [%d %d] "integer gridsize" [%d]\n' % (*rnd.choice([(16, 16), (1, 1), (2, 3), (3, 1)]), rnd.choice([256, 16, 4]))
    return (rend.header(dd, sd) + opts + 'Display "out.cap" "cap" "rgba"\nQuantize "rgba" 0 0 0 0\nFormat %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\nPixelSamples %d %d\nPixelFilter "box" 1 1\n'
            'Hider "hidden" "int jitter" [0]\nClipping 0.5 1000\nShadingInterpolation "constant"\n%sWorldBegin\nSurface "vconst"\nShadingRate %g\n%sWorldEnd\n' % (W, H, W, H, *rnd.choice([(1, 1), (2, 2), (3, 1)]), "" , rnd.choice([.25, 1, 1000]), objs + body))

def expect(c, i):
    col, opa = [0.0] * 3, 0.0
    for s in reversed(c["pics"][0][i]):
        o = (c["boxes"] if s["k"] == "box" else c["loose"])[s["id"] - 1]["o"] / 2.0
        col = [x * o + (1 - o) * y for x, y in zip(colour(s["k"], s["id"]), col)]; opa = o + (1 - o) * opa
    return col + [opa]
def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = o.images["out.cap"]
    if len(im) != 1: return "%d images were opened" % len(im)
    try: px = im[0].pixels()
    except ValueError as e: return str(e)
    for i in range(c["w"] * c["h"]):
        x, y = i % c["w"], i // c["w"]; e = expect(c, i)
        v = [dict(zip([n for n, _ in im[0].fmt], px[x, y]))[n] for n in "rgba"]
        if any(abs(a - b) > 3e-6 for a, b in zip(v, e)): return "pixel %d,%d is %s, the solids there show %s: %s" % (x, y, ["%.4g" % q for q in v], [(s["z"], s["k"], s["id"]) for s in c["pics"][0][i]], ["%.4g" % q for q in e])
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("Solids", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=cfg["MaxOps"] + 20, procs=8, timeout=900, constants=dict(cfg, Rand=True), invariants=["HasFace", "Closed", "Emit"])
        ctx.model(r)
        for c in r.cases: c["w"], c["h"] = cfg["W"], cfg["H"]
        cases += r.cases
    ribs = [text(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("boxes", len(c["boxes"])); ctx.add("pixels_with_faces", sum(1 for p in c["pics"][0] if p))
        m = compare(c, o)
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "expected": c["pics"]})
    ctx.sample({"rib": ribs[-1][:3000]})
