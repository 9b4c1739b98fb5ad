"""Motion blur (spec Motion)."""
import random
from vf import build, tlc, rend, geom
COLS = lambda c: (c & 1, c >> 1 & 1, c >> 2 & 1)
def rect(kind, r, disk):
    if disk: return 'Points "P" [%g %g %d] "constantwidth" [%d]\n' % (r[0] + r[2] / 2, r[1] + r[2] / 2, r[4] + 60, r[2])
    return geom.rect(kind, r[0], r[1], r[0] + r[2], r[1] + r[3], r[4] + 60)
def text(c, w, h, dd, sd, rnd):
    T = "[%s]" % " ".join(map(str, c["times"]))
    o = rend.header(dd, sd, 'Option "limits" "integer[2] bucketsize" [%d %d]\nOption "limits" "integer gridsize" [%d]\n' % (*rnd.choice([(16, 16), (3, 2), (1, 1), (4, 4)]), rnd.choice([256, 16, 4])))
    o += 'Display "out.cap" "cap" "rgba"\nQuantize "rgba" 0 0 0 0\nFormat %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\nPixelSamples %d %d\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [%d]\nClipping .1 900\nShutter %d %d\n' % (w, h, w, h, *c["ns"], 1, *c["shutter"])
    n = 0; lead = 0          # the camera moves first: everything before WorldBegin
    while lead < len(c["prog"]) and c["prog"][lead]["op"] in ("Translate", "Scale", "MotionTranslate", "MotionScale"): lead += 1
    lead = rnd.choice([0, 0, rnd.randint(0, lead)])
    def p3(d): return "%d %d %d" % (d["x"], d["y"], d["z"])
    for i, s in enumerate(c["prog"]):
        op = s["op"]
        if i == lead: o += 'WorldBegin\nSurface "vconst"\n'
        if op == "Translate": o += "Translate %s\n" % p3(s["d"])
        elif op == "Scale": o += "Scale 2 2 2\n"
        elif op == "MotionTranslate": o += "MotionBegin %s\n%sMotionEnd\n" % (T, "".join("Translate %s\n" % p3(d) for d in s["d"]))
        elif op == "MotionScale": o += "MotionBegin %s\n%sMotionEnd\n" % (T, "".join("Scale %d %d %d\n" % (q, q, q) for q in s["q"]))
        elif op in ("Prim", "MotionPrim"):
            kind = rnd.choice([k for k in geom.KINDS if k not in geom.TRIANGLES])
            if op == "Prim":
                g = rect(kind, s["r"], s["disk"])
                if s["inst"]: n += 1; g = 'ObjectBegin "o%d"\n%sObjectEnd\nObjectInstance "o%d"\n' % (n, g, n)
            else: g = "MotionBegin %s\n%sMotionEnd\n" % (T, "".join(rect(kind, r, s["disk"]) for r in s["r"]))
            o += "Color [%d %d %d]\nShadingRate %s\n" % (*COLS(s["c"]), rnd.choice(["1", "0.25", "4", "100"])) + g
        else: o += op + "\n"
    return o + "WorldEnd\n"
def compare(c, w, h, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = o.images["out.cap"]
    if len(im) != 1: return "%d images were opened" % len(im)
    try: px = im[0].pixels()
    except ValueError as e: return str(e)
    names = [n for n, _ in im[0].fmt]; n = c["ns"][0] * c["ns"][1]
    for y in range(h):
        for x in range(w):
            g = dict(zip(names, px[x, h - 1 - y]))
            for b, (lo, hi) in enumerate(c["image"][y][x]):
                v = g["rgba"[b]] * n
                if not lo - .01 <= v <= hi + .01: return "pixel %d,%d channel %s is %.4g/%d, expected %d..%d of %d" % (x, h - 1 - y, "rgba"[b], v, n, lo, hi, n)
    return None
CFG = [(dict(MaxSteps=4, MaxPrims=1), 400), (dict(MaxSteps=10, MaxPrims=3), 400), (dict(MaxSteps=12, MaxPrims=4), 600)]
W, H = 9, 7
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"; rnd = random.Random(ctx.seed); cases = []
    for k, (cfg, n) in enumerate(CFG):
        r = tlc.simulate("Motion", seed=ctx.seed * 10 + k + 5, num=ctx.pick(n, n * 10), depth=cfg["MaxSteps"] + 12, procs=8, timeout=900, constants=dict(cfg, W=W, H=H, Rand=True), invariants=["SharpOK", "Emit"])
        ctx.model(r); cases += [c for c in r.cases]
    ribs = [text(c, W, H, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work, caps=("out.cap",))):
        ctx.add("traces_validated_against_impl"); ctx.add("pixels", W * H)
        m = compare(c, W, H, o)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib, "expected": c["image"]})
    ctx.sample({"rib": ribs[-1][:3000]})
