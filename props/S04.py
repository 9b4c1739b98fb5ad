"""The stages of shading and the messages between shaders (spec ShaderPipeline)."""
import random
from vf import build, tlc, rend
def text(c, w, h, dd, sd, rnd):
    o = rend.header(dd, sd, 'Option "limits" "integer[2] bucketsize" [%d %d]\nOption "limits" "integer gridsize" [%d]\n' % (*rnd.choice([(16, 16), (3, 2), (1, 1), (4, 4)]), rnd.choice([256, 16, 4])))
    o += 'Display "out.cap" "cap" "rgb"\nQuantize "rgba" 0 0 0 0\nFormat %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\nPixelSamples 1 1\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [0]\nClipping .1 200\nSurface "vpsurf0"\nShadingRate %s\n' % (w, h, w, h, rnd.choice(["1", ".25", "9"]))
    for s in c["prog"]:
        op = s["op"]
        if op == "Surface": o += 'Surface "vpsurf%s" "float a" [%d]%s\n' % ("" if s["var"] else "0", s["a"], ' "float t" [%d]' % s["t"] if s["t"] == 0 or rnd.random() < .5 else "")
        elif op == "Displacement": o += 'Displacement "vpdisp%s" "float m" [%d] "%s" [%d %d %d]\n' % ("" if s["var"] else "0", s["m"], "D", *s["d"])
        elif op == "Atmosphere": o += 'Atmosphere "vpatm" "float b" [%d] "float o" [%d]\n' % (s["b"], s["o"])
        elif op == "Imager": o += 'Imager "vpimg" "float c" [%d]\n' % s["c"]
        elif op == "Null": o += '%s "null"\n' % s["w"]
        elif op == "Translate": o += "Translate %d %d 0\n" % (s["x"], s["y"])
        elif op == "Scale": o += "Scale 2 2 1\n"
        elif op == "FrameBegin": o += "FrameBegin 1\n"
        elif op == "Prim":
            x0, y0, x1, y1 = s["r"]; n = sum(map(abs, s["d"])); cs = rnd.choice(["camera", "world", "object", "shader", ""])
            o += 'AttributeBegin\n' + ('Attribute "displacementbound" "sphere" [%g]%s\n' % (n / {"object": s["s"], "": s["s"], "shader": s["ss"]}.get(cs, 1.0), ' "coordinatesystem" ["%s"]' % cs if cs else "") if n or rnd.random() < .3 else "")
            o += 'Polygon "P" [%d %d %d %d %d %d %d %d %d %d %d %d]\nAttributeEnd\n' % (x0, y0, 50 - s["n"], x1, y0, 50 - s["n"], x1, y1, 50 - s["n"], x0, y1, 50 - s["n"])
        else: o += op + "\n"
    return o
def compare(c, w, h, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = o.images["out.cap"]
    if len(im) != len(c["pics"]): return "%d images were made, %d worlds given" % (len(im), len(c["pics"]))
    for n, pic in enumerate(c["pics"]):
        try: px = im[n].pixels()
        except ValueError as e: return str(e)
        for i, want in enumerate(pic):
            x, y = i % w, h - 1 - i // w; g = px[x, y]
            if any(abs(a - b) > .01 for a, b in zip(g, want)): return "world %d pixel %d,%d is %s, expected %s" % (n + 1, x, y, [round(v, 3) for v in g], want)
    return None
W, H = 8, 6
CFG = [(dict(MaxSteps=16, MaxWorlds=1, MaxPrims=3), 500), (dict(MaxSteps=36, MaxWorlds=2, MaxPrims=6), 400), (dict(MaxSteps=60, MaxWorlds=3, MaxPrims=8), 200)]
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"; rnd = random.Random(ctx.seed); cases = []
    for k, (cfg, n) in enumerate(CFG):
        r = tlc.simulate("ShaderPipeline", seed=ctx.seed * 10 + k + 4, num=ctx.pick(n, n * 10), depth=cfg["MaxSteps"] + 90, procs=8, timeout=900, constants=dict(cfg, W=W, H=H, Rand=True), invariants=["FramesOK", "Unchanged", "Emit"])
        ctx.model(r); cases += r.cases
    ribs = [text(c, W, H, dd, sd, rnd).replace('"D"', '"vector d"') for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("pixels", W * H * len(c["pics"]))
        m = compare(c, W, H, o)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib, "expected": c["pics"]})
    ctx.sample({"rib": ribs[-1][:3000]})
