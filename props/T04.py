"""Shadow maps (spec ShadowMap)."""
import random
from vf import build, tlc, rend
from props.T02 import sequences
def camera(frame, pos):
    """Transform from world to the camera with the given axes and position"""
    t = [0 - sum(pos[k] * frame[a][k] for k in range(3)) for a in range(3)]
    return "Transform [%s %s]\n" % (" ".join("%g %g %g 0" % tuple(frame[a][k] for a in range(3)) for k in range(3)), "%.9g %.9g %.9g 1" % tuple(t))
UNITS = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
def scene(c, dd, sd, fd, rnd, fr=0):
    L = c["light"]; cell = rnd.choice([8, 9, 12, 16]); v = {"kind": rnd.choice(["zfile", "zfile", "shadow", "shadow made"])}
    first = c["asks"][0]["q"]
    out = rend.header(dd, sd) + 'Option "display" "string shadow" ["%s"] "string zfile" ["%s"]\n' % (fd, fd)
    out += 'Option "shadow" "float bias0" [%g] "float bias1" [%g]\n' % (first["b0"] / 2.0, first["b1"] / 2.0)
    if rnd.random() < .4: out += 'Option "limits" "integer[2] bucketsize" [%d %d]\n' % (rnd.choice([4, 16, 37]), rnd.choice([5, 16, 40]))
    out += 'Hider "hidden" "string depthfilter" ["min"]\nFrameBegin 0\nDisplay "z.z" "%s" "z"\nFormat %d %d 1\nPixelSamples 1 1\nPixelFilter "box" 1 1\n' % (v["kind"].split()[0], L["nx"] * cell, L["ny"] * cell)
    k = 1 if L["persp"] else L["wide"]
    out += 'ScreenWindow %g %g %g %g\nProjection %s\n' % (-L["nx"] * k / 8.0, L["nx"] * k / 8.0, -L["ny"] * k / 8.0, L["ny"] * k / 8.0, '"perspective" "fov" [90]' if L["persp"] else '"orthographic"')
    out += camera(L["frame"], L["pos"]) + "WorldBegin\n"
    for o in c["occ"]:
        if rnd.random() < .5: out += 'Patch "bilinear" "P" [%s]\n' % " ".join("%.9g" % (x / 8.0) for q in o for x in q)
        else: out += 'Polygon "P" [%s]\n' % " ".join("%.9g" % (x / 8.0) for q in (o[0], o[1], o[3], o[2]) for x in q)
    out += "WorldEnd\nFrameEnd\n"
    name = "z.z"
    if v["kind"] != "shadow": out += 'MakeShadow "z.z" "s.tex"\n'; name = "s.tex"
    for f in sorted({a["q"]["frame"] for a in c["asks"]}):
        p = rnd.choice(UNITS); F = [[(rnd.choice([-1, 1]) if k == p[a] else 0) for k in range(3)] for a in range(3)]; F = [[x for x in r] for r in F]; pos = [rnd.randint(-9, 9) for _ in range(3)]
        out += 'FrameBegin %d\nDisplay "out.cap" "cap" "rgba"\nFormat 4 4 1\nProjection "orthographic"\nPixelSamples 1 1\n%sWorldBegin\n' % (f, camera(F, pos))
        for n, a in enumerate(c["asks"]):
            q = a["q"]
            if q["frame"] != f: continue
            P = [[pos[k] + F[2][k] + x * F[0][k] + y * F[1][k] for k in range(3)] for x, y in ((-.2, -.2), (.2, -.2), (-.2, .2), (.2, .2))]
            opt = (q["b0"], q["b1"]) == (first["b0"], first["b1"]) and rnd.random() < .5
            out += 'AttributeBegin\nSurface "vshadow" "string name" ["%s"] "float id" [%d] "float form" [%d] "float x" [%.9g] "float y" [%.9g] "float z" [%.9g] "float e" [%g] "float b0" [%g] "float b1" [%g] "float blur" [%g] "float fromopt" [%d]\nPatch "bilinear" "P" [%s]\nAttributeEnd\n' % (
                name, n + 1000 * fr, q["form"] == "quad", *[x / 16.0 for x in a["p"]], .005, q["b0"] / 2.0, q["b1"] / 2.0, q["blur"] * .01, opt, " ".join("%.9g" % x for r in P for x in r))
        out += "WorldEnd\nFrameEnd\n"
    return c, v, out, {}

def compare(c, o, fr=0):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    seen = set()
    for line in o.log.split("\n"):
        if not line.startswith("@"): continue
        f = line[1:].split(";"); n = int(float(f[0])) - 1000 * fr
        if not 0 <= n < 1000: continue
        a = c["asks"][n]; seen.add(n); q = a["q"]; e = a["r"][0] / float(a["r"][1])
        if not abs(float(f[1]) - e) <= (.03 if q["form"] == "quad" else 2e-3): return "frame %d: shadow (%s, biases %g %g) of cell %d,%d at depth %g is %s, expected %g" % (q["frame"], q["form"], q["b0"] / 2.0, q["b1"] / 2.0, q["i"], q["j"], q["d2"] / 2.0, f[1], e)
    if len(seen) != len(c["asks"]): return "lookups %s were not evaluated" % sorted(set(range(len(c["asks"]))) - seen)
    return None

def run(ctx):
    exe, dd, sd = build.renderer(["tools/displays/file/file_dspy.so"]); fd = build.MAIN + "/tools/displays/file/file_dspy.so"
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Range", "Deeper", "InFront", "Rigid"]
    ctx.model(tlc.run("ShadowMap", constants=dict(Sizes="{1,2}", MaxDepth=2, MaxOcc=2, MaxAsk=1, Biases="{0,2}", Rand=False), invariants=inv, workers=8, timeout=600))
    r = tlc.simulate("ShadowMap", seed=ctx.seed, num=ctx.pick(500, 5000), depth=60, procs=8, timeout=900, constants=dict(Sizes="{1,2,3,4,5,6}", MaxDepth=6, MaxOcc=6, MaxAsk=30, Biases="{0,2,4}", Rand=True), invariants=inv + ["Emit"])
    ctx.model(r); progs = sequences(r.cases, rnd, lambda c, k: scene(c, dd, sd, fd, rnd, k))
    for p, o in zip(progs, rend.render(exe, [p["rib"] for p in progs], ctx.work)):
        ctx.add("traces_validated_against_impl", len(p["parts"]))
        for k, (c, v, _, _) in enumerate(p["parts"]):
            ctx.add("lookups", len(c["asks"])); m = compare(c, o, k); L = c["light"]
            if m and len(ctx.violations) < 25: ctx.violation("map %d, %s, %s view of %dx%d cells: %s" % (k + 1, v["kind"], "perspective" if L["persp"] else "parallel", L["nx"], L["ny"], m), {"rib": p["rib"]})
    ctx.sample({"rib": progs[-1]["rib"]})
