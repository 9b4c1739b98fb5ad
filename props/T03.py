"""Environment maps (spec Environment)."""
import math, random
from vf import build, tlc, rend, images
from props.T02 import FULL, TOP, sequences
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def direction(im, d):
    if im["cube"]: return [float(v) for v in d]
    p, t = (d[0] / (8.0 * im["nx"]) - .5) * 2 * math.pi, d[1] / (8.0 * im["ny"]) * math.pi
    return [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]

def scene(c, v, dd, sd, rnd, fr=0):
    im = c["img"]; w, h = im["nx"] * im["b"], im["ny"] * im["b"]; files = {}
    for k, face in enumerate(im["px"]):
        px = [[[t * v["scale"] for t in face[y // im["b"]][x // im["b"]]] for x in range(w)] for y in range(h)]
        files["i%d_%d.tif" % (fr, k)] = images.tiff(w, h, im["nc"], v["typ"], px, v["big"], "none", None, v["tile"])
    out = rend.header(dd, sd) + "FrameBegin %d\n" % (fr + 1)
    if v["memory"]: out += 'Option "limits" "integer texturememory" [%d]\n' % v["memory"]
    if im["cube"]: out += 'MakeCubeFaceEnvironment %s "o.env" %.9g "box" 2 2\n' % (" ".join('"i%d_%d.tif"' % (fr, k) for k in range(6)), 2 * math.degrees(math.atan(im["k"] / 4.0)))
    else: out += 'MakeLatLongEnvironment "i%d_0.tif" "o.env" "box" 2 2\n' % fr
    out += 'Display "out.cap" "cap" "rgba"\nFormat 4 4 1\nProjection "orthographic"\nPixelSamples 1 1\nWorldBegin\n'
    for n, l in enumerate(c["looks"]):
        q = l["q"]; s = rnd.choice([1, .125, 40]); d = [s * t for t in direction(im, q["d"])]; m = math.sqrt(sum(t * t for t in d)); wid = rnd.choice([1, .5, 2]) if q["form"] == "quad" else 1
        r = [rnd.uniform(-1, 1) for _ in range(3)]; a = cross(d, r); a = [t * .01 * m / (wid * math.sqrt(sum(u * u for u in a))) for t in a]; b = [t / m for t in cross(d, a)]
        out += 'AttributeBegin\nSurface "venv" "string name" ["o.env"] "float id" [%d] "float form" [%d] "float colour" [%d] "float ch" [%d] "float fill" [%d] "float blur" [%g] "float wid" [%g] "float lerp" [%d] %s\n' % (
            n + 1000 * fr, q["form"] == "quad", q["colour"], q["ch"], q["fill"], q["blur"] * .004, wid, rnd.randint(0, 2), " ".join('"float %s" [%.9g]' % t for t in zip(("x", "y", "z", "ax", "ay", "az", "bx", "by", "bz"), d + a + b)))
        out += 'Patch "bilinear" "P" [-.2 -.2 1 .2 -.2 1 -.2 .2 1 .2 .2 1]\nAttributeEnd\n'
    return out + "WorldEnd\nFrameEnd\n", files

def compare(c, v, o, fr=0):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = c["img"]; seen = set()
    for line in o.log.split("\n"):
        if not line.startswith("@"): continue
        f = line[1:].split(";"); n = int(float(f[0])) - 1000 * fr
        if not 0 <= n < 1000: continue
        l = c["looks"][n]; q = l["q"]; seen.add(n)
        got = [float(x) for x in f[1].split(",")] if q["colour"] else [float(f[2])]
        if float(f[3]) != 1 or f[4].strip() != "environment": return "textureinfo gives the type %s, %s" % (f[3], f[4])
        for k, r in enumerate(l["r"]):
            e = q["fill"] if r["fill"] else r["v"] / 4.0 * v["unit"]
            tol = 1e-5 if r["fill"] else 5e-4 * TOP * abs(v["unit"]) + (0 if v["typ"] == "f32" else 2.0 / FULL[v["typ"]])
            if not abs(got[k] - e) <= tol: return "lookup %s in direction %s, blur %g, of channel %d+%d is %.6g, expected %.6g" % (q["form"], direction(im, q["d"]), q["blur"], q["ch"], k, got[k], e)
    if len(seen) != len(c["looks"]): return "lookups %s were not evaluated" % sorted(set(range(len(c["looks"]))) - seen)
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Frames", "InFace", "Opposite", "Turn"]
    ctx.model(tlc.run("Environment", constants=dict(Ns="{1,2}", Bs="{8}", Ncs="{1}", Top=30, Dir=ctx.pick(4, 6), MaxLook=1, Rand=False), invariants=inv, workers=8, timeout=600))
    r = tlc.simulate("Environment", seed=ctx.seed, num=ctx.pick(400, 4000), depth=300, procs=8, timeout=900, constants=dict(Ns="{1,2,4}", Bs="{16,32,48}", Ncs="{1,2,3,4}", Top=TOP, Dir=20, MaxLook=30, Rand=True), invariants=inv + ["Emit"])
    ctx.model(r)
    def make(c, k):
        v = {"typ": rnd.choice(["u8", "u16", "f32"]), "big": rnd.random() < .3, "tile": rnd.choice([None, None, (32, 32)]), "memory": rnd.choice([None, None, 8])}
        v["scale"] = rnd.choice([.0625, 1, -2.5]) if v["typ"] == "f32" else FULL[v["typ"]] // TOP
        v["unit"] = v["scale"] / (1.0 if v["typ"] == "f32" else FULL[v["typ"]])
        return (c, v) + scene(c, v, dd, sd, rnd, k)
    progs = sequences(r.cases, rnd, make)
    for p, o in zip(progs, rend.render(exe, [p["rib"] for p in progs], ctx.work, files=[p["files"] for p in progs])):
        ctx.add("traces_validated_against_impl", len(p["parts"]))
        for k, (c, v, _, _) in enumerate(p["parts"]):
            ctx.add("lookups", len(c["looks"])); im = c["img"]; m = compare(c, v, o, k)
            if m and len(ctx.violations) < 25: ctx.violation("frame %d, %s, %dx%d blocks of %d, %s: %s" % (k + 1, "cube of half width %g" % (im["k"] / 4.0) if im["cube"] else "latlong", im["nx"], im["ny"], im["b"], v["typ"], m), {"rib": p["rib"], "files": {k: b.hex() for k, b in p["files"].items()}})
    ctx.sample({"rib": progs[-1]["rib"]})
