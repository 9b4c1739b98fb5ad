"""Texture lookups (spec TextureLookup)."""
import random
from vf import build, tlc, rend, images
FULL = {"u8": 255, "u16": 65535, "f32": 1.0}
TOP = 15
def coord(p, size): return p["b"] * size + 1.25 if p["wide"] else p["b"] * size + (0 if p["edge"] else size / 2.0 + p["off"])
def variant(c, rnd):
    im = c["img"]; v = {"typ": rnd.choice(["u8", "u16", "f32"]), "big": rnd.random() < .3, "comp": rnd.choice(["none", "deflate"]), "rows": rnd.choice([None, 1, 16]), "tile": rnd.choice([None, None, (32, 32)]), "made": rnd.random() < .85, "memory": rnd.choice([None, None, 1, 8])}
    v["scale"] = rnd.choice([.0625, 1, -2.5]) if v["typ"] == "f32" else FULL[v["typ"]] // TOP
    v["unit"] = v["scale"] / (1.0 if v["typ"] == "f32" else FULL[v["typ"]])
    return v

def scene(c, v, dd, sd, rnd, k=0):
    """frame k of a program: the texture is made again, of another image, for each"""
    im = c["img"]; w, h = im["nx"] * im["bx"], im["ny"] * im["by"]
    px = [[[t * v["scale"] for t in im["px"][y // im["by"]][x // im["bx"]]] for x in range(w)] for y in range(h)]
    files = {"i%d.tif" % k: images.tiff(w, h, im["nc"], v["typ"], px, v["big"], v["comp"], v["rows"], v["tile"])}
    out = rend.header(dd, sd) + "FrameBegin %d\n" % (k + 1)
    if v["memory"]: out += 'Option "limits" "integer texturememory" [%d]\n' % v["memory"]
    if v["made"]: out += 'MakeTexture "i%d.tif" "o.tex" "%s" "%s" "box" 2 2\n' % (k, *c["wrap"])
    out += 'Display "out.cap" "cap" "rgba"\nFormat 4 4 1\nProjection "orthographic"\nPixelSamples 1 1\nWorldBegin\n'
    asked = {}
    for n, l in enumerate(c["looks"]):
        q = l["q"]; x, y = coord(q["x"], im["bx"]), coord(q["y"], im["by"])
        if not v["made"] and not (im["bx"] / 2.0 <= x <= w - im["bx"] / 2.0 and im["by"] / 2.0 <= y <= h - im["by"] / 2.0): continue
        s, t = x / w, y / h; wid = rnd.choice([1, 1, .5, 2]) if q["form"] == "quad" else 1
        ds, dt = q["ax"] / float(w) / wid, q["ay"] / float(h) / wid
        asked[n] = (l, s, t)
        st = '"s" [%.9g %.9g %.9g %.9g] "t" [%.9g %.9g %.9g %.9g]' % ((s,) * 4 + (t,) * 4) if q["form"] == "st" else ""
        out += 'AttributeBegin\nSurface "vtex" "string name" ["%s"] "float id" [%d] "float form" [%d] "float colour" [%d] "float ch" [%d] "float fill" [%d] "float s0" [%.9g] "float t0" [%.9g] "float ds" [%.9g] "float dt" [%.9g] "float sb" [%.9g] "float tb" [%.9g] "float wid" [%g] "float swap" [%d] "float lerp" [%d]\n' % (
            "o.tex" if v["made"] else "i%d.tif" % k, n + 1000 * k, ["point", "quad", "st"].index(q["form"]), q["colour"], q["ch"], q["fill"], s, t, ds, dt, q["blur"] / float(w), q["blur"] / float(h), wid, rnd.randint(0, 1), q["lerp"])
        out += 'Patch "bilinear" "P" [-.2 -.2 1 .2 -.2 1 -.2 .2 1 .2 .2 1] %s\nAttributeEnd\n' % st
    return out + "WorldEnd\nFrameEnd\n", files, asked

def compare(c, v, asked, o, frame=0):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    im = c["img"]; w, h = im["nx"] * im["bx"], im["ny"] * im["by"]; seen = set()
    for line in o.log.split("\n"):
        if not line.startswith("@"): continue
        f = line[1:].split(";"); n = int(float(f[0])) - 1000 * frame
        if not 0 <= n < 1000: continue
        l, s, t = asked[n]; q = l["q"]; seen.add(n)
        got = [float(x) for x in f[1].split(",")] if q["colour"] else [float(f[2])]
        if [float(x) for x in f[3:7]] != [2, w, h, im["nc"]]: return "textureinfo gives %s, the image has %dx%d texels of %d channels" % (f[3:7], w, h, im["nc"])
        for k, r in enumerate(l["r"]):
            e = q["fill"] if r["fill"] else r["v"] / (4.0 * im["nx"] * im["ny"]) * v["unit"]
            wide = q["x"]["wide"] or q["y"]["wide"]
            tol = .02 * TOP * abs(v["unit"]) if wide and not r["fill"] else 1e-5 if r["fill"] else 2e-4 * TOP * abs(v["unit"]) + (0 if v["typ"] == "f32" else (2.0 if q["ax"] + q["ay"] + q["blur"] else .01) / FULL[v["typ"]])
            if not abs(got[k] - e) <= tol: return "lookup %s at %.6g,%.6g (%g x %g texels, blur %g) of channel %d+%d is %.6g, expected %.6g" % (q["form"], s, t, q["ax"], q["ay"], q["blur"], q["ch"], k, got[k], e)
    if seen != set(asked): return "lookups %s were not evaluated" % sorted(set(asked) - seen)
    return None

CONF = [((1, 2, 3), (8, 9, 11, 14), (0, 1), .3), ((1, 2, 3, 4), (16, 32), (0, 1, 2, 3), .4), ((1, 2), (64, 32), (0, 1, 2, 4, 8, 12), .2), ((1, 2, 3), (10, 21, 33), (0, 1), .2)]
def setof(s): return "{%s}" % ",".join(str(x) for x in s)
def sequences(cases, rnd, make):
    """programs of one to three frames, each about a case; make returns (case, ..., rib, files, ...) with rib and files third and fourth"""
    r, i = [], 0
    while i < len(cases):
        n = rnd.choice([1, 1, 2, 3]); parts = [make(c, k) for k, c in enumerate(cases[i:i + n])]; i += n
        r.append({"parts": parts, "rib": "".join(q[2] for q in parts), "files": {f: b for q in parts for f, b in q[3].items()}})
    return r
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ctx.model(tlc.run("TextureLookup", constants=dict(Ns="{1,2}", Bs="{8}", Ncs="{1}", Sides="{0}", Top=1, MaxLook=0, Rand=False), invariants=["InRange", "Repeats"], workers=4, timeout=300))
    cases = []
    for k, (ns, bs, sides, part) in enumerate(CONF):
        r = tlc.simulate("TextureLookup", seed=ctx.seed * 10 + k, num=int(part * ctx.pick(480, 4000)), depth=200, procs=8, timeout=900,
                         constants=dict(Ns=setof(ns), Bs=setof(bs), Ncs="{1,2,3,4}", Sides=setof(sides), Top=TOP, MaxLook=24, Rand=True), invariants=["InRange", "Repeats", "Emit"])
        ctx.model(r); cases += r.cases
    progs = sequences(cases, rnd, lambda c, k: (c, v := variant(c, rnd)) + scene(c, v, dd, sd, rnd, k))
    for p, o in zip(progs, rend.render(exe, [p["rib"] for p in progs], ctx.work, files=[p["files"] for p in progs])):
        ctx.add("traces_validated_against_impl", len(p["parts"]))
        for k, (c, v, _, _, asked) in enumerate(p["parts"]):
            ctx.add("lookups", len(asked)); m = compare(c, v, asked, o, k)
            if m and len(ctx.violations) < 25: ctx.violation("frame %d, %dx%d blocks of %dx%d, %s %s%s, %s: %s" % (k + 1, *[c["img"][k] for k in ("nx", "ny", "bx", "by")], *c["wrap"], "" if v["made"] else " (not made)", v["typ"], m), {"rib": p["rib"], "files": {k: b.hex() for k, b in p["files"].items()}})
    ctx.sample({"rib": progs[-1]["rib"]})
