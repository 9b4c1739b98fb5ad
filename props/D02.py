"""Image files (spec DisplayDelivery, through the drivers for TIFF, OpenEXR and BMP files)."""
import os, random, shutil
from vf import build, tlc, rend, images
from props import D01
INF = D01.INF
TYPES = {1: "f32", 2: "I", 4: "u16", 6: "u8"}
CHOICE = ["none", "lzw", "deflate", "packbits", None]
EXRC = ["none", "rle", "zips", "zip", None]
def drivers(c, rnd):
    """what each display name is written as; a display can be opened for several worlds: its file shows the last"""
    r = {}
    for s in c["prog"]:
        if s["op"] == "Display":
            d = s["d"]; es = [e for e in c["out"] if e["name"] == d["name"]]
            kind = rnd.choice(["tiff", "tiff", "exr", "bmp"])
            if kind == "bmp" and not (all(e["atype"] == 6 for e in es) and d["mode"] in ("rgb", "rgba", "a", "Ci", "Oi", "aovc", "aovf")): kind = "tiff"
            if kind == "tiff" and not (all(e["atype"] in TYPES for e in es) and d["mode"] in ("rgb", "rgba", "rgbaz")): kind = "exr"
            r[d["name"]] = [kind, rnd.choice(CHOICE if kind == "tiff" else EXRC), rnd.choice(["half", "float"])]
    return r
def text(c, how, dd, sd, rnd):
    out = []
    for l in D01.text(c["prog"], dd, sd).split("\n"):
        if l.startswith("Display "):
            t = l.split('"'); n = t[1].lstrip("+").split(".")[0]; kind, comp, pix = how[n]
            l = 'Display "%s%s.%s" "%s" "%s"' % ("+" if t[1][0] == "+" else "", n, kind, t[3] if t[3] == "nosuchdriver" else {"tiff": rnd.choice(["file", "tiff"]), "exr": "exr", "bmp": "bmp"}[kind], t[5])
            rest = '"'.join(t[6:])
            q = rest.find('"float[4] quantize"')
            if q >= 0: l += " " + rest[q:rest.index("]", rest.index('"float dither"')) + 1]
            if comp: l += ' "string %s" ["%s"]' % ("compression" if kind == "tiff" else "exrcompression", comp) if kind != "bmp" else ""
            if kind == "exr": l += ' "string exrpixeltype" ["%s"]' % pix
        out.append(l)
    base = build.MAIN + "/tools/displays"
    return 'Option "display" "string file" ["%s/file/file_dspy.so"] "string tiff" ["%s/file/file_dspy.so"] "string exr" ["%s/exr/exr_dspy.so"] "string bmp" ["%s/sdcBMP/bmp_dspy.so"]\n' % ((base,) * 4) + "\n".join(out)

def close(g, lo, hi, quant, half):
    if quant: return lo <= g <= hi or (abs(lo) > 8000 and lo - 1 <= g <= hi + 1) or (half and abs(g - lo) <= abs(lo) * .001) or (half and abs(lo) > 65504)
    if lo == INF: return g > 1e30
    return abs(g - lo / 4.0) <= 2e-6
def compare(c, how, d, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    last = {e["name"]: e for e in c["out"]}
    for n, e in last.items():
        kind, comp, pix = how[n]; f = "%s/%s.%s" % (d, n, kind); who = "%s (%s, %s): " % (os.path.basename(f), comp, "channels " + " ".join(e["asked"]))
        if not os.path.exists(f): return who + "was not written"
        try:
            if kind == "tiff":
                im = images.read_tiff(f)
                if len(im) != 1: return who + "has %d images" % len(im)
                im = im[0]
                if im["typ"] != TYPES[e["atype"]]: return who + "has samples of type %s, expected %s" % (im["typ"], TYPES[e["atype"]])
                names = [x for x in "rgba" if x in e["asked"]] + [x for x in e["asked"] if x not in "rgba"]
                if im["nc"] != len(names): return who + "has %d channels" % im["nc"]
                t = im["tags"]
                if (t.get(286, [0, 1])[0], t.get(287, [0, 1])[0]) != (0, 1) and [t[286][0] / t[286][1], t[287][0] / t[287][1]] != [e["ox"], e["oy"]]: return who + "is placed at %s, %s" % (t[286], t[287])
                if [t[33300][0], t[33301][0]] != [e["fw"], e["fh"]]: return who + "is said to be part of %sx%s" % (t[33300], t[33301])
                get = lambda x, y: dict(zip(names, im["px"][y][x])); size = im["w"], im["h"]
            elif kind == "bmp":
                im = images.read_bmp(f); size = im["w"], im["h"]
                one = len(e["asked"]) == 1
                get = lambda x, y: {e["asked"][0]: im["px"][y][x][0]} if one else dict(zip("rgb", im["px"][y][x]))
            else:
                im = images.read_exr(f); b = im["data"]; size = b[2] - b[0] + 1, b[3] - b[1] + 1
                if b[:2] != (e["ox"], e["oy"]): return who + "has its data at %s, expected %d,%d" % (b[:2], e["ox"], e["oy"])
                if im["display"] != (0, 0, e["fw"] - 1, e["fh"] - 1): return who + "has the display window %s" % (im["display"],)
                names = {k.split(".")[-1].lower(): k for k in im["chans"]}
                if sorted(names) != sorted(e["asked"]): return who + "has channels %s" % sorted(im["chans"])
                get = lambda x, y: {k: im["chans"][v][b[0] + x, b[1] + y] for k, v in names.items()}
        except (images.Bad, KeyError, ValueError, IndexError) as x: return who + repr(x)
        if size != (e["w"], e["h"]): return who + "has %dx%d pixels, expected %dx%d" % (size + (e["w"], e["h"]))
        for i, p in enumerate(e["pix"]):
            x, y = i % e["w"], i // e["w"]; g = get(x, y)
            for nm, (lo, hi) in zip(e["fmt"], p):
                if nm in g and not close(g[nm], lo, hi, e["quant"], kind == "exr" and pix == "half"): return who + "pixel %d,%d channel %s is %.7g, expected %s" % (x, y, nm, g[nm], (lo, hi) if e["quant"] else lo / 4.0)
    return None

def run(ctx):
    exe, dd, sd = build.renderer(["tools/displays/file/file_dspy.so", "tools/displays/exr/exr_dspy.so", "tools/displays/sdcBMP/bmp_dspy.so"])
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed); cases = []
    for k, (st, wo, res, n) in enumerate([(6, 1, 6, 400), (10, 2, 9, 500), (14, 3, 25, 150)]):
        r = tlc.simulate("DisplayDelivery", seed=ctx.seed * 10 + k + 3, num=ctx.pick(n, n * 8), depth=st + 4, procs=8, timeout=900, constants=dict(MaxSteps=st, MaxWorlds=wo, MaxRes=res), invariants=["SessionsOK", "FramesOK", "Emit"])
        ctx.model(r); cases += r.cases
    how = [drivers(c, rnd) for c in cases]; ribs = [text(c, h, dd, sd, rnd) for c, h in zip(cases, how)]
    for c, h, rib, o in zip(cases, how, ribs, rend.render(exe, ribs, ctx.work, keep=True)):
        ctx.add("traces_validated_against_impl"); ctx.add("files", len({e["name"] for e in c["out"]}))
        m = compare(c, h, o.dir, o)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib})
    shutil.rmtree(ctx.work + "/render", ignore_errors=True)
    ctx.sample({"rib": ribs[-1][:2000]})
