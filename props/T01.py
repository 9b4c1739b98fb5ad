"""Texture files are the images they are made of (spec Textures)."""
import math, os, random
from vf import build, tlc, rend, images
from props.H04 import KERNELS, POSITIVE

FULL = {"u8": 255, "u16": 65535, "f32": 1.0}
TOP = 15
def variant(c, rnd):
    nc = c["img"]["nc"]; typ = rnd.choice(["u8", "u16", "f32", "u8"])
    v = {"typ": typ, "kind": "tiff", "filter": rnd.choice(sorted(KERNELS)), "comp": rnd.choice(["none", "deflate", "packbits"]), "big": rnd.random() < .4,
         "rows": rnd.choice([None, 1, 2, 5, 16]), "tile": rnd.choice([None, None, (16, 16), (32, 16), (16, 48), (64, 64)]), "out": rnd.choice([None, None, "none", "lzw", "packbits", "deflate"])}
    if c["filt"] == [2, 2] and rnd.random() < .6: v["filter"] = "box"
    if typ == "u8" and nc <= 4 and rnd.random() < .3: v["kind"] = "png"; v["png"] = dict(filters=[rnd.randint(0, 4) for _ in range(rnd.randint(1, 4))], interlace=rnd.random() < .3, depth=rnd.choice([8, 8, 16] + ([4] if nc == 1 else [])))
    if v["kind"] == "png" and nc == 3 and len({tuple(p) for r in c["img"]["px"] for p in r}) <= 256 and rnd.random() < .4: v["png"].update(palette=True, depth=8)
    v["scale"] = rnd.choice([.0625, 1, -2.5, 100]) if typ == "f32" else FULL[typ] // TOP
    return v

def source(c, v):
    im = c["img"]; px = [[[t * v["scale"] for t in p] for p in r] for r in im["px"]]
    if v["kind"] == "png": return images.png(im["w"], im["h"], im["nc"], px, **v["png"])
    return images.tiff(im["w"], im["h"], im["nc"], v["typ"], px, v["big"], v["comp"], v["rows"], v["tile"])

def request(c, v, src, dst):
    return 'MakeTexture "%s" "%s" "%s" "%s" "%s" %d %d%s\n' % (src, dst, *c["wrap"], v["filter"], *c["filt"], ' "compression" ["%s"]' % v["out"] if v["out"] else "")

def compare(c, v, path):
    if not os.path.exists(path): return "no texture file was written"
    try: L = images.read_tiff(path)
    except (images.Bad, Exception) as x: return "the texture file cannot be read: %s" % x
    im = c["img"]; nc = im["nc"]
    if [[l["w"], l["h"]] for l in L] != c["sizes"]: return "the levels have the sizes %s, expected %s" % ([(l["w"], l["h"]) for l in L], c["sizes"])
    for l in L:
        if l["nc"] != nc or l["typ"] != v["typ"]: return "%d channels of type %s, the image has %d of type %s" % (l["nc"], l["typ"], nc, v["typ"])
        if l["tags"].get(33303) != "%s %s" % tuple(c["wrap"]): return "the wrap modes are recorded as %r" % l["tags"].get(33303)
        if 322 not in l["tags"]: return "a level is not tiled"
    alpha = v["kind"] == "png" and nc in (2, 4)       # colours are multiplied with alpha as they are read
    for y in range(im["h"]):
        for x in range(im["w"]):
            want = [t * v["scale"] for t in im["px"][y][x]]
            if alpha: want = [t * want[-1] // 255 for t in want[:-1]] + want[-1:]
            if L[0]["px"][y][x] != want: return "level 0 texel %d,%d is %s, the image has %s" % (x, y, L[0]["px"][y][x], want)
    if alpha: return None
    integer = v["typ"] != "f32"; full = FULL[v["typ"]]; mag = TOP * abs(v["scale"])
    if c["level1"] and (im["w"] * im["h"]) > 1:
        K = KERNELS[v["filter"]]; fx, fy = [f / 2.0 for f in c["filt"]]
        taps = {(t["a"], t["b"]): K(t["a"] / 4.0, t["b"] / 4.0, fx, fy) for t in c["level1"][0][0]}
        tot = mass = 0
        for (a, b), k in taps.items(): m = (1 if a == 0 else 2) * (1 if b == 0 else 2); tot += m * k; mass += m * abs(k)
        if abs(tot) > 1e-3 * mass:
            taps = {d: (0 if abs(k / tot) < 2e-5 else k) for d, k in taps.items()}
            tol = (3e-6 * mass / abs(tot) + 4e-5 * len(taps)) * mag
            for y, r in enumerate(c["level1"]):
                for x, ts in enumerate(r):
                    for q in range(nc):
                        e = sum(taps[t["a"], t["b"]] * t["s"][q] for t in ts) / tot * v["scale"]; g = L[1]["px"][y][x][q]
                        if integer: e = min(max(e, 0), full)
                        if not (e - tol - (1 if integer else 0) <= g <= e + tol): return "level 1 texel %d,%d channel %d is %.7g, the %s filter gives %.7g" % (x, y, q, g, v["filter"], e)
    if v["filter"] == "box" and c["filt"] == [2, 2]:
        for k, l in enumerate(c["chain"]):
            tol = 1e-5 * mag * (k + 1)
            for y in range(l["h"]):
                for x in range(l["w"]):
                    for q in range(nc):
                        e = l["px"][y][x][q] * v["scale"] / float(l["den"]); g = L[k]["px"][y][x][q]
                        if not (e - tol - (k if integer else 0) <= g <= e + tol): return "level %d texel %d,%d channel %d is %.7g, the box filter gives %.7g" % (k, x, y, q, g, e)
    return None

S = "1..9"
CONF = [  # sizes, channels, filters, levels of the box filter, cases
    (range(1, 10), range(1, 10), (1, 2, 3, 4), (1, 2, 3, 4, 5), 4, 1),
    (range(1, 8), range(1, 8), (1, 3), (2,), 4, 1),
    ((1, 2), range(1, 20), (1, 3), (1, 2, 4), 4, .5),
    ((31, 32, 33, 40, 64, 65, 70), (3, 16, 31, 32, 33, 45), (1, 3, 4), (2,), 2, .15),
    ((2, 5, 33), (64, 65, 97), (1, 3), (2, 3), 2, .15)]
def setof(s): return "{%s}" % ",".join(str(x) for x in s)
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    ctx.model(tlc.run("Textures", constants=dict(Ws="{1,2}", Hs="{1,2}", Ncs="{1}", Fs="{1,2,3}", Top=1, MaxChain=3, Rand=False), invariants=["Pyramid", "Even", "Mean"], workers=4, timeout=300))
    cases = []
    for k, (ws, hs, ncs, fs, chain, part) in enumerate(CONF):
        r = tlc.simulate("Textures", seed=ctx.seed * 10 + k, num=int(part * ctx.pick(320, 4000)), depth=130, procs=8, timeout=900,
                         constants=dict(Ws=setof(ws), Hs=setof(hs), Ncs=setof(ncs), Fs=setof(fs), Top=TOP, MaxChain=chain, Rand=True), invariants=["Emit"] if k >= 3 else ["Pyramid", "Even", "Mean", "Emit"])
        ctx.model(r); cases += r.cases
    rnd.shuffle(cases)
    per = 5; jobs, ribs, files = [], [], []
    for i in range(0, len(cases), per):
        job, rib, fl = [], rend.header(dd, sd), {}
        for n, c in enumerate(cases[i:i + per]):
            v = variant(c, rnd); src = "i%d.%s" % (n, "png" if v["kind"] == "png" else "tif"); fl[src] = source(c, v)
            rib += request(c, v, src, "o%d.tex" % n); job.append((c, v, "o%d.tex" % n))
        jobs.append(job); ribs.append(rib); files.append(fl)
    for job, rib, fl, o in zip(jobs, ribs, files, rend.render(exe, ribs, ctx.work, files=files, keep=True)):
        for c, v, name in job:
            ctx.add("traces_validated_against_impl"); ctx.add("texels", c["img"]["w"] * c["img"]["h"])
            m = "the renderer ended with status %d: %s" % (o.rc, o.log[-300:]) if o.rc != 0 else compare(c, v, os.path.join(o.dir, name))
            if m and len(ctx.violations) < 25:
                ctx.violation("%dx%dx%d %s %s, %s %s, filter %s %s: %s" % (c["img"]["w"], c["img"]["h"], c["img"]["nc"], v["typ"], v["kind"], *c["wrap"], v["filter"], c["filt"], m), {"rib": rib, "case": {"name": name, "variant": v, "img": c["img"]}, "files": {k: b.hex() for k, b in fl.items()}})
    ctx.sample({"rib": ribs[-1]})
