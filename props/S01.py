"""Control flow of the shading language (spec ShaderVM)."""
import random
from vf import build, tlc, rend, slgen

def leaf(l): return str(l["v"])
def cmp(c): return "%s %s %s" % (leaf(c["l"]), c["o"], leaf(c["r"]))
def cond(c):
    k = c["k"]
    if k == "cmp": return cmp(c["a"])
    if k == "not": return "!(%s)" % cmp(c["a"])
    return "%s %s %s" % (cmp(c["a"]), {"and": "&&", "or": "||"}[k], cmp(c["b"]))
def expr(e):
    k = e["k"]
    if k == "leaf": return leaf(e["a"])
    if k == "cond": return "(%s) ? %s : %s" % (cond(e["c"]), leaf(e["a"]), leaf(e["b"]))
    if e["o"] == "-": return "%s + 7 - %s" % (leaf(e["a"]), leaf(e["b"]))
    return "%s %s %s" % (leaf(e["a"]), e["o"], leaf(e["b"]))

VARS = ["a", "b", "c", "p", "q"] + ["i%d" % i for i in range(4)] + ["j%d" % i for i in range(4)]
AOVS = ["aovl", "aov0", "aov1", "aov2", "aov3", "aov4"]
def shader(c, name, lx, ly):
    o = ["surface %s(%s)\n{\n" % (name, " ".join("output varying color %s = 0;" % a for a in AOVS)),
         "\tvarying float a = 0, b = 0, c = 0, i0 = 0, i1 = 0, i2 = 0, i3 = 0;\n\tuniform float p = 0, q = 0, j0 = 0, j1 = 0, j2 = 0, j3 = 0;\n",
         "\tvarying float x = floor(u * %d + 0.5), y = floor(v * %d + 0.5);\n" % (lx, ly)]
    ind = 1; kinds = []
    for t in c["prog"]:
        k = t["t"]; tab = "\t" * ind
        if k == "asg": o.append("%s%s = mod(%s, 7);\n" % (tab, t["v"], expr(t["e"]) if t["e"]["k"] != "cond" else "(" + expr(t["e"]) + ")"))
        elif k == "if": o.append("%sif (%s) {\n" % (tab, cond(t["c"]))); ind += 1; kinds.append("}\n")
        elif k == "else": o.append("%s} else {\n" % tab[1:])
        elif k == "for": o.append("%sfor (%s = 0; %s < mod(%s, 4); %s += 1) {\n" % (tab, t["v"], t["v"], expr(t["e"]) if t["e"]["k"] != "cond" else "(" + expr(t["e"]) + ")", t["v"])); ind += 1; kinds.append("}\n")
        elif k == "while":
            o.append("%s%s = 0;\n%swhile (%s < 5 && (%s)) {\n%s\t%s += 1;\n" % (tab, t["v"], tab, t["v"], cond(t["c"]), tab, t["v"])); ind += 1; kinds.append("}\n")
        elif k == "end": o.append("\t" * (ind - 1) + kinds.pop()); ind -= 1
        else: o.append("%s%s%s;\n" % (tab, "break" if k == "break" else "continue", "" if t["n"] == 1 and len(c["prog"]) % 2 else " %d" % t["n"]))
    o.append("\tCi = 1; Oi = 1;\n\taovl = color(x, y, 1);\n")
    for n, g in enumerate([VARS[k:k+3] for k in range(0, len(VARS), 3)]): o.append("\taov%d = color(%s);\n" % (n, ", ".join((g + ["0", "0"])[:3])))
    return "".join(o) + "}\n"

def rib(dd, sd, name, w, h, rnd):
    sr, gs = rnd.choice([(1, 256), (1, 256), (1, 4), (.25, 256), (4, 256)])
    return (rend.header(dd, ".", 'Option "limits" "integer[2] bucketsize" [16 16]\nOption "limits" "integer gridsize" [%d]\n' % gs) + "".join('Declare "%s" "varying color"\n' % a for a in AOVS) +
            'Format %d %d 1\nProjection "orthographic"\nScreenWindow 0 %d 0 %d\nPixelSamples 1 1\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [0]\nQuantize "rgba" 0 0 0 0\nShadingInterpolation "constant"\nShadingRate %g\n' % (w, h, w, h, sr) +
            "".join('Display "%sd%d.cap" "cap" "%s"\n' % ("+" if i else "", i, a) for i, a in enumerate(AOVS)) +
            'WorldBegin\nSurface "%s"\nPatch "bilinear" "P" [0 0 5 %d 0 5 0 %d 5 %d %d 5]\nWorldEnd\n' % (name, w, h, w, h))

def compare(o, w, h, want):
    """want(x, y) -> list of values"""
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    try: px = [o.images["d%d.cap" % a][0].pixels() for a in range(len(AOVS))]
    except (ValueError, IndexError) as e: return "no image: %s %s" % (e, o.log[-300:])
    for y in range(h):
        for x in range(w):
            l = px[0][x, y]
            if abs(l[2] - 1) > 1e-4: return "pixel %d,%d is not shaded %s" % (x, y, o.log[-200:])
            lx, ly = round(l[0]), round(l[1])
            got = [v for p in px[1:] for v in p[x, y]]
            exp = want(lx, ly)
            for n, (g, e) in enumerate(zip(got, exp)):
                if not abs(g - e) < 1e-3: return "at point %d,%d %s is %g, expected %g" % (lx, ly, VARS[n], g, e)
    return None

LX, LY = 4, 3
CFG = [dict(MaxToks=8, MaxDepth=3), dict(MaxToks=16, MaxDepth=4), dict(MaxToks=26, MaxDepth=5)]
N = [700, 800, 500]
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("ShaderVM", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=700, procs=8, timeout=1500, constants=dict(cfg, LX=LX, LY=LY, MaxRun=600, Rand=True),
                         invariants=["SimdIsScalar", "MasksNest", "UniformIsUniform", "Emit"])
        ctx.model(r); cases += r.cases
    srcs = {"s%d" % i: shader(c, "s%d" % i, LX, LY) for i, c in enumerate(cases)}
    slx = slgen.compile_all(srcs, ctx.work)
    ribs = [rib(dd, sd, "s%d" % i, LX, LY, rnd) for i in range(len(cases))]
    files = [{"s%d.slx" % i: slx["s%d" % i][0]} if slx["s%d" % i][0] else {} for i in range(len(cases))]
    outs = rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % i for i in range(len(AOVS))), files=files)
    for i, (c, o) in enumerate(zip(cases, outs)):
        ctx.add("traces_validated_against_impl"); ctx.add("tokens", len(c["prog"]))
        n = "s%d" % i
        m = slx[n][1] if slx[n][0] is None else compare(o, LX, LY, lambda x, y: [c["env"][x + y * (LX + 1)][v] for v in VARS])
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": ribs[i], "sl": {n + ".sl": srcs[n]}})
    ctx.sample({"sl": srcs["s%d" % (len(cases) - 1)][:3000]})
