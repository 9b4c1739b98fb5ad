"""Lights and illuminance (spec Lighting)."""
import math, random
from vf import build, tlc, rend
AOVS = ["rgb", "aovl"] + ["aov%d" % i for i in range(17)]
LX, LY, Z0 = 4, 3, 10
CFG = [dict(MaxOps=12), dict(MaxOps=20), dict(MaxOps=36)]
N = [800, 800, 400]
SH = dict(amb="ambientlight", pt="pointlight", dist="distantlight", dist2="distantlight", omni="vlight", spot="vspot")
def close(a, b, eps=2e-4): return abs(a - b) <= eps * (1 + abs(b))
def v3(v): return "[%s]" % " ".join("%.9g" % x for x in v)
def inv(m, p):
    q = [a - b for a, b in zip(p, m["t"])]
    return [sum(q[j] * m["r"][i][j] for j in range(3)) for i in range(3)]

def text(c, dd, sd, rnd):
    t = rend.header(dd, sd) + "".join('Declare "%s" "varying color"\n' % q for q in AOVS[1:])
    t += 'Declare "__category" "uniform string"\nDeclare "__nondiffuse" "uniform float"\nDeclare "__nonspecular" "uniform float"\nDeclare "angle" "uniform float"\nDeclare "col" "uniform color"\nDeclare "utag" "uniform float"\n'
    W = (LX + 1) * 3
    t += 'Format %d %d 1\nScreenWindow 0 %g 0 %g\nProjection "orthographic"\nPixelSamples 1 1\nPixelFilter "box" 1 1\nExposure 1 1\nShadingRate 1\nShadingInterpolation "constant"\nQuantize "rgba" 0 0 0 0\nOption "limits" "integer gridsize" [%d] "integer[2] bucketsize" [%d %d]\n' % (
        W, LY + 1, W, LY + 1, rnd.choice([16, 256]), rnd.choice([4, 16]), rnd.choice([4, 16]))
    t += "".join('Display "%sd%d.cap" "cap" "%s"\n' % ("+" if i else "", i, q) for i, q in enumerate(AOVS))
    t += 'Surface "vlit" "angle" [%.9g]\nHider "hidden" "jitter" [0]\n' % math.acos(0.61)
    for s in c["prog"]:
        o = s["op"]
        if o == "light":
            a = ""
            if s["k"] in ("omni", "spot"): a += ' "col" %s' % v3(s["c"])
            else: a += ' "lightcolor" %s "intensity" [1]' % v3(s["c"])
            if s["k"] != "amb" and not (s["deff"] and rnd.random() < .7): a += ' "from" %s' % v3(s["from"])
            if s["k"] in ("dist", "dist2", "spot"): a += ' "to" %s' % v3(s["to"])
            if s["k"] == "spot": a += ' "angle" [%.9g]' % math.acos(0.61)
            if s["k"] in ("omni", "spot"):
                if s["cat"]: a += ' "__category" ["%s"]' % s["cat"]
                a += ' "utag" [%d]' % s["tag"]
                if s["nd"]: a += ' "__nondiffuse" [1]'
                if s["ns"]: a += ' "__nonspecular" [1]'
            t += '%s "%s" %s%s\n' % ("AreaLightSource" if s["area"] else "LightSource", SH[s["k"]], s["h"] if s["h"].isdigit() else '"%s"' % s["h"], a)
        elif o == "illuminate": t += 'Illuminate %s %d\n' % (s["h"] if s["h"].isdigit() else '"%s"' % s["h"], s["v"])
        elif o == "t": t += "Translate %d %d %d\n" % tuple(s["v"])
        elif o == "rx": t += "Rotate 90 1 0 0\n"
        elif o == "rz": t += "Rotate 90 0 0 1\n"
        elif o == "patch":
            x = (LX + 1) * s["k"]
            ps = [(x, 0, Z0), (x + LX + 1, 0, Z0), (x, LY + 1, Z0), (x + LX + 1, LY + 1, Z0)]
            t += 'Patch "bilinear" "P" [%s]\n' % " ".join("%g" % q for p in ps for q in inv(s["m"], p))
        elif o == "worldend": t += "".join({"attribute": "AttributeEnd", "transform": "TransformEnd"}[q] + "\n" for q in s["open"]) + "WorldEnd\n"
        else: t += {"framebegin": "FrameBegin 1", "frameend": "FrameEnd", "worldbegin": "WorldBegin", "attributebegin": "AttributeBegin", "attributeend": "AttributeEnd", "transformbegin": "TransformBegin", "transformend": "TransformEnd"}[o] + "\n"
    return t

def tokens(cat): return cat.split(",") if cat else []
def expect(ls, P, lq):
    """what the surface computes from the lights' contributions at a point"""
    z = [0.0] * 3
    edge = False; amb, s, sl, cone, ina, nota, dif, spec, dim, slq, atq, ph = (list(z) for _ in range(12)); n = ut = vt = cnt = 0
    unit = lambda v: [x / math.sqrt(sum(y * y for y in v)) for x in v]
    def add(a, b, k=1): 
        for i in range(3): a[i] += k * b[i]
    for l in ls:
        c = [x / l["den"] for x in l["c"]]
        if l["amb"]: add(amb, c); continue
        cnt += 1; ut += l["tag"]; vt += l["tag"] + P[0] if l["tag"] else 0
        if c[0] <= 1.7: add(dim, c)
        if any(c): add(s, c); n += 1; add(sl, l["L"])
        if l["cone"]: add(cone, c)
        if not l["hascat"] or "a" in tokens(l["cat"]): add(ina, c)
        if not l["hascat"] or "a" not in tokens(l["cat"]): add(nota, c)
        L = unit(l["L"])
        if L[2] == 0 and not l["ns"]: edge = True      # exactly on the edge of the hemisphere of specular()
        if L[2] < 0:
            add(ph, c, -L[2])
            if not l["nd"]: add(dif, c, -L[2])
            if not l["ns"]: H = unit([L[0], L[1], L[2] - 1]); add(spec, c, max(0, -H[2]) ** 1.0)
    for l in lq or []:
        if not l["amb"] and any(l["c"]): add(slq, l["L"]); add(atq, [x / l["den"] for x in l["c"]])
    par = P[0] % 2 == 0
    return [amb, s, [n, 0, 0], sl, cone, ina, nota, dif, None if edge else spec, [min(2, cnt), min(3, cnt), 0], dim, [a + sum(k) for a, k in zip(dif, zip(*[[x / l["den"] for x in l["c"]] for l in ls if not l["amb"]] or [z]))] if par else z,
            slq if lq is not None else None, atq if lq is not None else None, dif, [ut, vt, 0], ph]
NAMES = ["ambient()", "the sum of Cl", "the number of lights", "the sum of L", "the sum of Cl within a cone", "the sum of Cl of category a", "the sum of Cl of category -a", "diffuse()", "specular()", "the number of lights met by a loop left with break", "the sum of Cl of a loop with continue", "the light at every other point", "the sum of L at another point", "the sum of Cl at another point",
         "diffuse() after light at another point", "the sum of light parameters", "phong()"]
def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    for w, pic in enumerate(c["pics"]):
        try: px = [o.images["d%d.cap" % a][w].pixels() for a in range(len(AOVS))]
        except (ValueError, IndexError) as e: return "image %d: %s" % (w, e)
        for (x, y), v in px[1].items():
            k = x // (LX + 1); at = "world %d pixel %d,%d: " % (w + 1, x, y)
            if k >= len(pic["patches"]):
                if v[2] != 0: return at + "something is visible where nothing should be"
                continue
            if v[2] == 0: return at + "the patch should be visible"
            P = [round(v[0]), round(v[1])]
            if abs(v[0] - P[0]) > 1e-3 or abs(v[1] - P[1]) > 1e-3: P = None
            p = pic["patches"][k]
            if P is None: continue
            lx = P[0] - (LX + 1) * k
            if not (0 <= lx <= LX and 0 <= P[1] <= LY): return at + "point %s" % (v,)
            ls = p["v"][P[1] * (LX + 1) + lx]; lq = p["v"][P[1] * (LX + 1) + lx + 1] if lx < LX else None
            if not all(l["sure"] for l in ls): continue
            if lq and not all(l["sure"] for l in lq): lq = None
            c.setdefault("lanes", [0])[0] += 1
            for i, e in enumerate(expect(ls, P, lq)):
                if e is None: continue
                g = px[2 + i][x, y]
                if any(not close(a, b) for a, b in zip(g, e)): return at + "point %s, lights %s: %s is %s, expected %s" % (P, p["on"], NAMES[i], g, e)
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("Lighting", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=cfg["MaxOps"] + 20, procs=8, timeout=900, constants=dict(cfg, LX=LX, LY=LY, Z0=Z0, Rand=True),
                         invariants=["OnceOn", "Known", "LatestHandle", "Rigid", "Emit"])
        ctx.model(r); cases += r.cases
    ribs = [text(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % i for i in range(len(AOVS))))):
        ctx.add("traces_validated_against_impl"); ctx.add("patches", sum(len(p["patches"]) for p in c["pics"]))
        m = compare(c, o)
        ctx.add("points", c.get("lanes", [0])[0])
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "expected": c["pics"]})
    ctx.sample({"rib": ribs[-1][:3000]})
