"""Coordinate systems and orientation (spec GraphicsState)."""
import random, re
from vf import build, tlc, rend
import importlib.util, os
_s = importlib.util.spec_from_file_location("G01", os.path.join(build.VERIF, "props", "G01.py")); G = importlib.util.module_from_spec(_s); _s.loader.exec_module(G)

AOVS = ["rgb", "aovP", "aovs", "aovb", "aovw", "aovA", "aovB", "aovr", "aovn", "aovfs", "aovvA", "aovnb", "aovg"]
CFG = [dict(MaxSteps=14, MaxWorlds=1, MaxPrims=5, W=6, H=5, Spaces=True, Orients=True, Procs=False), dict(MaxSteps=30, MaxWorlds=1, MaxPrims=8, W=8, H=6, Spaces=True, Orients=True, Procs=False),
       dict(MaxSteps=40, MaxWorlds=2, MaxPrims=8, W=8, H=6, Spaces=True, Orients=True, Procs=False)]
N = [800, 900, 400]

def lin(m): return dict(m, tx=0, ty=0)
def fwd(m, x, y): return m["a"] * x + m["b"] * y + m["tx"], m["c"] * x + m["d"] * y + m["ty"]
def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    for n, pic in enumerate(c["pics"]):
        try: px = [o.images["d%d.cap" % a][n].pixels() for a in range(len(AOVS))]
        except (ValueError, IndexError) as e: return "image %d: %s" % (n, e)
        for i, k in enumerate(pic["map"]):
            x, y = i % c["w"], i // c["w"]; at = "world %d pixel %d,%d: " % (n + 1, x, y)
            v = dict(zip(AOVS, [p[x, y] for p in px])); P = v["aovP"]
            if k == 0:
                if any(abs(t) > 1e-6 for t in P): return at + "primitive %g is visible where nothing should be" % (100 - P[2])
                continue
            p = pic["prims"][k - 1]
            if P[2] == 0: return at + "primitive %d should be visible" % k
            if not G.close(P[2], 100 - k): return at + "primitive %g is visible instead of %d" % (100 - P[2], k)
            W = G.inv(pic["cam"], P[0], P[1])
            sp = [("aovw", "world", W), ("aovb", "object", G.inv(p["om"], *W)), ("aovr", "raster", (P[0], c["h"] - P[1])), ("aovn", "NDC", (P[0] / c["w"], 1 - P[1] / c["h"]))]
            if p["surf"]: sp.append(("aovs", "shader", G.inv(p["sm"], *W)))
            A, B = (pic["named"][q] for q in "AB")
            if A: sp += [("aovA", "A", G.inv(A[0], *W)), ("aovvA", "A (a vector)", G.inv(lin(A[0]), *G.inv(lin(pic["cam"]), 1, 2)))]
            if B: sp.append(("aovB", "B", G.inv(B[0], *W)))
            if A and B: sp.append(("aovfs", "A to B", G.inv(B[0], *fwd(A[0], 1, 2))))
            # normals transform by the inverse transpose of camera to object, that is by the transpose of object to camera
            M = lin(G_mul(pic["cam"], p["om"]))
            sp.append(("aovnb", "object (a normal)", (M["a"] * 1 + M["c"] * 2, M["b"] * 1 + M["d"] * 2)))
            for ao, nm, e in sp:
                if any(not G.close(g, w, 3e-3) for g, w in zip(v[ao][:2], e)): return at + "%s: point %s is %s in %s space, expected %s" % (ao, P[:2], v[ao][:2], nm, e)
            if not G.close(v["aovg"][2], -1 if p["front"] else 1): return at + "the normal is %s, the surface shows its %s" % (v["aovg"], "front" if p["front"] else "back")
    return None
def G_mul(m, n):
    return dict(a=m["a"]*n["a"]+m["b"]*n["c"], b=m["a"]*n["b"]+m["b"]*n["d"], c=m["c"]*n["a"]+m["d"]*n["c"], d=m["c"]*n["b"]+m["d"]*n["d"], tx=0, ty=0)

def text(c, dd, sd, rnd):
    t = G.text(c, dd, sd, rnd)
    t = re.sub(r'(\+?)d\d+\.cap" "cap" "\w+"\n', lambda m: m.group(0), t)
    a = t.index('Declare "aovo"'); b = t.index("Format")
    t = t[:a] + "".join('Declare "%s" "varying color"\n' % q for q in AOVS[1:]) + t[b:]
    a = t.index("Display \"d0"); b = t.index('Surface "vstate"')
    t = t[:a] + "".join('Display "%sd%d.cap" "cap" "%s"\n' % ("+" if i else "", i, q) for i, q in enumerate(AOVS)) + t[b:]
    return re.sub(r'Surface "vstate2?"', 'Surface "vspace"', t)

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("GraphicsState", seed=ctx.seed * 10 + k + 5, num=ctx.pick(n, n * 10), depth=cfg["MaxSteps"] + 20, procs=8, timeout=900, constants=dict(cfg, Rand=True),
                         invariants=["Balanced", "StackDepth", "PrimsInPicture", "Emit"])
        ctx.model(r); cases += r.cases
    ribs = [text(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % i for i in range(len(AOVS))))):
        ctx.add("traces_validated_against_impl"); ctx.add("primitives", sum(len(p["prims"]) for p in c["pics"]))
        m = compare(c, o)
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": rib, "expected": c["pics"]})
    ctx.sample({"rib": ribs[-1][:3000]})
