"""The parameters of shaders (spec ShaderParams)."""
import random
from vf import build, tlc, rend
KIND = dict(fu="float", fv="float", cu="color", cv="color", pu="point", pv="point", pw="point", vu="vector", vv="vector", nu="normal", nv="normal", su="string",
            fa="float[3]", ca="color[2]", pa="point[2]", va="vector[2]", na="normal[2]", sa="string[2]")
def elem(v, k): return [v + k, 2 * v - 3 * k, 5 - v]
def value(n, v, copies=1):
    t = KIND[n].split("[")[0]; m = int(KIND[n][-2]) if "[" in KIND[n] else 1; r = []
    for _ in range(copies):
        for k in range(1, m + 1):
            e = elem(v, k); r += ['"s%d"' % e[0]] if t == "string" else [str(e[0])] if t == "float" else [str(x) for x in e]
    return "[%s]" % " ".join(r)
DECL = {n: ("varying " if n in ("fv", "cv", "pv", "vv", "nv") else "uniform ") + t for n, t in KIND.items()}
CAMS = ["", "Translate 1 2 3\n", "Translate 0 0 9\nRotate 90 0 1 0\n", "Scale 1 2 1\nTranslate 3 0 -1\n", "Rotate -90 1 0 0\nScale -1 1 1\n"]
def scene(c, dd, sd, rnd):
    out = rend.header(dd, sd); declared = set()
    for n in KIND:
        if rnd.random() < .3: out += 'Declare "%s" "%s"\n' % (n, DECL[n]); declared.add(n)
    # whatever the view, everything is shaded
    out += 'Display "out.cap" "cap" "rgba"\nFormat 8 8 1\nProjection "orthographic"\nScreenWindow -200 200 -200 200\nClipping 1 400\nPixelSamples 1 1\nTranslate 0 0 200\n%sWorldBegin\nSides 2\nOpacity [.01 .01 .01]\n' % rnd.choice(CAMS)
    def arg(n, v):
        form = rnd.choice(["inline", "full", "bare"])
        return '"%s" %s' % (n if form == "bare" and n in declared else "%s %s" % (KIND[n] if form == "inline" else DECL[n], n), value(n, v))
    for s in c["prog"]:
        op = s["op"]
        if op == "Translate": out += "Translate %d %d %d\n" % (s["x"], s["y"], s["z"])
        elif op == "Rotate":
            ax = [0, 0, 0]; t = 6 - s["a"] - s["b"]; ax[t - 1] = 1 if (s["a"] % 3) + 1 == s["b"] else -1
            out += "Rotate 90 %d %d %d\n" % tuple(ax)
        elif op == "Scale": f = [1, 1, 1]; f[s["a"] - 1] = s["f"]; out += "Scale %d %d %d\n" % tuple(f)
        elif op == "Surface":
            a = list(dict(s["args"]).items()); rnd.shuffle(a)
            out += 'Surface "%s" %s\n' % ("vparam" if s["sh"] == 1 else "vparam2", " ".join(arg(n, v) for n, v in a))
        elif op == "Prim":
            t = ""
            for n, v in dict(s["own"]).items():
                arr = "[" in KIND[n]; cls = rnd.choice(["constant", "uniform"] + (["varying", "vertex"] if n in ("fv", "cv", "pv", "vv", "nv") else []))
                t += ' "%s %s %s" %s' % (cls, KIND[n], n, value(n, v, 1 if cls in ("constant", "uniform") else 4))
            # a patch that is not edge on in any of the views
            out += 'Attribute "user" "uniform float id" [%d]\nPatch "bilinear" "P" [0 0 0 30 0 10 0 30 20 30 30 30]%s\n' % (s["n"], t)
        else: out += op + "\n"
    return out + "WorldEnd\n"

def compare(c, o):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    seen = set()
    for line in o.log.split("\n"):
        if not line.startswith("@"): continue
        a, b = line[1:].split(";", 1); n, v = b.split("=", 1); k = int(float(a)); p = c["prims"][k - 1]; want = p["see"][n]; seen.add((k, n))
        t = KIND[n].split("[")[0]
        if t == "string": ok = v.split(",") == ["s%d" % e[0] for e in want]
        else:
            got = [float(x) for x in v.split(",")]; w = [e[0] for e in want] if t == "float" else [x / (8.0 if t == "normal" else 1.0) for e in want for x in e]
            ok = len(got) == len(w) and all(abs(x - y) < 2e-3 for x, y in zip(got, w)); want = w
        if not ok: return "primitive %d sees the value %s of %s, expected %s" % (k, v, n, want)
    for k, p in enumerate(c["prims"]):
        if p["sh"] and not all((k + 1, n) in seen for n in KIND): return "primitive %d was not shaded" % (k + 1)
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    inv = ["Dual", "OwnWins", "Fallback"]
    ctx.model(tlc.run("ShaderParams", constants=dict(MaxSteps=ctx.pick(3, 4), MaxPrims=2, Values="{2}", Rand=False), invariants=inv, workers=8, timeout=900))
    r = tlc.simulate("ShaderParams", seed=ctx.seed, num=ctx.pick(700, 7000), depth=60, procs=8, timeout=900, constants=dict(MaxSteps=30, MaxPrims=8, Values="{2,3,4,5,6,7}", Rand=True), invariants=inv + ["Emit"])
    ctx.model(r); cases = [c for c in r.cases if any(p["sh"] for p in c["prims"])]
    ribs = [scene(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("primitives", len(c["prims"]))
        m = compare(c, o)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib})
    ctx.sample({"rib": ribs[-1]})
