"""Values, expressions, arrays and functions of the shading language (spec ShaderExpr)."""
import random, os, importlib.util
from vf import build, tlc, rend, slgen

def ax(i): return ", ".join("1" if j == i else "0" for j in range(3))
class Sl:
    """renders a case as a shader; T: the type of the triples"""
    def __init__(self, c, T): self.c, self.T = c, T
    def f(self, e):
        k = e["k"]; F, V, C, M = self.f, self.v, self.col, self.m
        if k == "num": return str(e["a"])
        if k == "var": return e["v"]
        if k in ("add", "sub", "mul"): return "(%s %s %s)" % (F(e["a"]), {"add": "+", "sub": "-", "mul": "*"}[k], F(e["b"]))
        if k == "neg": return "(-%s)" % F(e["a"])
        if k == "abs": return "abs(%s)" % F(e["a"])
        if k == "sign": return "sign(2 * %s + 1)" % F(e["a"])
        if k == "half": return "floor(%s / 2)" % F(e["a"])
        if k == "ceil": return "ceil(%s / 2)" % F(e["a"])
        if k == "sq": return "floor(pow(mod(%s, 7), 2) + 0.5)" % F(e["a"])
        if k == "root": a = F(e["a"]); return "floor(length(vector(0, %s, 0)) + 0.5)" % a
        if k == "rnd": return "round(mod(%s, 7) + 0.25)" % F(e["a"])
        if k == "isq": a = F(e["a"]); return "floor(1 / inversesqrt((mod(%s, 7) + 1) * (mod(%s, 7) + 1)) + 0.5)" % (a, a)
        if k == "root2": a = F(e["a"]); return "floor(sqrt(%s * %s) + 0.5)" % (a, a)
        if k == "log2": return "floor(log(pow(2, mod(%s, 7)), 2) + 0.5)" % F(e["a"])
        if k == "lg": return "floor(log(pow(3, mod(%s, 7))) / log(3) + 0.5)" % F(e["a"])
        if k == "exp": return "floor(log(exp(mod(%s, 7))) + 0.5)" % F(e["a"])
        if k in ("sin", "cos"): return "floor(%s(mod(%s, 7) * PI / 2) + 0.5)" % (k, F(e["a"]))
        if k == "tan": return "floor(tan(atan(mod(%s, 7))) + 0.5)" % F(e["a"])
        if k == "acos": a = F(e["a"]); return "floor((acos(cos(mod(%s, 7) / 4)) + asin(sin(mod(%s, 7) / 5)) * 5 / 4) * 2 + 0.5)" % (a, a)
        if k == "deg": return "floor(degrees(mod(%s, 7) * PI / 180) + 0.5)" % F(e["a"])
        if k == "rad": return "floor(radians(mod(%s, 7) * 180) / PI + 0.5)" % F(e["a"])
        if k == "smooth": return "floor(smoothstep(0, 6, mod(%s, 7)) * 108 + 0.5)" % F(e["a"])
        if k == "atan2": return "floor(atan(clamp(%s, -1, 1), clamp(%s, -1, 1)) * 4 / PI + 0.5)" % (F(e["a"]), F(e["b"]))
        if k == "idiv": return "floor((mod(%s, 7) + 0.25) / (mod(%s, 7) + 1))" % (F(e["a"]), F(e["b"]))
        if k == "spl": return self.spl(e, F, "floor(%s + 0.5)")
        if k == "uix": return "h[mod(%s, 4)]" % F(e["a"])
        if k == "dist": v = V(e["a"]); return "floor(distance(%s, %s + %s(%s)) + 0.5)" % (v, v, self.T, ", ".join(F(e["b"]) if i == e["i"] else "0" for i in range(3)))
        if k == "ptl": return self.ptl(e)
        if k == "max3": return "max(%s, %s, %s)" % (F(e["a"]), F(e["b"]), F(e["c"]))
        if k == "mod": return "mod(%s, 7)" % F(e["a"])
        if k in ("min", "max", "step"): return "%s(%s, %s)" % (k, F(e["a"]), F(e["b"]))
        if k == "clamp": lo, hi = sorted((e["b"]["a"], e["c"]["a"])); return "clamp(%s, %d, %d)" % (F(e["a"]), lo, hi)
        if k == "mix": return "mix(%s, %s, %d)" % (F(e["a"]), F(e["b"]), e["i"])
        if k == "cond": return "((%s) ? %s : %s)" % (self.q(e["q"]), F(e["a"]), F(e["b"]))
        if k == "comp": return "%scomp(%s)" % ("xyz"[e["i"]], V(e["a"]))
        if k == "ccomp": return "comp(%s, %d)" % (C(e["a"]), e["i"])
        if k == "dot": return "(%s . %s)" % (V(e["a"]), V(e["b"]))
        if k == "idx": return "r[mod(%s, 4)]" % F(e["a"])
        if k == "mcomp": return "comp(%s, %d, %d)" % (M(e["a"]), e["i"], e["j"])
        if k == "mdet": return "determinant(%s)" % M(e["a"])
        raise KeyError(k)
    def spl(self, e, X, fmt):
        """the spline at the i-th of its inner knots"""
        b = ["", '"catmull-rom", ', '"linear", '][e["m"]]
        return fmt % ("spline(%s%s, %s)" % (b, "%d / 3" % e["i"], ", ".join(X(a) for a in e["a"])))
    def ptl(self, e):
        """distance of a point to the segment (c,0,0)..(c+3,0,0), the point lying beyond an end or beside it: on one of the axes only"""
        a, b, c = (self.f(e[x]) for x in "abc")
        return "floor(ptlined(point(%s, 0, 0), point(%s + 3, 0, 0), point(%s + %s, 0, 0)) + ptlined(point(0, 0, -1), point(0, 0, 4), point(0, %s, 2)) + 0.5)" % (c, c, c, b, a)
    def v(self, e):
        k = e["k"]; F, V, C, M = self.f, self.v, self.col, self.m
        if k == "var": return e["v"]
        if k in ("vadd", "vsub", "vcross"): return "(%s %s %s)" % (V(e["a"]), {"vadd": "+", "vsub": "-", "vcross": "^"}[k], V(e["b"]))
        if k in ("vmin", "vmax"): return "%s(%s, %s)" % (k[1:], V(e["a"]), V(e["b"]))
        if k == "vmulv": return "(%s * %s)" % (V(e["a"]), V(e["b"]))
        if k == "vclamp": return "clamp(%s, %s(%d), %s(%d))" % (V(e["a"]), self.T, e["b"], self.T, e["c"])
        if k == "vmix": return "mix(%s, %s, %d)" % (V(e["a"]), V(e["b"]), e["i"])
        if k == "refl": return "t5(reflect(%s, vector(%s)))" % (V(e["a"]), ax(e["i"]))
        if k == "ff": return "t5(faceforward(%s, vector(%s) * (2 * %s + 1), vector(%s)))" % (V(e["a"]), ax(e["i"]), F(e["b"]), ax(e["i"]))
        if k == "vnorm": return "t5(normalize(vector(%s) * (2 * %s + 1)))" % (ax(e["i"]), F(e["a"]))
        if k == "vrot": return "t5(rotate(%s, mod(%s, 7) * PI / 2, point(0, 0, 0), point(%s)))" % (V(e["a"]), F(e["b"]), ax(e["i"]))
        if k == "vneg": return "(-%s)" % V(e["a"])
        if k == "vmul2": return "((%s * 4) / 2)" % V(e["a"])
        if k == "vmulf": return "(%s * %s)" % (V(e["a"]), F(e["b"]))
        if k == "fmulv": return "(%s * %s)" % (F(e["b"]), V(e["a"]))
        if k == "vec": return "%s(%s, %s, %s)" % (self.T, F(e["a"]), F(e["b"]), F(e["c"]))
        if k == "promote": return "(%s(%s))" % (self.T, F(e["a"]))
        if k == "vcond": return "((%s) ? %s : %s)" % (self.q(e["q"]), V(e["a"]), V(e["b"]))
        if k == "xform": return "transform(%s, %s)" % (M(e["m"]), V(e["a"]))
        if k == "vxform": return "vtransform(%s, %s)" % (M(e["m"]), V(e["a"]))
        if k == "nxform": return "ntransform(matrix(1, %s, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, %s, 1, 2, 1), %s)" % (F(e["b"]), F(e["c"]), V(e["a"]))
        if k == "vofc": return "%s(%s)" % (self.T, C(e["a"]))
        raise KeyError(k)
    def col(self, e):
        k = e["k"]; F, V, C = self.f, self.v, self.col
        if k == "var": return e["v"]
        if k in ("cadd", "csub", "cmul"): return "(%s %s %s)" % (C(e["a"]), {"cadd": "+", "csub": "-", "cmul": "*"}[k], C(e["b"]))
        if k in ("cmin", "cmax"): return "%s(%s, %s)" % (k[1:], C(e["a"]), C(e["b"]))
        if k == "col": return "color(%s, %s, %s)" % (F(e["a"]), F(e["b"]), F(e["c"]))
        if k == "cprom": return "(color(%s))" % F(e["a"])
        if k == "cclamp": return "clamp(%s, color(%d), color(%d))" % (C(e["a"]), e["b"], e["c"])
        if k == "cspl": return self.spl(e, C, "c5(%s)")
        if k == "cneg": return "(-%s)" % C(e["a"])
        if k == "cmulf": return "(%s * %s)" % (C(e["a"]), F(e["b"]))
        if k == "cmix": return "mix(%s, %s, %d)" % (C(e["a"]), C(e["b"]), e["i"])
        if k == "ccond": return "((%s) ? %s : %s)" % (self.q(e["q"]), C(e["a"]), C(e["b"]))
        if k == "cofv": return "color(%s)" % V(e["a"])
        if k == "cidx": return "k[mod(%s, 4)]" % F(e["a"])
        raise KeyError(k)
    def m(self, e):
        k = e["k"]
        if k == "var": return e["v"]
        if k == "mmul": return "(%s * %s)" % (self.m(e["a"]), self.m(e["b"]))
        if k == "mcond": return "((%s) ? %s : %s)" % (self.q(e["q"]), self.m(e["a"]), self.m(e["b"]))
        if k == "mtrans": return "translate(%s, vector(%d, %s, %d))" % (self.m(e["a"]), e["v"][0], self.f(e["b"]), e["v"][2])
        if k == "mscale": return "scale(%s, point(%d, %s, %d))" % (self.m(e["a"]), e["v"][0], self.f(e["b"]), e["v"][2])
        if k == "mrot": return "m5(rotate(%s, mod(%s, 7) * PI / 2, vector(%s)))" % (self.m(e["a"]), self.f(e["b"]), ax(e["i"]))
        if k == "minv": return "(%s / matrix(1, %s, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, %s, 1, 2, 1))" % (self.m(e["a"]), self.f(e["b"]), self.f(e["c"]))
        if k == "mdiag": return "(matrix(%s))" % self.f(e["a"])
        a = e["a"]
        return "matrix(%d, %d, %d, 0, %d, %d, %d, 0, %d, %d, %d, 0, %s, 1, 2, 1)" % (tuple(a) + (self.f(e["b"]),))
    def s(self, e):
        k = e["k"]
        if k == "cat3": return 'concat(%s, %s, "%s")' % (e["a"]["v"], e["b"]["v"], e["c"]["a"])
        if k == "fmt": return 'format("%%s<%%f>", %s, mod(%s, 7) + 0)' % (e["a"]["v"], self.f(e["b"]))
        if k == "scond": return '((%s) ? %s : "%s")' % (self.q(e["q"]), e["a"]["v"], e["b"]["a"])
        return e["v"] if k == "var" else '"%s"' % e["a"] if k == "str" else 'concat(%s, "%s")' % (e["a"]["v"], e["b"]["a"])
    def q(self, q):
        k = q["k"]
        if k == "cmp": return "%s %s %s" % (self.f(q["a"]), q["o"], self.f(q["b"]))
        if k == "veq": return "%s %s %s" % (self.v(q["a"]), q["o"], self.v(q["b"]))
        if k == "match": return 'match("%s", %s) %s 1' % (q["p"], q["a"]["v"], "!=" if q["b"] else "==")
        if k == "seq": return "%s %s %s" % (self.s(q["a"]), q["o"], self.s(q["b"]))
        return "%s %s %s" % (self.q(q["a"]), {"and": "&&", "or": "||"}[k], self.q(q["b"]))
    def argb(self, t): return (self.v if self.c["funs"][t["f"] - 1]["pt"][1] == "v" else self.f)(t["w"])
    def text(self, name, lx, ly):
        T = self.T; c = self.c
        o = ["%s t7(%s p) { return %s(mod(xcomp(p), 7), mod(ycomp(p), 7), mod(zcomp(p), 7)); }\ncolor c7(color p) { return color(mod(comp(p, 0), 7), mod(comp(p, 1), 7), mod(comp(p, 2), 7)); }\n%s t5(%s p) { return %s(floor(xcomp(p) + 0.5), floor(ycomp(p) + 0.5), floor(zcomp(p) + 0.5)); }\ncolor c5(color p) { return color(floor(comp(p, 0) + 0.5), floor(comp(p, 1) + 0.5), floor(comp(p, 2) + 0.5)); }\n" % ((T, T, T) * 2)]
        o.append("float r5(varying matrix m; uniform float i, j) { return floor(comp(m, i, j) + 0.5); }\nmatrix m5(varying matrix m) { return matrix(%s); }\n" % ", ".join("r5(m, %d, %d)" % (i, j) for i in range(4) for j in range(4)))
        for n, fn in enumerate(c["funs"]):
            a = "po = mod(%s, 7);" % self.f(fn["e2"])
            if fn["q"]["k"] != "none": a = "if (%s) %s" % (self.q(fn["q"]), a)
            o.append("float fn%d(float pa; %s pb; output float po)\n{\n\tfloat t = mod(%s, 7);\n\t%s\n\treturn %s;\n}\n" % (n + 1, T if fn["pt"][1] == "v" else "float", self.f(fn["t"]), a, ("fn1(%s + 0, pb, po)" if fn["nest"] else "%s") % self.f(fn["e3"])))
        o.append("surface %s(%s)\n{\n" % (name, " ".join("output varying color %s = 0;" % a for a in AOVS)))
        o.append("\tvarying float f0 = 0, f1 = 1, f2 = 2;\n\tuniform float g0 = 3, g1 = 1;\n\tvarying %s v0 = %s(1, 0, 2), v1 = %s(0, 3, 1);\n\tvarying color c0 = color(1, 1, 0), c1 = color(2, 0, 1);\n\tvarying matrix m0 = 1;\n\tuniform string s0 = \"a\", s1 = \"\";\n\tvarying float r[4] = {1, 2, 3, 4};\n\tuniform float h[4] = {5, 0, 2, 6};\n\tvarying color k[4];\n" % (T, T, T))
        o.append("".join("\tk[%d] = color(0, %d, 1);\n" % (i, i + 1) for i in range(4)))
        o.append("\tvarying float x = floor(u * %d + 0.5), y = floor(v * %d + 0.5);\n" % (lx, ly))
        for t in c["prog"]:
            k = t["t"]; g = t["g"]
            if k == "f": a = "%s = mod(%s, 7);" % (t["v"], self.f(t["e"]))
            elif k == "v": a = "%s = t7(%s);" % (t["v"], self.v(t["e"]))
            elif k == "c": a = "%s = c7(%s);" % (t["v"], self.col(t["e"]))
            elif k == "m": a = "%s = %s;" % (t["v"], self.m(t["e"]))
            elif k == "s": a = "%s = %s;" % (t["v"], self.s(t["e"]))
            elif k == "r": a = "r[mod(%s, 4)] = mod(%s, 7);" % (self.f(t["i"]), self.f(t["e"]))
            elif k == "h": a = "h[mod(%s, 4)] = mod(%s, 7);" % (self.f(t["i"]), self.f(t["e"]))
            elif k == "k": a = "k[mod(%s, 4)] = c7(%s);" % (self.f(t["i"]), self.col(t["e"]))
            elif k == "set": a = "set%scomp(%s, mod(%s, 7));" % ("xyz"[t["i"]], t["v"], self.f(t["e"])) if t["v"][0] == "v" else "setcomp(%s, %d, mod(%s, 7));" % (t["v"], t["i"], self.f(t["e"]))
            elif k == "call": a = "%s = mod(fn%d(%s, %s, %s), 7);" % (t["v"], t["f"], self.f(t["e"]), self.argb(t), t["o"])
            elif k == "calla": a = "%s = mod(fn%d(%s, %s, r[mod(%s, 4)]), 7);" % (t["v"], t["f"], self.f(t["e"]), self.argb(t), self.f(t["i"]))
            if g["k"] != "none": a = "if (%s) { %s }" % (self.q(g), a)
            o.append("\t%s\n" % a)
        o.append("\tCi = 1; Oi = 1;\n\taovl = color(x, y, 1);\n")
        e0 = c["env"][0]
        outs = ["f0", "f1", "f2", "g0", "g1", '(s0 == "%s") ? 1 : 0' % e0["s0"], '(s1 == "%s") ? 1 : 0' % e0["s1"]] + ["%s[%d]" % (a, i) for a in "rh" for i in range(4)] + ["comp(m0, %d, %d)" % (i, j) for i in range(4) for j in range(4)]
        outs += ["0"] * (-len(outs) % 3)
        n = 0
        for i in range(0, len(outs), 3): o.append("\taov%d = color(%s);\n" % (n, ", ".join(outs[i:i+3]))); n += 1
        for w in ("v0", "v1"): o.append("\taov%d = color(xcomp(%s), ycomp(%s), zcomp(%s));\n" % (n, w, w, w)); n += 1
        for w in ("c0", "c1", "k[0]", "k[1]", "k[2]", "k[3]"): o.append("\taov%d = %s;\n" % (n, w)); n += 1
        return "".join(o) + "}\n"

NAMES = ["f0", "f1", "f2", "g0", "g1", "s0", "s1"] + ["%s[%d]" % (a, i) for a in "rh" for i in range(4)] + ["m0[%d][%d]" % (i, j) for i in range(4) for j in range(4)]
NAMES += ["-"] * (-len(NAMES) % 3) + ["%s.%d" % (w, i) for w in ("v0", "v1", "c0", "c1", "k[0]", "k[1]", "k[2]", "k[3]") for i in range(3)]
AOVS = ["aovl"] + ["aov%d" % i for i in range(len(NAMES) // 3)]
def values(e):
    o = [e["f0"], e["f1"], e["f2"], e["g0"], e["g1"], 1, 1] + e["r"] + e["h"] + [v for r in e["m0"] for v in r]
    o += [0] * (-len(o) % 3)
    for w in (e["v0"], e["v1"], e["c0"], e["c1"]): o += w
    for w in e["k"]: o += w
    return o

_s = importlib.util.spec_from_file_location("S01", os.path.join(build.VERIF, "props", "S01.py")); B = importlib.util.module_from_spec(_s); _s.loader.exec_module(B)
B.AOVS, B.VARS = AOVS, NAMES
LX, LY = 4, 3
ALL = '{"f", "v", "c", "m", "s"}'
CFG = [dict(MaxStmts=4, Deep=2, Types='{"f", "v"}'), dict(MaxStmts=6, Deep=2, Types=ALL), dict(MaxStmts=10, Deep=3, Types=ALL)]
N = [500, 700, 400]
def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("ShaderExpr", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=40, procs=8, timeout=1500, constants=dict(cfg, LX=LX, LY=LY, Rand=True),
                         invariants=["UniformIsUniform", "InRange", "Affine", "Emit"])
        ctx.model(r); cases += r.cases
    srcs = {"s%d" % i: Sl(c, rnd.choice(["vector", "point", "normal"])).text("s%d" % i, LX, LY) for i, c in enumerate(cases)}
    slx = slgen.compile_all(srcs, ctx.work)
    ribs = [B.rib(dd, sd, "s%d" % i, LX, LY, rnd) for i in range(len(cases))]
    files = [{"s%d.slx" % i: slx["s%d" % i][0]} if slx["s%d" % i][0] else {} for i in range(len(cases))]
    outs = rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % i for i in range(len(AOVS))), files=files)
    for i, (c, o) in enumerate(zip(cases, outs)):
        ctx.add("traces_validated_against_impl"); ctx.add("statements", len(c["prog"]))
        n = "s%d" % i
        m = slx[n][1] if slx[n][0] is None else B.compare(o, LX, LY, lambda x, y: values(c["env"][x + y * (LX + 1)]))
        if m and len(ctx.violations) < 40: ctx.violation(m, {"rib": ribs[i], "sl": {n + ".sl": srcs[n]}})
    ctx.sample({"sl": srcs["s%d" % (len(cases) - 1)][:3000]})
