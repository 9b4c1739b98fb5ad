"""Primitives: shaded on the surface they denote, with the values their variables have there (spec Primitives)."""
import math, random
from vf import build, tlc, rend
KINDS = ["bilinear", "bicubic", "meshl", "meshc", "nupatch", "sphere", "cylinder", "cone", "disk", "torus", "paraboloid", "hyperboloid", "curvesl", "curvesc", "points", "polygon", "gpolygon", "ppolys", "pgpolys"]
TYPES = {"f1": "float", "f2": "float", "aa": "float[2]", "kk": "color", "Cs": "color", "st": "float[2]", "s": "float", "t": "float", "pp": "point"}
BASIS = {"hermite": "[2 1 -2 1 -3 -2 3 -1 0 1 0 0 1 0 0 0]", "bezier": "[-1 3 -3 1 3 -6 3 0 -3 3 0 0 1 0 0 0]"}

def q(x): return x[0] / x[1]
def nums(v): return "[" + " ".join("%g" % x for x in v) + "]"
def place(P):
    """the Cartesian point of a profile point turned by an angle"""
    t = P[0]
    if t == "xyz":
        p = [q(P[1]), q(P[2]), q(P[3])]
        if len(P) == 4: return p
        a = q(P[4])
    elif t == "sq": p = [math.sqrt(q(P[1])), 0, q(P[2])]; a = q(P[3])
    else: f = math.radians(q(P[3])); p = [q(P[1]) + q(P[2]) * math.cos(f), 0, q(P[2]) * math.sin(f)]; a = q(P[4])
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return [p[0] * c - p[1] * s, p[0] * s + p[1] * c, p[2]]
def params(p, rnd):
    o = ""
    for v in p["vars"]:
        n = v["name"]
        if n in ("st", "s", "t") and v["c"] == "varying": decl = n
        elif n == "Cs" and v["c"] == "varying": decl = n
        else: decl = "%s %s %s" % (v["c"], TYPES[n], n)
        o += ' "%s" %s' % (decl, nums(v["val"]))
    return o
# frames in which polygons are given: (the map from the frame of the model, its inverse)
FRAMES = [([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), ([[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]),
          ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]), ([[1, 0, 1], [1, 0, -1], [0, 1, 0]], [[.5, .5, 0], [0, 0, 1], [.5, -.5, 0]])]
def apply(M, v): return [sum(a * b for a, b in zip(r, v)) for r in M]
def request(p, rnd):
    k, pl = p["k"], params(p, rnd)
    if k == "bilinear": return 'Patch "bilinear" "P" %s%s' % (nums(p["P"]), pl)
    if k == "bicubic": return 'Patch "bicubic" "P" %s%s' % (nums(p["P"]), pl)
    if k in ("meshl", "meshc"):
        w = lambda d: '"periodic"' if d["per"] else '"nonperiodic"'
        return 'PatchMesh "%s" %d %s %d %s "P" %s%s' % ("bilinear" if k == "meshl" else "bicubic", p["sh"]["du"]["n"], w(p["sh"]["du"]), p["sh"]["dv"]["n"], w(p["sh"]["dv"]), nums(p["P"]), pl)
    if k == "nupatch":
        d = lambda n: "%d %d %s %d %d" % (n["n"], n["o"], nums(n["kn"]), n["kn"][n["o"] - 1], n["kn"][n["n"]])
        return 'NuPatch %s %s "%s" %s%s' % (d(p["sh"]["nu"]), d(p["sh"]["nv"]), "Pw" if p["rat"] else "P", nums(p["P"]), pl)
    if k in ("curves", "points"):
        w = p["width"]
        pl += {"": "", "width": ' "%s" %s' % ("width", nums(w["val"])), "constantwidth": ' "constantwidth" [%d]' % w["val"][0]}[w["name"]]
        if k == "points": return 'Points "P" %s%s' % (nums(p["P"]), pl)
        sh = p["sh"]
        return 'Curves "%s" [%s] "%s" "P" %s%s' % ("cubic" if sh["cub"] else "linear", " ".join(str(d["n"]) for d in sh["d"]), "periodic" if sh["per"] else "nonperiodic", nums(p["P"]), pl)
    if "faces" in p:
        P = ' "P" ' + nums([x for a, b in p["verts"] for x in apply(p["frame"][0], (a, b, p["z"][0] * a + p["z"][1] * b + p["z"][2]))])
        ix = p["index"]
        if k == "polygon": return "Polygon" + P + pl
        if k == "gpolygon": return "GeneralPolygon " + nums([len(l) for l in ix[0]]) + P + pl
        if k == "ppolys": return "PointsPolygons " + nums([len(f[0]) for f in ix]) + nums([i for f in ix for i in f[0]]) + P + pl
        return "PointsGeneralPolygons " + nums([len(f) for f in ix]) + nums([len(l) for f in ix for l in f]) + nums([i for f in ix for l in f for i in l]) + P + pl
    return "%s %s %g%s" % (k.capitalize(), " ".join("%g" % (x / 2.0) for x in p["args"]), p["sweep"], pl)
def basis(b, rnd): return BASIS[b["b"]] if b["b"] in BASIS and rnd.random() < .3 else '"%s"' % b["b"]
def text(c, dd, sd, rnd):
    body = ""
    for n, p in enumerate(c["prims"]):
        b = p["basis"]
        body += 'AttributeBegin\nSurface "vprim" "uniform float id" [%d]\n' % (n + 1)
        body += "Basis %s %d %s %d\nTextureCoordinates %s\n" % (basis(b[0], rnd), b[0]["st"], basis(b[1], rnd), b[1]["st"], nums(p["tex"]))
        if "faces" in p:
            p["frame"] = rnd.choice(FRAMES); I = p["frame"][1]
            body += rnd.choice(["", "Scale 1 -1 1\n", "Scale -1 1 1\n"]) + "ConcatTransform " + nums([I[j][i] if i < 3 and j < 3 else 1.0 * (i == j) for i in range(4) for j in range(4)]) + "\n"
        elif p["k"] == "curves": body += rnd.choice(["", "Scale 1 -1 1\n", "Rotate 90 0 0 1\n", "Scale .5 .5 .5\n"])
        else: body += rnd.choice(["", "", "Rotate 90 0 0 1\n", "Rotate 90 1 0 0\nRotate 30 0 0 1\n", "Scale 1 -1 1\n", "Scale .5 1 2\n", "Rotate 40 1 1 0\n"])
        c["flip"] = ["Scale -1" in body, "Scale 1 -1" in body]
        ori = rnd.choice(["", 'Orientation "inside"\n', "ReverseOrientation\n"]); p["outside"] = ori == ""
        body += ori
        r = request(p, rnd) + "\n"
        body += ("ObjectBegin %d\n%sObjectEnd\nObjectInstance %d\n" % (n + 1, r, n + 1) if rnd.random() < .1 else r) + "AttributeEnd\n"
    opts = 'Option "limits" "integer[2] bucketsize" [%d %d] "integer gridsize" [%d]\n' % (*rnd.choice([(16, 16), (64, 64), (9, 20)]), rnd.choice([256, 256, 64]))
    return (rend.header(dd, sd) + opts + 'Display "out.cap" "cap" "rgba"\nFormat 80 80 1\nProjection "orthographic"\nScreenWindow -%d %d -%d %d\nPixelFilter "box" 1 1\nPixelSamples 1 1\n'
            'Hider "hidden" "int jitter" [0]\nClipping 0.5 1000\nTranslate 0 0 100\nWorldBegin\nShadingRate %g\nAttribute "dice" "integer binary" [1]\nSides 2\nOpacity [.5 .5 .5]\nColor [.25 .5 .75]\n%sWorldEnd\n' % ((40 if "faces" in c["prims"][0] else 60,) * 4 + (rnd.choice([.5, .7, 1.2] if "faces" in c["prims"][0] else [.04, .06, .1]), body)))

def rows(log):
    r = {}
    for l in log.split("\n"):
        if l.startswith("@"):
            t = [[float(x) for x in f.split(",")] for f in l[1:].split(";")]
            r.setdefault(int(t[0][0]), []).append(t[1:])
    return r
COL = {"f1": [5], "f2": [6], "aa": [7, 8], "kk": [9], "Cs": [10], "pp": [11]}
def near(a, b): return all(abs(x - y) <= 2e-3 + 2e-4 * abs(y) for x, y in zip(a, b))
def expected(p):
    """{(u, v): [(P, st, {name: value})]} in units of 1/1000 of u and v"""
    d = {}
    for x in p["pts"]:
        vals = {v["name"]: [q(z) for z in e] for v, e in zip(p["vars"], x["vals"])}
        for n in ("f1", "f2", "aa", "kk", "pp"): vals.setdefault(n, {"aa": [-7, -7], "kk": [-7] * 3, "pp": None}.get(n, [-7]))
        vals.setdefault("Cs", [.25, .5, .75])
        d.setdefault((round(q(x["u"]) * 1000), round(q(x["v"]) * 1000)), []).append((place(x["P"]), [q(x["st"][0]), q(x["st"][1])], vals))
    return d
def get(row, n): return [y for i in COL[n] for y in row[i]]
def differ(row, e):
    P, st, vals = e
    if not near(row[0], P): return "P is %s, expected %s" % (row[0], ["%.5g" % z for z in P])
    if not near(row[3] + row[4], st): return "s, t is %s, expected %s" % (row[3] + row[4], st)
    for n, v in vals.items():
        if n not in COL: continue
        if v is not None and not near(get(row, n), v): return "%s is %s, expected %s" % (n, get(row, n), v)
    return None
def values(p, x, conv):
    vals = {v["name"]: [conv(z) for z in e] for v, e in zip(p["vars"], x)}
    for n in ("f1", "f2", "aa", "kk", "pp"): vals.setdefault(n, {"aa": [-7, -7], "kk": [-7] * 3, "pp": None}.get(n, [-7]))
    vals.setdefault("Cs", [.25, .5, .75])
    return vals
def mid(a, b): return [(x + y) / 2 for x, y in zip(a, b)]
def curves(p, rows, ctx):
    """the two edges of a ribbon have the curve in the middle"""
    at = {}
    for r in rows:
        if round(r[1][0] * 1000) in (0, 1000): at.setdefault((round(r[1][0]), round(r[2][0] * 1000)), []).append(r)
    used, keys = set(), set()
    for c in p["pts"]:
        for x in c:
            kv = round(q(x["v"]) * 1000); C = [q(z) for z in x["P"]]; w = q(x["w"])
            vals = values(p, x["vals"], q)
            keys.add(kv)
            ok = {}
            for u in (0, 1):
                st = [q(z) if q(z) != -1000 else d for z, d in zip(x["st"], (u, q(x["v"])))]
                ok[u] = [r for r in at.get((u, kv), []) if not differ(r, (r[0], st, vals))]
            found = [(a, b) for a in ok[0] for b in ok[1] if near(mid(a[0], b[0]), C) and (not x["end"] or abs(math.dist(a[0], b[0]) - w) < 3e-3 * (1 + w))]
            if not found and not x["end"] and not (at.get((0, kv)) and at.get((1, kv))): continue
            if not found and x["end"] is False and len(p["pts"]) > 1: continue
            if not found:
                m = [differ(r, (r[0], [q(z) if q(z) != -1000 else d for z, d in zip(x["st"], (0, q(x["v"])))], vals)) for r in at.get((0, kv), [])]
                return "no two points at v = %g with %s have %s in their middle (width %g); %s" % (q(x["v"]), vals, C, w, [(a[0], b[0]) for a in ok[0][:3] for b in ok[1][:3]] or m[:2])
            ctx.add("points", 2)
            for a, b in found: used.add(id(a)); used.add(id(b))
    for (u, kv), rs in at.items() if len({len(c) for c in p["pts"]}) == 1 else []:
        if kv in keys:
            for r in rs:
                if id(r) not in used: return "a point of no curve at u, v = %d, %g: %s" % (u, kv / 1000.0, r)
    return None
def points(p, rows, ctx):
    es = [([float(z) for z in x["P"]], values(p, x["vals"], float)) for x in p["pts"]]
    for r in rows:
        if not any(near(r[0], P) and not differ(r, (P, r[3] + r[4], v)) for P, v in es): return "a point is shaded which is none of the primitive: %s" % (r,)
    for P, v in es:
        if not any(near(r[0], P) and not differ(r, (P, r[3] + r[4], v)) for r in rows): return "the point %s with %s is not shaded; near it: %s" % (P, v, [r for r in rows if near(r[0], P)][:1])
        ctx.add("points")
    return None
def inside(f, x, y):
    """whether x, y is in a face with holes; None near its edges"""
    n = 0
    for l in f:
        for i, (ax, ay) in enumerate(l):
            bx, by = l[(i + 1) % len(l)]
            t = max(0, min(1, ((x - ax) * (bx - ax) + (y - ay) * (by - ay)) / float((bx - ax) ** 2 + (by - ay) ** 2 or 1)))
            if math.hypot(ax + t * (bx - ax) - x, ay + t * (by - ay) - y) < .05: return None
            if (ay > y) != (by > y) and x < ax + (y - ay) * (bx - ax) / float(by - ay): n += 1
    return n % 2 == 1
def newell(p, l):
    P = [apply(p["frame"][0], (a, b, p["z"][0] * a + p["z"][1] * b + p["z"][2])) for a, b in l]; n = [0, 0, 0]
    for a, b in zip(P, P[1:] + P[:1]): n = [n[0] + a[1] * b[2] - a[2] * b[1], n[1] + a[2] * b[0] - a[0] * b[2], n[2] + a[0] * b[1] - a[1] * b[0]]
    return n
def polygons(p, rows, ctx, o, flip):
    nf = len(p["faces"])
    up = [newell(p, f[0]) for f in p["faces"]]; seen = set(); some = set()   # a face may be diced beyond its edges (and the rest dropped), so a point in a face need not be of it
    for r in rows:
        x, y, z = apply(p["frame"][1], r[0]); fs = []
        if abs(p["z"][0] * x + p["z"][1] * y + p["z"][2] - z) > 2e-3 * (1 + abs(x) + abs(y)): return "a point outside the plane: %s" % (r[0],)
        for f in range(nf):
            vals = {v["name"]: [a * x + b * y + c for a, b, c in v["coef"][f]] for v in p["vars"]}
            st = vals.get("st") or [vals.get("s", r[0][:1])[0], vals.get("t", r[0][1:2])[0]]
            for n in ("f1", "f2", "aa", "kk", "pp"): vals.setdefault(n, {"aa": [-7, -7], "kk": [-7] * 3, "pp": None}.get(n, [-7]))
            vals.setdefault("Cs", [.25, .5, .75])
            m = differ(r, (r[0], st, vals)); fs.append(m)
            if not m: break
        else: return "at %s: %s" % (r[0], " / ".join(fs))
        ctx.add("points")
        out = [(sum(a * b for a, b in zip(r[-1], n)) > 0) == p["outside"] for n in up]
        if len(set(out)) == 1 and not out[0]: return "at %s the normal %s is on the wrong side" % (r[0], r[-1])
        ctx.add("normals", len(set(out)) == 1)
        if len(set(out)) > 1: seen |= {f for f in range(nf) if out[f] and inside(p["faces"][f], x, y)}; some |= {f for f in range(nf) if inside(p["faces"][f], x, y)}
    if some - seen: return "face %d has its normal on the wrong side everywhere" % min(some - seen)
    at = [apply(p["frame"][1], r[0]) for r in rows]
    for a, b in p["verts"]:
        if not any(abs(x[0] - a) + abs(x[1] - b) < 5e-3 for x in at): return "no point is shaded at the vertex %d, %d (%d points)" % (a, b, len(rows))
    im = o.images["out.cap"]
    if not im: return "no image"
    px = im[0].pixels(); H = len(p["cover"]) // 2
    # samples exactly on a line between two vertices are left out: they may be on an edge of the pieces into which a polygon is cut
    lines = [(a, b) for i, a in enumerate(p["verts"]) for b in p["verts"][:i]]
    on = lambda x, y: any((b[0] - a[0]) * (2 * y + 1 - 2 * a[1]) == (b[1] - a[1]) * (2 * x + 1 - 2 * a[0]) for a, b in lines)
    for (X, Y), v in px.items():
        x, y = X - 40, 39 - Y       # the pixel covers x..x+1, y..y+1
        if flip[0]: x = -1 - x
        if flip[1]: y = -1 - y
        e = p["cover"][y + H][x + H] if -H <= x < H and -H <= y < H else 0
        if e < 2 and (v[3] > 0) != (e == 1) and not on(x, y): return "the pixel of x, y = %g, %g is %scovered" % (x + .5, y + .5, "not " if e else "")
        if e < 2: ctx.add("pixels")
    return None
def compare(c, o, ctx):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    R = rows(o.log)
    for n, p in enumerate(c["prims"]):
        rs = R.get(n + 1, [])
        for r in rs:
            if any(y != y for x in r[:5] for y in x): return "primitive %d (%s): a point is shaded with u, v, s, t or P not a number: %s" % (n + 1, p["k"], r[:5])
        m = curves(p, rs, ctx) if p["k"] == "curves" else points(p, rs, ctx) if p["k"] == "points" else polygons(p, rs, ctx, o, c["flip"]) if "faces" in p else surface(p, rs, ctx)
        if m: return "primitive %d (%s): %s" % (n + 1, p["k"], m)
    return None
def surface(p, rs, ctx):
    e = expected(p); at = {}; exact = {(round(q(x["u"]) * 1000), round(q(x["v"]) * 1000)): (q(x["u"]), q(x["v"])) for x in p["pts"]}
    for r in rs:
        key = (round(r[1][0] * 1000), round(r[2][0] * 1000))
        if key in e and abs(r[1][0] - exact[key][0]) + abs(r[2][0] - exact[key][1]) < 2e-5: at.setdefault(key, []).append(r)
    corners = {(round(q(x["u"]) * 1000), round(q(x["v"]) * 1000)) for x in p["pts"] if x["corner"]}
    for k, es in e.items():
        if k not in at and k not in corners: continue
        if k not in at: return "no point is shaded at u, v = %g, %g (%d points in all)" % (k[0] / 1000.0, k[1] / 1000.0, len(rs))
        ctx.add("points", len(at[k]))
        for r in at[k]:
            ms = [differ(r, x) for x in es]
            if None not in ms: return "at u, v = %g, %g: %s" % (k[0] / 1000.0, k[1] / 1000.0, ms[0])
        for x in es:
            if k in corners and all(differ(r, x) for r in at[k]): return "at u, v = %g, %g: no point has %s" % (k[0] / 1000.0, k[1] / 1000.0, x)
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (kinds, n) in enumerate([(KINDS[:4], 200), (KINDS[4:5], 100), (KINDS[5:12], 200), (KINDS[12:15], 120), (KINDS[15:], 250)]):
        r = tlc.simulate("Primitives", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 10), depth=20, procs=8, timeout=900, constants=dict(L=4, MaxPrims=1, Rand=True, Kinds="{%s}" % ", ".join('"%s"' % x for x in kinds)), invariants=["Partition", "Meet", "Emit"])
        ctx.model(r); cases += r.cases
    ribs = [text(c, dd, sd, rnd) for c in cases]
    for c, rib, o in zip(cases, ribs, rend.render(exe, ribs, ctx.work)):
        ctx.add("traces_validated_against_impl"); ctx.add("primitives", len(c["prims"]))
        m = compare(c, o, ctx)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib})
    ctx.sample({"rib": ribs[-1][:3000]})
