"""Procedurals and archives (spec GraphicsState with Procs)."""
import gzip, random
from vf import build, tlc, rend
from props import G01 as G

KINDS = ["delay", "delay", "run", "dso", "dso2", "read", "inline", "delayinline", "object"]
PROG = "while read d n; do cat $n; printf '\\377'; done\n"
def lines(c, dd, sd, rnd):
    """the model's program as text, one request or a tree of a procedural's contents at a time"""
    t = G.text(c, dd, sd, rnd).split("\n"); it = iter(t); begins = iter([s for s in c["prog"] if s["op"] == "ProcBegin"])
    def block():
        r = []
        for l in it:
            if l == "ProcBegin": m = next(begins)["m"]; r.append((m, block()))
            elif l == "ProcEnd": return r
            else: r.append(l)
        return r
    return block()

def bound(c, m, inner, world, rnd):
    """a box around what the procedural generates, in the space of its request"""
    if rnd.random() < .4: return "[-1000 1000 -1000 1000 50 150]"
    xs, ys, zs = [], [], []
    for n in inner:
        p = world["prims"][n - 1]; x, y, w, h = p["r"]; o = p["om"]
        for u, v in ((x, y), (x + w, y), (x, y + h), (x + w, y + h)):
            q = G.inv(m, o["a"] * u + o["b"] * v + o["tx"], o["c"] * u + o["d"] * v + o["ty"]); xs.append(q[0]); ys.append(q[1])
        zs.append(100 - n)
    if not xs: return rnd.choice(["[0 1 0 1 50 60]", "[-1000 1000 -1000 1000 50 150]"])
    return "[%.7g %.7g %.7g %.7g %g %g]" % (min(xs), max(xs), min(ys), max(ys), min(zs), max(zs))

def scene(c, dd, sd, rnd):
    files = {"prog.sh": PROG}; k = [0]
    prims = iter([s["n"] for s in c["prog"] if s["op"] in ("Prim", "Instance")]); world = [0]
    def emit(b, top):
        o, inner, obj = [], [], False
        for l in b:
            if isinstance(l, str):
                if l.startswith("ObjectBegin"): obj = True
                elif l == "ObjectEnd": obj = False
                elif l.startswith(("Polygon", "ObjectInstance")) and not obj: inner.append(next(prims))
                if l == "WorldEnd": world[0] += 1
                o.append(l + "\n"); continue
            m, body = l; txt, ins = emit(body, False); inner += ins; k[0] += 1; f = "f%d" % k[0]
            bd = bound(c, m, ins, c["pics"][world[0]], rnd); kind = rnd.choice(KINDS)
            if kind == "object" and not top: kind = "delay"
            if kind in ("inline", "delayinline") and "ArchiveBegin" in txt: kind = "delay"
            if kind in ("inline", "delayinline"): o.append('ArchiveBegin "%s"\n%sArchiveEnd\n' % (f, txt))
            else:
                if rnd.random() < .2: txt = "##RenderMan RIB\nversion 3.04\n" + txt
                files[f] = gzip.compress(txt.encode()) if kind in ("delay", "read", "object", "dso") and rnd.random() < .2 else txt.encode()
            if kind in ("delay", "delayinline"): o.append('Procedural "DelayedReadArchive" ["%s"] %s\n' % (f, bd))
            elif kind == "run": o.append('Procedural "RunProgram" ["sh prog.sh%s" "%s"] %s\n' % (rnd.choice(["", " x"]), f, bd))
            elif kind in ("dso", "dso2"): o.append('Procedural "DynamicLoad" ["vproc" "%s%s"] %s\n' % ("+" if kind == "dso2" else "", f, bd))
            elif kind == "object": o.append('ObjectBegin "p%s"\nProcedural "DelayedReadArchive" ["%s"] %s\nObjectEnd\n%s' % (f, f, bd, ("ObjectInstance \"p%s\"\n" % f) * rnd.choice([1, 2])))
            else: o.append('AttributeBegin\nReadArchive "%s"\nAttributeEnd\n' % f)
        return "".join(o), inner
    t, _ = emit(lines(c, dd, sd, rnd), True)
    return 'Option "searchpath" "string procedural" ["%s"]\n' % dd + t, files

CFG = [dict(MaxSteps=16, MaxWorlds=1, MaxPrims=5, W=6, H=5, Spaces=False, Orients=False, Procs=True), dict(MaxSteps=34, MaxWorlds=2, MaxPrims=8, W=8, H=6, Spaces=True, Orients=True, Procs=True),
       dict(MaxSteps=45, MaxWorlds=3, MaxPrims=8, W=8, H=6, Spaces=False, Orients=True, Procs=True)]
N = [400, 500, 400]
def run(ctx):
    exe, dd, sd = build.renderer(); build.plugin("vproc", dd)
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases = []
    for k, (cfg, n) in enumerate(zip(CFG, N)):
        r = tlc.simulate("GraphicsState", seed=ctx.seed * 10 + k + 7, num=ctx.pick(n, n * 10), depth=cfg["MaxSteps"] + 20, procs=8, timeout=900, constants=dict(cfg, Rand=True), invariants=["Balanced", "StackDepth", "PrimsInPicture", "Emit"])
        ctx.model(r); cases += [c for c in r.cases if any(s["op"] == "ProcBegin" for s in c["prog"])]
    sc = [scene(c, dd, sd, rnd) for c in cases]
    for c, (rib, files), o in zip(cases, sc, rend.render(exe, [s[0] for s in sc], ctx.work, caps=tuple("d%d.cap" % i for i in range(len(G.AOVS))), files=[s[1] for s in sc])):
        ctx.add("traces_validated_against_impl"); ctx.add("primitives", sum(len(p["prims"]) for p in c["pics"])); ctx.add("procedurals", sum(s["op"] == "ProcBegin" for s in c["prog"]))
        m = G.compare(c, o)
        if m and len(ctx.violations) < 25: ctx.violation(m, {"rib": rib, "files": {k: (b if isinstance(b, bytes) else b.encode()).hex() for k, b in files.items()}})
    ctx.sample({"rib": sc[-1][0][:3000]})
