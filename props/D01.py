"""What each display is sent (specs DisplayDelivery, DisplayProtocol, DisplayTrace)."""
import json, random
from vf import build, tlc, rend, geom

QN = {"rgba": "rgba", "z": "z"}
EXTRA = ["", ' "string vstr" ["hello world"]', ' "int[2] vint" [3 -7] "float vflt" [0.25]', ' "color vcol" [.1 .2 .3] "string vlast" ["end"]']
EXPECT = [{}, {"vstr": ["hello world"]}, {"vint": [3, -7], "vflt": [0.25]}, {"vlast": ["end"]}]
INF = 10 ** 9

def world(k, w, h):
    out = ["WorldBegin\nSurface \"vaov\"\nShadingInterpolation \"constant\"\n"]
    for y in range(h):
        for x in range(w):
            if (x + 2 * y + k) % 7 == 0: continue
            c = [((3 * x + 5 * y + 7 * ch + 4 * k) % 9 - 2) / 4.0 for ch in range(3)]
            out.append("Color [%g %g %g]\n" % tuple(c) + geom.rect("poly", x, h - 1 - y, x + 1, h - y, 1 + (x + 2 * y) % 5))
    return "".join(out) + "WorldEnd\n"

def text(prog, dd, sd):
    o = [rend.header(dd, sd, 'Option "limits" "integer[2] bucketsize" [16 16]\n'),
         'Declare "aovf" "varying float"\nDeclare "aovc" "varying color"\nDeclare "Oi" "varying color"\nDeclare "Ci" "varying color"\n'
         'Projection "orthographic"\nPixelSamples 1 1\nPixelFilter "box" 1 1\nHider "hidden" "int jitter" [0] "string depthfilter" ["min"]\nClipping .5 100\n'
         'Quantize "rgba" 0 0 0 0\nQuantize "z" 0 0 0 0\nFormat 4 3 1\nScreenWindow 0 4 0 3\n']
    for s in prog:
        op = s["op"]
        if op == "Format": o.append("Format %d %d 1\nScreenWindow 0 %d 0 %d\n" % (s["w"], s["h"], s["w"], s["h"]))
        elif op == "Crop": o.append("CropWindow %g %g %g %g\n" % tuple(v / 16.0 for v in s["c"]))
        elif op == "Quant":
            z, one, mi, ma, di = s["q"]
            o.append('Quantize "%s" %d %d %d %g\n' % (s["what"], one, mi, ma, di / 4.0))
        elif op == "Buckets": o.append('Option "limits" "integer[2] bucketsize" [%d %d]\n' % tuple(s["b"]))
        elif op == "FrameBegin": o.append("FrameBegin %d\n" % s["n"])
        elif op == "FrameEnd": o.append("FrameEnd\n")
        elif op == "World": o.append(world(s["k"], s["w"], s["h"]))
        elif op == "Display":
            d = s["d"]
            p = ""
            if d["scan"]: p += ' "int capscanline" [1]'
            if d["rev"]: p += ' "int capreverse" [1]'
            if d["ty"]: p += ' "int captype" [%d]' % d["ty"]
            if d["pq"]: p += ' "float[4] quantize" [%d %d %d %d] "float dither" [%g]' % (tuple(d["pq"][0][:4]) + (d["pq"][0][4] / 4.0,))
            o.append('Display "%s%s.cap" "%s" "%s"%s%s\n' % ("+" if s["plus"] else "", d["name"], "nosuchdriver" if d["bad"] else "cap", d["mode"], p, EXTRA[d["extra"]]))
    return "".join(o)

def compare(c, o, traces):
    if o.rc != 0: return "the renderer ended with status %d: %s" % (o.rc, o.log[-300:])
    used = {n: 0 for n in o.images}
    for e in c["out"]:
        fn = e["name"] + ".cap"; k = used[fn]; used[fn] += 1
        if k >= len(o.images[fn]): return "display %s was opened %d times only" % (fn, k)
        im = o.images[fn][k]
        who = "image %d of %s: " % (k, fn)
        if (im.w, im.h) != (e["w"], e["h"]): return who + "opened as %dx%d, the crop window is %dx%d" % (im.w, im.h, e["w"], e["h"])
        if sorted(n for n, _ in im.asked) != sorted(e["asked"]): return who + "channels %s, expected %s" % (im.asked, e["asked"])
        if any(t != e["atype"] for _, t in im.asked): return who + "channel types %s, expected %d" % (im.asked, e["atype"])
        for name, want in [("origin", [e["ox"], e["oy"]]), ("OriginalSize", [e["fw"], e["fh"]])] + list(EXPECT[e["extra"]].items()):
            if im.params.get(name) != want: return who + "parameter %s is %s, expected %s" % (name, im.params.get(name), want)
        for x in EXPECT:
            for n in x:
                if n in im.params and n not in EXPECT[e["extra"]]: return who + "unexpected parameter %s" % n
        traces.append({"x0": e["ox"], "x1": e["ox"] + e["w"], "y0": e["oy"], "y1": e["oy"] + e["h"], "scan": e["scan"],
                       "ev": [{"k": "O", "r": [0, 0, 0, 0]}] + [{"k": "D", "r": list(d[:4])} for d in im.data] + [{"k": "C", "r": [0, 0, 0, 0]}] * im.closed})
        try: px = im.pixels()
        except Exception as x: return who + str(x)
        names = [n for n, _ in im.fmt]
        for i, p in enumerate(e["pix"]):
            xy = (e["ox"] + i % e["w"], e["oy"] + i // e["w"])
            if xy not in px: return who + "pixel %d,%d was not delivered" % xy
            got = dict(zip(names, px[xy]))
            for nm, (lo, hi) in zip(e["fmt"], p):
                g = got[nm]
                if e["quant"]: ok = lo <= g <= hi or (abs(lo) > 8000 and lo - 1 <= g <= hi + 1)
                elif lo == INF: ok = g > 1e30
                else: ok = abs(g - lo / 4.0) <= 2e-6
                if not ok: return who + "pixel %d,%d channel %s is %.7g, expected %s" % (xy + (nm, g, (lo, hi) if e["quant"] else lo / 4.0))
        if len(px) != len(e["pix"]): return who + "%d pixels delivered, the crop window has %d" % (len(px), len(e["pix"]))
    for fn, k in used.items():
        if len(o.images[fn]) != k: return "display %s was opened %d times, expected %d" % (fn, len(o.images[fn]), k)
    return None

def run(ctx):
    exe, dd, sd = build.renderer()
    ctx.level = "model_checking"
    ctx.model(tlc.run("DisplayProtocol", constants=dict(MaxX=3, MaxY=3 if ctx.thorough else 2), invariants=["DoneComplete", "Inside", "ScanRows"],
                      properties=["Finishes"], specification="PSpec", workers=8, timeout=600))
    cases = []
    for k, (st, wo, res, n) in enumerate([(5, 1, 4, 800), (9, 2, 5, 1200), (14, 3, 7, 1000), (10, 2, 12, 300)]):
        r = tlc.simulate("DisplayDelivery", seed=ctx.seed * 10 + k, num=ctx.pick(n, n * 8), depth=st + 4, procs=8, timeout=900,
                         constants=dict(MaxSteps=st, MaxWorlds=wo, MaxRes=res), invariants=["SessionsOK", "FramesOK", "Emit"])
        ctx.model(r); cases += r.cases
    ribs = [text(c["prog"], dd, sd) for c in cases]
    traces, tcase = [], []
    for i, o in enumerate(rend.render(exe, ribs, ctx.work, caps=tuple("d%d.cap" % k for k in range(6)))):
        ctx.add("traces_validated_against_impl")
        m = compare(cases[i], o, traces)
        tcase += [i] * (len(traces) - len(tcase))
        if m and len(ctx.violations) < 5: ctx.violation(m, {"rib": ribs[i], "expected": cases[i]["out"]})
    seen = {}                       # distinct call traces
    for t, i in zip(traces, tcase): seen.setdefault(json.dumps(t), i)
    keys = list(seen)
    for a in range(0, len(keys), 2000):
        part = keys[a:a + 2000]
        r = tlc.run("DisplayTrace", constants=dict(MaxX=0, MaxY=0), extra_files={"traces.json": "[" + ",\n".join(part) + "]"}, invariants=["Accepted"], workers=8, timeout=600)
        ctx.model(r)
        ok = {c["ok"] for c in r.cases}
        for j in range(len(part)):
            if j + 1 not in ok and len(ctx.violations) < 5:
                ctx.violation("the calls made to a display do not follow the protocol: " + part[j][:600], {"rib": ribs[seen[part[j]]], "calls": json.loads(part[j])})
    ctx.add("sessions", len(traces)); ctx.add("distinct_call_traces", len(keys))
    ctx.sample({"rib": ribs[-1][:2000]})
