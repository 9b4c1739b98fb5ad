"""What the RIB writer writes, the parser reads back unchanged (spec RibCodec)."""
import gzip, importlib.util, os, random, re, struct
from vf import build, tlc, rib
sp = importlib.util.spec_from_file_location("c01", os.path.join(os.path.dirname(__file__), "C01.py"))
c01 = importlib.util.module_from_spec(sp); sp.loader.exec_module(c01)

def f32(x): return struct.unpack("f", struct.pack("f", x))[0]

def ascii_tokens(b):
    """The tokens of an ASCII RIB: ('r', name) ('s', str) ('n', text); brackets are dropped."""
    t = b.decode("latin1"); r = []; i = 0
    while i < len(t):
        c = t[i]
        if c in " \t\r\n[]": i += 1
        elif c == "#":
            while i < len(t) and t[i] not in "\r\n": i += 1
        elif c == '"':
            j = t.index('"', i + 1); r.append(("s", t[i+1:j])); i = j + 1
        else:
            m = re.compile(r'[^\s\[\]"#]+').match(t, i); w = m.group(0); i = m.end()
            r.append(("n", w) if re.match(r"[-+.0-9]", w) else ("r", w))
    return r

def text_mismatch(written, sem):
    """Checks every number of the written text against the exact value (float32)."""
    reqs = []
    for k, v in ascii_tokens(written):
        if k == "r": reqs.append([v, []])
        else: reqs[-1][1].append((k, v))
    if [r[0] for r in reqs] != [s["n"] for s in sem]: return "requests written %r" % [r[0] for r in reqs]
    for (n, toks), e in zip(reqs, sem):
        if n in ("Procedural", "Basis"): continue      # argument order or spelling differs from the call
        nums = [v for k, v in toks if k == "n"]
        want = [a for a in e["a"] if a["k"] in "fi"]
        if len(nums) != len(want): return "%s: %d numbers written, %d passed" % (n, len(nums), len(want))
        for w, a in zip(nums, want):
            if not a["x"]: continue
            v = a["v"][0] * 2.0 ** a["v"][1]
            if (a["k"] == "i" and float(w) != v) or (a["k"] == "f" and f32(float(w)) != f32(v)): return "%s: %r written as %s" % (n, v, w)
    return None

WRITES = ["reparse", "binary reparse", "gzip reparse", "binary gzip reparse", "tab reparse", "indent2 reparse", "indent0 reparse"]

def run(ctx):
    exe = build.ribtool()
    ctx.level = "model_checking"
    rnd = random.Random(ctx.seed)
    cases, meta = [], []
    for r, deep in c01.models(ctx, ctx.pick(1600, 16000)):
        ctx.model(r)
        for c in r.cases:
            raw = c01.to_bytes(c["out"])
            if deep: ws = WRITES if ctx.thorough else WRITES[:2] + [rnd.choice(WRITES[2:])]
            elif rnd.random() < ctx.pick(0.02, 0.2): ws = WRITES[:2]
            else: continue
            for w in ws: cases.append(rib.Case(raw, write=w)); meta.append((c, w))
    outs = rib.run_cases(exe, cases, ctx.work)
    for (c, w), case, o in zip(meta, cases, outs):
        ctx.add("traces_validated_against_impl")
        m = c01.mismatch(c["sem"], o)        # the calls which went into the writer
        if m: m = "input: " + m
        else:
            o.calls, first = o.calls2, o.calls
            m = c01.mismatch(c["sem"], o, approx="binary" not in w)
            if not m and "binary" in w:
                a = [x for x in first if x["n"] != "ArchiveRecord"]; b = [x for x in o.calls2 if x["n"] != "ArchiveRecord"]
                if a != b: m = "binary output differs from its input"
            if not m:
                ra = [x for x in first if x["n"] == "ArchiveRecord"]; rb = [x for x in o.calls2 if x["n"] == "ArchiveRecord"]
                if ra != rb: m = "comments not preserved: %r, %r" % (ra, rb)
            if not m and "gzip" in w and o.written[:2] != b"\x1f\x8b": m = "output is not gzipped"
            if not m and "binary" not in w:
                m = text_mismatch(gzip.decompress(o.written) if "gzip" in w else o.written, c["sem"])
            if m: m = "written with '%s': %s" % (w, m)
        if m and len(ctx.violations) < 5:
            ctx.violation(m, dict(case.describe(), sem=c["sem"], hex=case.ribs[0][1].hex(), written=(o.written or b"").decode("latin1")))
    # special characters in strings
    for ch in ["\n", "\t", "\\", '"', "\x01", "\xe9", "\xff", "\r"]:
        for w in ("reparse", "binary reparse"):
            s = "a" + ch + "b"
            raw = b"Orientation \x93" + s.encode("latin1")
            case = rib.Case(raw, write=w); o = rib.run_cases(exe, [case], ctx.work)[0]
            ctx.add("traces_validated_against_impl")
            if o.crash or o.exc or o.errors or len(o.calls2) != 1 or o.calls2[0]["a"] != [s] or o.calls[0]["a"] != [s]:
                ctx.violation("string %r does not survive writing with '%s': %r %r" % (s, w, o.written, o.calls2), case.describe(),
                              key="%s %r" % ("binary" if "binary" in w else "ascii", ch))
    ctx.sample({"written": (outs[0].written or b"").decode("latin1")[:500]})
    ctx.assumptions = ["decimal text is read back to within 2e-6 relative; written text itself is exact to float32; binary is exact"]
