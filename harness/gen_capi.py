"""Generates the call table of harness/capitool.cpp from the C RenderMan interface header."""
import re, sys
t = open(sys.argv[1]).read()
t = re.sub(r"/\*.*?\*/", "", t, flags=re.S); t = re.sub(r"//[^\n]*", "", t)
SKIP = {"RiDeformationV", "RiMakeBumpV", "RiBegin", "RiEnd", "RiGetContext", "RiContext", "RiArchiveRecord", "RiTransformPoints", "RiLastError", "RiErrorIgnore", "RiErrorPrint", "RiErrorAbort"}
fns = {}
for m in re.finditer(r"AQSIS_RI_SHARE\s+(Rt\w+)\s+(Ri\w+)\s*\((.*?)\)\s*;", t, flags=re.S):
    fns[m.group(2)] = (m.group(1), [" ".join(a.split()) for a in m.group(3).split(",") if a.strip()])
print("// generated")
for n, (ret, args) in sorted(fns.items()):
    if n in SKIP or n.startswith("RiProc") and n != "RiProcedural" or n.endswith("Filter") and n != "RiPixelFilter" or n.endswith("Bound") and n != "RiBound" : continue
    if args and args[-1] == "...": continue
    base = n[:-1] if n.endswith("V") and n[:-1] in fns else n
    pl = len(args) >= 3 and args[-3].replace("RtInt ", "") == "count" if base != n else False
    core = args[:-3] if pl else args
    call, code = [], []
    ok = True
    for k, a in enumerate(core):
        v = "a%d" % k
        if a == "void": continue
        ty = re.match(r"(?:const\s+)?(Rt\w+)", a).group(1); arr = "[" in a or "*" in a
        r = {("RtInt", 0): "I1", ("RtBoolean", 0): "B1", ("RtFloat", 0): "F1", ("RtToken", 0): "S1", ("RtString", 0): "S1", ("RtInt", 1): "IA", ("RtFloat", 1): "FA", ("RtToken", 1): "SA", ("RtString", 1): "SA",
             ("RtColor", 0): "FA", ("RtPoint", 0): "FA", ("RtBound", 0): "FA", ("RtFilterFunc", 0): "FF", ("RtErrorFunc", 0): "EF", ("RtProcSubdivFunc", 0): "PF", ("RtProcFreeFunc", 0): "ZF", ("RtArchiveCallback", 0): "AC",
             ("RtPointer", 0): "DP", ("RtObjectHandle", 0): "HD", ("RtLightHandle", 0): "HD", ("RtMatrix", 0): "MX", ("RtBasis", 0): "MX"}.get((ty, int(arr)))
        if r is None: ok = False; sys.stderr.write("skip %s: %s\n" % (n, a)); break
        code.append("auto %s = %s(L);" % (v, r)); call.append(("(RtFloat(*)[4])%s" % v) if r == "MX" else v)
    if not ok: continue
    res = "L.res = (void*)" if ret in ("RtObjectHandle", "RtLightHandle") else ""
    s = "if(n == \"%s\") { %s L.params(); " % (base[2:], " ".join(code))
    if pl:
        s += "if(L.form == \"V\") %s%s(%s); else switch(L.np) {" % (res, n, ", ".join(call + ["L.np", "L.tk", "L.vl"]))
        for c in range(5):
            s += " case %d: %s%s(%s); break;" % (c, res, base, ", ".join(call + ["L.tk[%d], L.vl[%d]" % (j, j) for j in range(c)] + ["RI_NULL"]))
        s += " }"
    elif base == "RiMotionBegin":
        s += "if(L.form == \"V\") RiMotionBeginV(a0, a1); else switch(a0) { case 1: RiMotionBegin(1, (double)a1[0]); break; case 2: RiMotionBegin(2, (double)a1[0], (double)a1[1]); break; default: RiMotionBegin(3, (double)a1[0], (double)a1[1], (double)a1[2]); }"
    else: s += "%s%s(%s);" % (res, n, ", ".join(call))
    print(s + " return; }")
