"""Generates the method table of a call recorder from the C++ RenderMan interface header."""
import re, sys
txt = open(sys.argv[1]).read()
txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
txt = re.sub(r"//[^\n]*", "", txt)
body = txt[txt.index("class AQSIS_RIUTIL_SHARE Renderer"):]
body = body[:body.index("virtual ~Renderer")]
print("// generated")
for m in re.finditer(r"virtual\s+RtVoid\s+(\w+)\s*\((.*?)\)\s*=\s*0\s*;", body, flags=re.S):
    name, args = m.group(1), re.sub(r"=\s*ParamList\(\)", "", m.group(2))
    args = " ".join(args.split())
    parts = [a.strip() for a in args.split(",") if a.strip()]
    decl, code, fwd = [], [], []
    for a in parts:
        mm = re.match(r"(.*?)(\w+)$", a)
        ty, an = mm.group(1).strip(), mm.group(2)
        decl.append(a); fwd.append(an)
        t = ty.replace("const ", "").replace("&", "").replace("*", "").strip()
        if t == "ParamList": code.append("c.params(%s);" % an)
        elif t in ("RtInt", "RtBoolean"): code.append("c.i(%s);" % an)
        elif t == "RtFloat": code.append("c.f(%s);" % an)
        elif t in ("RtConstString", "RtConstToken", "char"): code.append("c.s(%s);" % an)
        elif t in ("RtConstColor", "RtConstPoint"): code.append("c.fa((const float*)%s, 3);" % an)
        elif t == "RtConstBound": code.append("c.fa((const float*)%s, 6);" % an)
        elif t in ("RtConstMatrix", "RtConstBasis"): code.append("c.fa((const float*)%s, 16);" % an)
        elif t == "IntArray": code.append("c.ia(%s);" % an)
        elif t == "FloatArray": code.append("c.fa(%s.begin(), %s.size());" % (an, an))
        elif t in ("StringArray", "TokenArray"): code.append("c.sa(%s);" % an)
        elif t == "RtFilterFunc": code.append("c.filt(%s);" % an)
        elif t == "RtErrorFunc": code.append("c.err(%s);" % an)
        elif t == "RtProcSubdivFunc": code.append("c.subdiv(%s);" % an)
        elif t == "RtProcFreeFunc": code.append("c.freef(%s);" % an)
        elif t == "RtPointer": code.append("c.ptr(%s);" % an)
        elif t == "RtArchiveCallback": code.append("(void)%s;" % an)
        else: raise SystemExit("unknown type %r in %s" % (ty, name))
    print("virtual RtVoid %s(%s) { Call c(*this, \"%s\"); %s c.done(); if(forward) nextFilter().%s(%s); else after_%s; }" % (
        name, ", ".join(decl), name, " ".join(code), name, ", ".join(fwd),
        ("Procedural(data, freeproc)" if name == "Procedural" else "Declare(name, declaration)" if name == "Declare" else "none()")))
