"""Renders RiStream items as RIB and compares what came out."""
import re
LEAF = ["Sides %s", "ShadingRate %s", "Translate %s 0 0", "Color [%s 0 0]", "Surface \"s%s\"", "Attribute \"user\" \"uniform int v\" [%s]", "Rotate %s 0 1 0", "Sphere 1 -1 1 %s", "GeometricApproximation \"flatness\" %s",
        "Option \"user\" \"uniform string v\" [\"s%s\"]", "Polygon \"vertex point P\" [%s 0 0 1 1 1 2 2 2]", "Illuminate \"%s\" 1", "MotionBegin [%s 2]", "Declare \"d%s\" \"float\""]

def leaf_text(n): return LEAF[int(n) % len(LEAF)] % n

def text(it):
    o, x = it["op"], it["x"]
    return {"leaf": lambda: leaf_text(x), "IF": lambda: 'IfBegin "%s"' % x, "EI": lambda: 'ElseIf "%s"' % x, "EL": lambda: "Else", "FI": lambda: "IfEnd",
            "AB": lambda: 'ArchiveBegin "%s"' % x, "AE": lambda: "ArchiveEnd", "RA": lambda: 'ReadArchive "%s"' % x,
            "OB": lambda: 'ObjectBegin %s' % x, "OE": lambda: "ObjectEnd", "OI": lambda: "ObjectInstance %s" % x}[o]()

def _lp(s):                       # binary string token
    b = s.encode("latin1"); return (bytes([0o220 + len(b)]) if len(b) < 16 else bytes([0o240, len(b)])) + b

def enc_item(it):
    """one item of a stream using the request and string tables"""
    if it["op"] == "err": return b"NoSuchRequest 1\n"
    t = text(it); name, _, args = t.partition(" ")
    args = args.encode("latin1")
    q = ('"%s"' % it["x"]).encode("latin1")
    if it["senc"] == "def": args = args.replace(q, bytes([0o315, it["scode"]]) + _lp(it["x"]) + bytes([0o317, it["scode"]]))
    elif it["senc"] == "use": args = args.replace(q, bytes([0o317, it["scode"]]))
    if it["enc"] == "plain": h = name.encode() + b" "
    elif it["enc"] == "def": h = bytes([0o314, it["code"]]) + _lp(name) + bytes([0o246, it["code"]])
    else: h = bytes([0o246, it["code"]])
    return h + args + b"\n"

def enc_stream(items): return b"".join(enc_item(i) for i in items)

def render(items): return "\n".join(text(i) for i in items) + "\n"

def leaf_of(call):
    """the number of the leaf a recorded call stands for, or None"""
    n, a, p = call["n"], call["a"], call["p"]
    try:
        k = {"Sides": lambda: a[0], "ShadingRate": lambda: a[0], "Translate": lambda: a[0], "Color": lambda: a[0][0], "Surface": lambda: a[0][1:], "Attribute": lambda: p[0][2][0], "Rotate": lambda: a[0],
             "Sphere": lambda: a[3], "GeometricApproximation": lambda: a[1], "Option": lambda: p[0][2][0][1:], "Polygon": lambda: p[0][2][0], "Illuminate": lambda: a[0], "MotionBegin": lambda: a[0][0], "Declare": lambda: a[0][1:]}[n]()
        k = int(float(k))
    except Exception:
        return "bad:%s" % call
    return str(k) if leaf_text(str(k)).split()[0] == n else "bad:%s" % call

def got(o, ra="E", skip=("ArchiveRecord",)):
    """ra: what a ReadArchive reaching the end of the pipeline stands for (None: ignored)"""
    r = []
    for k, e in o.events:
        if k == "C":
            if e["n"] in skip: continue
            if e["n"] == "ReadArchive":
                if ra: r.append(ra)
                continue
            r.append(leaf_of(e))
        elif k == "E":
            m = re.search(r"Parse error at (?:\S*/)?(\w*):(\d+) ", e)
            r.append("X:%s:%s" % (m.group(1) if m.group(1) != "main" else "", m.group(2)) if m and "NoSuchRequest" in e else "E")
    return r
