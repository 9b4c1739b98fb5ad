import re, struct, sys
F = {1: "f", 2: "I", 3: "i", 4: "H", 5: "h", 6: "B", 7: "b"}
def num(v):
    try: return float(v)
    except ValueError: return v
def read(p):
    out, code = [], ""
    for l in open(p):
        t = l.split()
        if not t: continue
        if t[0] == "F": code = "".join(F[int(a.rsplit(":", 1)[1])] for a in t[1:])
        if t[0] == "D":
            raw = bytes.fromhex(t[6]) if len(t) > 6 else b""; out.append(t[:5])
            n = struct.calcsize("<" + code)
            for k in range(len(raw) // n): out.append([float(v) for v in struct.unpack_from("<" + code, raw, k * n)])
        elif t[0][0] == "@": out.append([num(v) for v in re.split(r"[\s;,=]+", l[1:].strip())])
        elif t[0] == "P" and t[1] in ("Software", "DataTime", "HostComputer", "NP", "Nl"): continue
        else: out.append(t)
    return out
a, b = read(sys.argv[1]), read(sys.argv[2])
def same(x, y):
    if len(x) != len(y): return False
    for u, v in zip(x, y):
        if isinstance(u, float) != isinstance(v, float): return False
        if isinstance(u, float):
            if not (u == v or abs(u - v) <= 1e-4 * max(1, abs(u))): return False
        elif u != v: return False
    return True
if len(a) != len(b): print("%d records, expected %d" % (len(b), len(a))); sys.exit(1)
for i, (x, y) in enumerate(zip(a, b)):
    if not same(x, y): print("record %d: %s, expected %s" % (i, y, x)); sys.exit(1)
