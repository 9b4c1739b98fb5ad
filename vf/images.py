"""Image files for the texture checks, written and read without the code under test: TIFF (strips or tiles, either byte
order, plain, PackBits or deflate) and PNG writers, and a reader of the TIFF files the renderer makes."""
import struct, zlib

CODES = {"u8": "B", "u16": "H", "f32": "f"}

def packbits(b):
    out = bytearray(); i = 0
    while i < len(b):
        j = i
        while j + 1 < len(b) and b[j + 1] == b[i] and j - i < 127: j += 1
        if j > i: out += bytes([(257 - (j - i + 1)) & 255, b[i]]); i = j + 1
        else:
            j = i
            while j + 1 < len(b) and b[j + 1] != b[j] and j - i < 126: j += 1
            out += bytes([j - i]) + b[i:j + 1]; i = j + 1
    return bytes(out)

def tiff(w, h, nc, typ, px, big=False, comp="none", rows=None, tile=None, tags=()):
    """px[y][x][c]; tags: extra (tag, type, values)"""
    e = ">" if big else "<"; code = CODES[typ]; size = struct.calcsize(code)
    def enc(b): return b if comp == "none" else zlib.compress(b) if comp == "deflate" else packbits(b)
    def row(vals): return struct.pack(e + code * len(vals), *vals)
    blocks = []
    if tile:
        tw, th = tile
        for y in range(0, h, th):
            for x in range(0, w, tw):
                b = b""
                for j in range(y, y + th): b += row([px[min(j, h - 1)][min(i, w - 1)][c] for i in range(x, x + tw) for c in range(nc)])
                blocks.append(enc(b))
    else:
        rows = rows or h
        for y in range(0, h, rows):
            if comp == "packbits": blocks.append(b"".join(packbits(row([v for p in px[j] for v in p])) for j in range(y, min(h, y + rows))))
            else: blocks.append(enc(b"".join(row([v for p in px[j] for v in p]) for j in range(y, min(h, y + rows)))))
    data = b""; offs = []
    for b in blocks: offs.append(8 + len(data)); data += b + (b"\0" if len(b) % 2 else b"")
    T = [(256, 4, [w]), (257, 4, [h]), (258, 3, [size * 8] * nc), (259, 3, [{"none": 1, "deflate": 8, "packbits": 32773}[comp]]),
         (262, 3, [1 if nc < 3 else 2]), (277, 3, [nc]), (284, 3, [1]), (339, 3, [3 if typ == "f32" else 1] * nc)]
    if tile: T += [(322, 4, [tile[0]]), (323, 4, [tile[1]]), (324, 4, offs), (325, 4, [len(b) for b in blocks])]
    else: T += [(273, 4, offs), (278, 4, [rows]), (279, 4, [len(b) for b in blocks])]
    ex = nc - (1 if nc < 3 else 3)
    if ex: T.append((338, 3, [1] + [0] * (ex - 1)))
    T += list(tags); T.sort()
    pos = 8 + len(data); ifd = struct.pack(e + "H", len(T)); over = b""; base = pos + 2 + 12 * len(T) + 4
    for tag, ty, vals in T:
        raw = vals if isinstance(vals, bytes) else struct.pack(e + {3: "H", 4: "I", 11: "f"}[ty] * len(vals), *vals)
        n = len(vals)
        if len(raw) <= 4: ifd += struct.pack(e + "HHI", tag, ty, n) + raw.ljust(4, b"\0")
        else: ifd += struct.pack(e + "HHII", tag, ty, n, base + len(over)); over += raw + (b"\0" if len(raw) % 2 else b"")
    return (b"MM" if big else b"II") + struct.pack(e + "HI", 42, pos) + data + ifd + struct.pack(e + "I", 0) + over

ADAM7 = ((0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2))
def png(w, h, nc, px, depth=8, filters=(0,), palette=False, interlace=False):
    """px: 8 bit values; depth 16 repeats them, depth 4 (grey, multiples of 17) takes their upper half; a palette holds the colours"""
    extra = b""
    if palette:
        cols = sorted({tuple(p) for r in px for p in r}); extra = b"".join(bytes(c) for c in cols); px = [[[cols.index(tuple(p))] for p in r] for r in px]; ch = 1
    else: ch = nc
    def pack(vals):
        if depth == 16: return b"".join(struct.pack(">H", v * 257) for v in vals)
        if depth == 8: return bytes(vals)
        n = [v // 17 for v in vals] + [0]; return bytes(n[i] << 4 | n[i + 1] for i in range(0, len(vals), 2))
    bpp = max(1, ch * depth // 8)
    def image(rows):
        prev = None; raw = b""
        for y, r in enumerate(rows):
            cur = pack([v for p in r for v in p]); f = filters[y % len(filters)]; out = bytearray(); prev = prev or bytes(len(cur))
            for i, b in enumerate(cur):
                a = cur[i - bpp] if i >= bpp else 0; u = prev[i]; c = prev[i - bpp] if i >= bpp else 0
                if f == 4: p = a + u - c; d = (abs(p - a), abs(p - u), abs(p - c)); pr = (a, u, c)[d.index(min(d))]
                else: pr = (0, a, u, (a + u) // 2)[f]
                out.append((b - pr) & 255)
            raw += bytes([f]) + bytes(out); prev = cur
        return raw
    raw = b"".join(image([r[x0::dx] for r in px[y0::dy]]) for x0, y0, dx, dy in ADAM7 if x0 < w and y0 < h) if interlace else image(px)
    def chunk(t, d): return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d) & 0xffffffff)
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, 3 if palette else {1: 0, 2: 4, 3: 2, 4: 6}[nc], 0, 0, 1 if interlace else 0))
            + (chunk(b"PLTE", extra) if palette else b"") + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))

class Bad(Exception): pass

def lzw(src):
    """TIFF's variant of LZW"""
    out = []; table = None; bits = 9; acc = n = 0; prev = None; it = iter(src)
    res = bytearray()
    while True:
        while n < bits:
            b = next(it, None)
            if b is None: return bytes(res)
            acc = (acc << 8) | b; n += 8
        code = (acc >> (n - bits)) & ((1 << bits) - 1); n -= bits; acc &= (1 << n) - 1
        if code == 256: table = [bytes([i]) for i in range(256)] + [b"", b""]; bits = 9; prev = None; continue
        if code == 257: return bytes(res)
        if table is None: raise Bad("LZW data does not begin with a clear code")
        if prev is None: s = table[code]
        else:
            if code > len(table): raise Bad("bad LZW code")
            s = table[code] if code < len(table) else prev + prev[:1]
            table.append(prev + s[:1])
        res += s; prev = s
        k = len(table)
        bits = 9 if k < 511 else 10 if k < 1023 else 11 if k < 2047 else 12

def unpackbits(b):
    out = bytearray(); i = 0
    while i < len(b):
        c = b[i]; i += 1
        if c < 128: out += b[i:i + c + 1]; i += c + 1
        elif c > 128: out += bytes([b[i]]) * (257 - c); i += 1
    return bytes(out)

def read_tiff(path):
    """[{w, h, nc, typ, px, tags}] for every directory"""
    d = open(path, "rb").read()
    if d[:2] not in (b"II", b"MM"): raise Bad("not a TIFF file")
    e = "<" if d[:2] == b"II" else ">"
    pos = struct.unpack_from(e + "I", d, 4)[0]; res = []
    while pos:
        n = struct.unpack_from(e + "H", d, pos)[0]; tags = {}
        for k in range(n):
            tag, ty, cnt = struct.unpack_from(e + "HHI", d, pos + 2 + 12 * k)
            code, size = {1: ("B", 1), 2: ("s", 1), 3: ("H", 2), 4: ("I", 4), 5: ("II", 8), 6: ("b", 1), 7: ("B", 1), 8: ("h", 2), 9: ("i", 4), 11: ("f", 4), 12: ("d", 8)}[ty]
            o = pos + 10 + 12 * k
            if size * cnt > 4: o = struct.unpack_from(e + "I", d, o)[0]
            if ty == 2: tags[tag] = d[o:o + cnt].split(b"\0")[0].decode("latin1")
            else: tags[tag] = list(struct.unpack_from(e + code * cnt, d, o))
        pos = struct.unpack_from(e + "I", d, pos + 2 + 12 * n)[0]
        w, h = tags[256][0], tags[257][0]; nc = tags.get(277, [1])[0]; bps = tags[258][0]; sf = tags.get(339, [1])[0]
        code = {(8, 1): "B", (16, 1): "H", (32, 1): "I", (32, 3): "f", (8, 2): "b", (16, 2): "h", (32, 2): "i"}.get((bps, sf))
        if code is None: raise Bad("sample format %s/%s" % (bps, sf))
        size = bps // 8; comp = tags.get(259, [1])[0]; pred = tags.get(317, [1])[0]
        def dec(b, rowlen, rows):
            if comp == 5: b = lzw(b)
            elif comp in (8, 32946): b = zlib.decompress(b)
            elif comp == 32773: b = unpackbits(b)
            elif comp != 1: raise Bad("compression %d" % comp)
            if len(b) < rowlen * rows * size: raise Bad("short block")
            if pred == 3:
                o = bytearray()
                for r in range(rows):
                    t = bytearray(b[r * rowlen * size:(r + 1) * rowlen * size])
                    for i in range(nc, len(t)): t[i] = (t[i] + t[i - nc]) & 255
                    for i in range(rowlen):
                        q = [t[k * rowlen + i] for k in range(size)]; o += bytes(q if e == ">" else q[::-1])
                b = bytes(o)
            v = list(struct.unpack_from(e + code * (rowlen * rows), b))
            if pred == 2:
                m = (1 << bps) - 1
                for r in range(rows):
                    for i in range(r * rowlen + nc, (r + 1) * rowlen): v[i] = (v[i] + v[i - nc]) & m
            elif pred not in (1, 3): raise Bad("predictor %d" % pred)
            return v
        px = [[None] * w for _ in range(h)]
        if 322 in tags:
            tw, th = tags[322][0], tags[323][0]; k = 0
            for y in range(0, h, th):
                for x in range(0, w, tw):
                    v = dec(d[tags[324][k]:tags[324][k] + tags[325][k]], tw * nc, th); k += 1
                    for j in range(y, min(h, y + th)):
                        for i in range(x, min(w, x + tw)): o = ((j - y) * tw + i - x) * nc; px[j][i] = v[o:o + nc]
        else:
            rps = min(tags.get(278, [h])[0], h); k = 0
            for y in range(0, h, rps):
                rows = min(rps, h - y); v = dec(d[tags[273][k]:tags[273][k] + tags[279][k]], w * nc, rows); k += 1
                for j in range(rows):
                    for i in range(w): o = (j * w + i) * nc; px[y + j][i] = v[o:o + nc]
        res.append({"w": w, "h": h, "nc": nc, "typ": {"B": "u8", "H": "u16", "f": "f32"}.get(code, code), "px": px, "tags": tags})
    return res

def read_bmp(path):
    """{w, h, px} of a 24 bit BMP, px as r, g, b"""
    d = open(path, "rb").read()
    if d[:2] != b"BM": raise Bad("not a BMP file")
    off = struct.unpack_from("<I", d, 10)[0]; hs, w, h, planes, bits, comp = struct.unpack_from("<IiiHHI", d, 14)
    if (planes, bits, comp) != (1, 24, 0): raise Bad("BMP of %s" % ((planes, bits, comp),))
    row = (w * 3 + 3) // 4 * 4
    if len(d) < off + row * (h - 1) + 3 * w: raise Bad("the BMP file is short")
    return {"w": w, "h": h, "px": [[[d[off + row * (h - 1 - y) + 3 * x + c] for c in (2, 1, 0)] for x in range(w)] for y in range(h)]}

def read_exr(path):
    """{data: (x0, y0, x1, y1), display, chans: {name: {(x, y): value}}} of a scanline OpenEXR file (none, rle, zips, zip)"""
    d = open(path, "rb").read()
    if struct.unpack_from("<I", d)[0] != 20000630: raise Bad("not an EXR file")
    pos = 8; at = {}
    def cstr(p): e = d.index(b"\0", p); return d[p:e].decode("latin1"), e + 1
    while d[pos]:
        n, pos = cstr(pos); t, pos = cstr(pos); size = struct.unpack_from("<I", d, pos)[0]; pos += 4; at[n] = (t, pos, size); pos += size
    pos += 1
    x0, y0, x1, y1 = struct.unpack_from("<4i", d, at["dataWindow"][1]); disp = struct.unpack_from("<4i", d, at["displayWindow"][1]); comp = d[at["compression"][1]]
    p = at["channels"][1]; chans = []
    while d[p]:
        n, p = cstr(p); ty = struct.unpack_from("<I", d, p)[0]; p += 16; chans.append((n, {1: ("e", 2), 2: ("f", 4), 0: ("I", 4)}[ty]))
    lines = {0: 1, 1: 1, 2: 1, 3: 16}.get(comp)
    if lines is None: raise Bad("EXR compression %d" % comp)
    w = x1 - x0 + 1; blocks = (y1 - y0) // lines + 1; rowsize = sum(s for _, (_, s) in chans) * w
    res = {n: {} for n, _ in chans}; offs = struct.unpack_from("<%dQ" % blocks, d, pos)
    for o in offs:
        if o == 0 or o + 8 > len(d): raise Bad("a block of lines is missing")
        y, size = struct.unpack_from("<iI", d, o); b = d[o + 8:o + 8 + size]; rows = min(lines, y1 - y + 1); full = rowsize * rows
        if comp and size < full:
            if comp == 1:
                out = bytearray(); i = 0
                while i < len(b):
                    c = struct.unpack_from("b", b, i)[0]; i += 1
                    if c < 0: out += b[i:i - c]; i -= c
                    else: out += bytes([b[i]]) * (c + 1); i += 1
                b = bytes(out)
            else: b = zlib.decompress(b)
            t = bytearray(b)
            for i in range(1, len(t)): t[i] = (t[i - 1] + t[i] - 128) & 255
            h = (len(t) + 1) // 2; u = bytearray(len(t)); u[0::2] = t[:h]; u[1::2] = t[h:]; b = bytes(u)
        if len(b) != full: raise Bad("block of %d bytes, expected %d" % (len(b), full))
        q = 0
        for j in range(rows):
            for n, (code, s) in chans:
                for i, v in enumerate(struct.unpack_from("<%d%s" % (w, code), b, q)): res[n][x0 + i, y + j] = v
                q += s * w
    return {"data": (x0, y0, x1, y1), "display": disp, "chans": res}
