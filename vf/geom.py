"""RIB text of the shapes used by the renderer checks."""
def fmt(v): return "%.9g" % v
def pts(ps): return "[" + " ".join(fmt(c) for p in ps for c in p) + "]"

KINDS = ["poly", "polyrev", "bilinear", "mesh", "ppoly", "ppoly2", "gpoly", "tri2", "mesh22"]
TRIANGLES = ("gpoly", "tri2")   # kinds with an edge along a diagonal
def rect(kind, x0, y0, x1, y1, z, extra=""):
    """the axis aligned rectangle, as one of several equivalent primitives"""
    a, b, c, d = (x0, y0, z), (x1, y0, z), (x1, y1, z), (x0, y1, z)
    if kind == "poly": return 'Polygon "P" %s %s\n' % (pts([a, b, c, d]), extra)
    if kind == "polyrev": return 'Polygon "P" %s %s\n' % (pts([c, b, a, d]), extra)
    if kind == "bilinear": return 'Patch "bilinear" "P" %s %s\n' % (pts([a, b, d, c]), extra)
    if kind == "mesh": return 'PatchMesh "bilinear" 2 "nonperiodic" 2 "nonperiodic" "P" %s %s\n' % (pts([a, b, d, c]), extra)
    if kind == "mesh22":
        xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
        return 'PatchMesh "bilinear" 3 "nonperiodic" 3 "nonperiodic" "P" %s %s\n' % (pts([(x, y, z) for y in (y0, ym, y1) for x in (x0, xm, x1)]), extra)
    if kind == "ppoly": return 'PointsPolygons [4] [0 1 2 3] "P" %s %s\n' % (pts([a, b, c, d]), extra)
    if kind == "ppoly2":
        xm = (3 * x0 + x1) / 4
        return 'PointsPolygons [4 4] [0 1 2 3 1 4 5 2] "P" %s %s\n' % (pts([a, (xm, y0, z), (xm, y1, z), d, b, c]), extra)
    if kind == "gpoly": return 'GeneralPolygon [4] "P" %s %s\n' % (pts([a, b, c, d]), extra)
    if kind == "tri2": return 'PointsPolygons [3 3] [0 1 2 0 2 3] "P" %s %s\n' % (pts([a, b, c, d]), extra)
    raise ValueError(kind)
