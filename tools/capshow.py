"""capshow.py FILE [channel]: the pixels of a captured image"""
import sys; sys.path.insert(0, '/verif')
from vf import rend
ch = sys.argv[2] if len(sys.argv) > 2 else None
for im in rend.read_cap(sys.argv[1]):
    px = im.pixels(); n = [a for a, _ in im.fmt]; k = n.index(ch or n[0])
    xs = sorted({x for x, _ in px}); ys = sorted({y for _, y in px})
    for y in ys: print(" ".join("%6.3g" % px[x, y][k] for x in xs))
    print()
