"""C21: the batches of a grid tile it."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
from geomodelgrids.create.utils.batch import BatchGenerator2D, BatchGenerator3D


def check(dims, limit):
    gen = (BatchGenerator2D if len(dims) == 2 else BatchGenerator3D)(*(list(dims) + ([limit] if limit is not None else [])))
    boxes, total = [], 1
    for n in dims:
        total *= n
    for b in gen:
        box = [tuple(b.x_range), tuple(b.y_range)] + ([tuple(b.z_range)] if len(dims) == 3 else [])
        for (lo, hi), n, a in zip(box, dims, "xyz"):
            if not 0 <= lo < hi <= n:
                return "batch %s along %s outside the grid %s or empty (limit %s)" % (box, a, dims, limit)
        boxes.append(box)
        if len(boxes) > total:
            return "more batches than points: %s limit %s" % (dims, limit)
    vol = 0
    for b in boxes:
        v = 1
        for lo, hi in b:
            v *= hi - lo
        vol += v
    if vol != total:
        return "batches of %s (limit %s) hold %d points instead of %d" % (dims, limit, vol, total)
    # disjoint: with the volume, the boxes tile the grid
    if len(boxes) <= 400:
        for i in range(len(boxes)):
            for j in range(i):
                if all(a[0] < b[1] and b[0] < a[1] for a, b in zip(boxes[i], boxes[j])):
                    return "batches %s and %s of %s (limit %s) overlap" % (boxes[j], boxes[i], dims, limit)
    elif total <= 200000:
        seen = set()
        for b in boxes:
            for x in range(*b[0]):
                for y in range(*b[1]):
                    for z in range(*(b[2] if len(b) > 2 else (0, 1))):
                        if (x, y, z) in seen:
                            return "point %s of %s (limit %s) is in two batches" % ((x, y, z), dims, limit)
                        seen.add((x, y, z))
    return None


def one(dims, limit):
    case("%dD" % len(dims))
    r = guarded("batches tile the grid", lambda: check(dims, limit), "grid %s limit %s" % (dims, limit))
    if r:
        fail("batches tile the grid", r)


# every small grid
top = 7 if TIER == "quick" else 12
small = [(x, y) for x in range(1, top + 3) for y in range(1, top + 3)] + [(x, y, z) for x in range(1, top) for y in range(1, top) for z in range(1, top)]
rng.shuffle(small)
k = 0
while more():
    if k < len(small):
        d = small[k]
        n = 1
        for v in d:
            n *= v
        for lim in [None, 0] + sorted(set(rng.randint(1, n + 2) for _ in range(6))):
            one(d, lim)
        k += 1
        continue
    nd = rng.choice([2, 3])
    d = tuple(rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 300)]) for _ in range(nd))
    n = 1
    for v in d:
        n *= v
    lim = rng.choice([rng.randint(1, n + 1), rng.randint(1, 50), max(1, n // rng.randint(1, 40)), rng.randint(1, 9) ** rng.choice([2, 3]), d[0] * d[-1], max(d), min(d)])
    if n // max(lim, 1) > 4000:
        continue
    one(d, lim)
done()
