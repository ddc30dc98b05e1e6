"""C22: the points of the model builder are the inverse of the reader's mapping; batches are sub-arrays; number of points."""
import os, sys, math
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy
from geomodelgrids.create.core.model import Surface, Block
from geomodelgrids.create.io.hdf5 import HDF5Storage


class Meta:
    pass


class Box:
    def __init__(self, *r):
        for n, v in zip(("x_range", "y_range", "z_range"), r):
            setattr(self, n, v)


class Elev:
    """storage with known elevations"""

    def __init__(self, e):
        self.e = e

    def load_surface(self, surface, batch=None):
        if batch is None:
            return self.e.copy()
        (a, b), (c, d) = batch.x_range, batch.y_range
        return self.e[a:b, c:d].copy()


def txt(v):
    return "[" + ", ".join(repr(float(x)) for x in v) + "]"


def expect_dims(ext, res):
    """floor(extent/resolution)+1 in exact arithmetic of the decimal numbers"""
    q = Fraction(repr(ext)) / Fraction(repr(res))
    return 1 + q.numerator // q.denominator


def axis(extent, k):
    """('u', resolution) or ('v', coordinates)"""
    if rng.random() < 0.6:
        return ("u", None)
    n = rng.randint(1, 9)
    c = sorted(set(round(rng.uniform(0, extent), 3) for _ in range(n)))
    # surface tolerance: keep the coordinates apart
    out = []
    for v in c:
        if not out or v - out[-1] > 0.1:
            out.append(v)
    return ("v", out)


def one():
    md = Meta()
    md.dim_x, md.dim_y, md.dim_z = [rng.choice([round(rng.uniform(1.0, 20.0), 2) * 10 ** rng.choice([0, 1, 3]), float(rng.randint(1, 60) * 1000)]) for _ in range(3)]
    md.origin_x, md.origin_y = rng.uniform(-1e6, 1e6), rng.uniform(-1e6, 1e6)
    md.y_azimuth = rng.choice([0.0, 90.0, -90.0, 180.0, 270.0, rng.uniform(-360, 360), 330.0])
    dims = {"x": md.dim_x, "y": md.dim_y, "z": md.dim_z}
    z_top = rng.choice([0.0, 0.0, -round(rng.uniform(0, 0.5) * md.dim_z, 2)])
    z_bot = rng.choice([-md.dim_z, round(-rng.uniform(0.6, 1.0) * md.dim_z, 2)])
    scfg, bcfg, crd, scrd, skip = {"chunk_size": "(2, 2, 1)"}, {"chunk_size": "(2, 2, 2, 1)", "z_top_offset": "0.0"}, {}, {}, {}
    for a in "xy":
        kind, c = axis(dims[a], a)
        if kind == "u":
            nb, s = rng.randint(1, 8), rng.choice([1, 1, 2, 3, 4])
            if rng.random() < 0.3:
                rb = rng.choice([0.1, 0.2, 0.3, 0.7, 1.1, 3.3, 0.01]) * (1 if dims[a] < 100 else 10 ** (len(str(int(dims[a]))) - 1))
            else:
                rb = float(rng.randint(1, 40)) * (0.5 if dims[a] < 100 else 100.0)
            if s == 3:      # the quotient of the decimal numbers rounds down or up
                rs = float(rng.randint(1, 99)) * rng.choice([0.1, 0.01, 1.1, 0.7])
                s = rng.choice([3, 5, 6, 7])
                rs = float(repr(round(rs, 9)))
                rb = round(rs * s, 9)
            else:
                rs = rb / s
            while dims[a] / rs > 60:
                dims[a] = rs * rng.randint(1, 40) if rng.random() < 0.7 else rs * rng.uniform(1, 40)
                dims[a] = round(dims[a], 6)
            rb = float(repr(round(rb, 9)))
            rs = float(repr(round(rs, 9)))
            skip[a] = s
            bcfg[a + "_resolution"], scfg[a + "_resolution"] = repr(rb), repr(rs)
            crd[a], scrd[a] = ("u", rb), ("u", rs)
        else:
            extra = sorted(set(c + [round(rng.uniform(0, dims[a]), 3) for _ in range(rng.randint(0, 5))]))
            sc = []
            for v in extra:
                if v in c or all(abs(v - w) > 0.1 for w in c + sc):
                    sc.append(v)
            bcfg[a + "_coordinates"], scfg[a + "_coordinates"] = txt(c), txt(sc)
            crd[a], scrd[a] = ("v", c), ("v", sc)
    md.dim_x, md.dim_y = dims["x"], dims["y"]
    if rng.random() < 0.7:
        rz = rng.choice([(z_top - z_bot) / rng.randint(1, 6), (z_top - z_bot) * rng.uniform(0.15, 1.2), 0.1 * 10 ** rng.choice([0, 1, 2])])
        while (z_top - z_bot) / rz > 25:
            rz *= 2
        rz = float(repr(round(rz, 6)))
        if rz <= 0:
            return
        bcfg.update({"z_resolution": repr(rz), "z_top": repr(z_top), "z_bot": repr(z_bot)})
        crd["z"] = ("u", rz)
    else:
        zc = sorted((round(rng.uniform(z_bot, z_top), 2) for _ in range(rng.randint(1, 5))), reverse=True)
        zc = sorted(set(zc), reverse=True)
        bcfg["z_coordinates"] = txt(zc)
        crd["z"] = ("v", zc)
    off = rng.choice([0.0, -0.01, -1.0e-3 * md.dim_z])
    bcfg["z_top_offset"] = repr(off)
    surf = Surface("top", md, scfg, None)
    block = Block("blk", md, bcfg)
    # ---- number of points
    case("dims")
    for obj, cc, what in ((surf, scrd, "surface"), (block, crd, "block")):
        d = obj.get_dims()
        for j, a in enumerate("xyz"):
            if what == "surface" and a == "z":
                continue
            ext = dims[a] if a != "z" else block.z_top - block.z_bot
            if a == "z" and cc[a][0] == "u":
                ext = float(Fraction(repr(float(z_top))) - Fraction(repr(float(z_bot))))
            n = expect_dims(ext, cc[a][1]) if cc[a][0] == "u" else len(cc[a][1])
            if d[j] != n:
                q = ext / cc[a][1] if cc[a][0] == "u" else 0
                if cc[a][0] == "u" and abs(q - round(q)) < 2e-6:
                    if d[j] == round(q) + 1:
                        continue
                fail("number of points", "%s axis %s: %s points, expected %d (extent %r, %r)" % (what, a, d[j], n, ext, cc[a]))
                return
    ns = surf.get_dims()
    nb = block.get_dims()
    e = numpy.array([[rng.uniform(-0.3, 0.3) * md.dim_z for _ in range(ns[1])] for _ in range(ns[0])]).reshape((ns[0], ns[1], 1))
    surf.storage = Elev(e)
    # block vertices must be vertices of the surface
    use_top = rng.random() < 0.7
    pos = {}
    for j, a in enumerate("xy"):
        if crd[a][0] == "u":
            pos[a] = [i * skip[a] for i in range(nb[j])]
            if pos[a][-1] >= ns[j] or not (nb[j] - 1) * skip[a] <= ns[j] - 1 < nb[j] * skip[a]:
                use_top = False
        else:
            pos[a] = [scrd[a][1].index(v) for v in crd[a][1]]
    top = surf if use_top else None
    if use_top and any(abs(e[pos["x"][i], pos["y"][j], 0] + md.dim_z) < 1e-6 for i in range(nb[0]) for j in range(nb[1])):
        return
    d0 = "%s top=%s azimuth=%r dims=%s config=%s" % (nb, use_top, md.y_azimuth, (md.dim_x, md.dim_y, md.dim_z), bcfg)
    co = lambda a, i: i * crd[a][1] if crd[a][0] == "u" else crd[a][1][i]
    sco = lambda a, i: i * scrd[a][1] if scrd[a][0] == "u" else scrd[a][1][i]
    az = md.y_azimuth * math.pi / 180
    C, S_ = math.cos(az), math.sin(az)
    scale = max(abs(md.origin_x), abs(md.origin_y), md.dim_x, md.dim_y, 1.0) * 1e-9 + 1e-7

    def reader_xy(p):
        dx, dy = p[..., 0] - md.origin_x, p[..., 1] - md.origin_y
        return dx * C - dy * S_, dx * S_ + dy * C

    def close(a, b, tol):
        return a.shape == b.shape and bool(numpy.all(numpy.abs(a - b) <= tol))
    # ---- surface points
    case("surface points")
    whole = surf.generate_points()
    if whole.shape[:2] != tuple(ns[:2]):
        fail("surface points: shape", "%s for dims %s %s" % (whole.shape, ns, scfg))
        return
    gx, gy = reader_xy(whole)
    ex, ey = numpy.meshgrid([sco("x", i) for i in range(ns[0])], [sco("y", i) for i in range(ns[1])], indexing="ij")
    if not close(gx, ex, scale) or not close(gy, ey, scale):
        fail("surface points are the vertices", "%s azimuth %r" % (scfg, md.y_azimuth))
        return
    for _ in range(3):
        a = sorted(rng.sample(range(ns[0] + 1), 2))
        b = sorted(rng.sample(range(ns[1] + 1), 2))
        part = surf.generate_points(Box(tuple(a), tuple(b)))
        if not close(part, whole[a[0]:a[1], b[0]:b[1]], 0.0 + 1e-12 * scale):
            fail("surface batch is a sub-array", "batch %s %s of %s: %s" % (a, b, ns, scfg))
            return
    # ---- block points
    case("block points")
    if nb[0] * nb[1] * nb[2] > 30000:
        return
    whole = block.generate_points(top)
    if whole.shape != tuple(nb) + (3,):
        fail("block points: shape", "%s for dims %s: %s" % (whole.shape, nb, d0))
        return
    gx, gy = reader_xy(whole)
    ex, ey = numpy.meshgrid([co("x", i) for i in range(nb[0])], [co("y", i) for i in range(nb[1])], indexing="ij")
    if not close(gx, numpy.repeat(ex[:, :, None], nb[2], 2), scale) or not close(gy, numpy.repeat(ey[:, :, None], nb[2], 2), scale):
        fail("block points are the vertices", d0)
        return
    Z = whole[..., 2].copy()
    Z[:, :, 0] -= off
    D = md.dim_z
    if top:
        T = numpy.array([[e[pos["x"][i], pos["y"][j], 0] for j in range(nb[1])] for i in range(nb[0])])[:, :, None]
        zm = D * (Z - T) / (T + D)
    else:
        zm = Z
    if crd["z"][0] == "u":
        want = [z_top - k * crd["z"][1] for k in range(nb[2])]
        if not close(zm, numpy.broadcast_to(numpy.array(want), zm.shape), 1e-6 * D + 1e-6):
            fail("block points have the elevation of the vertices", d0)
            return
    else:
        want = numpy.broadcast_to(numpy.array(crd["z"][1]), zm.shape)
        mirror = numpy.broadcast_to(numpy.array([max(crd["z"][1]) - v for v in crd["z"][1]]), zm.shape)
        tol = 1e-6 * D + 1e-6
        if not close(zm, want, tol):
            if close(zm, mirror, tol):
                fail("block with z_coordinates: elevation z_top - z", d0)
            else:
                fail("block points have the elevation of the vertices (z_coordinates)", d0)
                return
    for _ in range(4):
        r = [tuple(sorted(rng.sample(range(n + 1), 2))) for n in nb]
        part = block.generate_points(top, Box(*r))
        if not close(part, whole[r[0][0]:r[0][1], r[1][0]:r[1][1], r[2][0]:r[2][1]], 1e-12 * scale):
            fail("block batch is a sub-array", "batch %s: %s" % (r, d0))
            return
    if top:
        case("surface of a block")
        g = block.get_surface(surf)
        w = e[numpy.ix_(pos["x"], pos["y"])][:, :, 0]
        if not close(numpy.asarray(g), w, 1e-12):
            fail("surface of the block", d0)
    # ---- batches
    case("batches")
    lim = rng.randint(1, nb[0] * nb[1] * nb[2] + 2)
    got = numpy.full(whole.shape, numpy.nan)
    for b in block.get_batches(lim):
        got[b.x_range[0]:b.x_range[1], b.y_range[0]:b.y_range[1], b.z_range[0]:b.z_range[1]] = block.generate_points(top, b)
    if not close(got, whole, 1e-12 * scale):
        fail("batches of the block are the whole", "limit %d: %s" % (lim, d0))
    sp = surf.generate_points()
    got = numpy.full(sp.shape, numpy.nan)
    for b in surf.get_batches(rng.randint(1, ns[0] * ns[1] + 1)):
        got[b.x_range[0]:b.x_range[1], b.y_range[0]:b.y_range[1]] = surf.generate_points(b)
    if not close(got, sp, 1e-12 * scale):
        fail("batches of the surface are the whole", d0)


while more():
    guarded("model builder", one)
done()
