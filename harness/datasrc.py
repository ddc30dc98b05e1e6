"""C27: every value a data source returns belongs to its own grid point."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import numpy, pyproj, copy, warnings, itertools
warnings.simplefilter("ignore")
netcdf = types.ModuleType("netCDF4")
netcdf.open = {}


def dataset(filename, mode="r", *a, **k):
    if filename not in netcdf.open or mode != "r":
        raise FileNotFoundError(filename)
    return netcdf.open[filename]


netcdf.Dataset = dataset
sys.modules["netCDF4"] = netcdf
from geomodelgrids.create.core.model import Block, Surface, Model
from geomodelgrids.create.core import NODATA_VALUE
from geomodelgrids.create.data_srcs.csv.datasrc import CSVFile
from geomodelgrids.create.data_srcs.iris_emc.datasrc import EMCNetCDF
from geomodelgrids.create.data_srcs.earthvision import datasrc as ev, api

F4 = numpy.float32
SCALE = {"m": 1.0, "meter": 1.0, "km": 1000.0, "kilometers": 1000.0, "ft": 0.3048, "feet": 0.3048}


class MD:
    def __init__(self):
        self.dim_x, self.dim_y, self.dim_z = 8000.0, 6000.0, 4000.0
        self.origin_x, self.origin_y, self.y_azimuth = rng.uniform(-1e5, 1e5), rng.uniform(-3e5, 1e5), rng.choice([0.0, 30.0, -57.0, 143.5])


def coords(n, step, first=0.0):
    """n ascending coordinates with uneven, unrounded spacing"""
    c, x = [], first
    for _ in range(n):
        c.append(x)
        x += rng.choice([1.0, 0.37, 2.6, 11.3]) * step
    return c


def make_block(md, listed=(None, None, None)):
    cfg, ax = {"z_top_offset": "0.0", "chunk_size": "(1, 1, 1, 1)"}, []
    for a, d in zip("xy", (md.dim_x, md.dim_y)):
        if listed["xy".index(a)] if listed[0] is not None else rng.random() < 0.5:
            c = coords(rng.randint(2, 5), rng.choice([7.0, 100.0, 125.0]))
            cfg[a + "_coordinates"] = "[" + ", ".join(repr(v) for v in c) + "]"
            ax.append(numpy.array(c))
        else:
            r = d / rng.randint(1, 4)
            cfg[a + "_resolution"] = repr(r)
            ax.append(numpy.arange(int(0.01 + d / r) + 1) * r)
    if listed[2] if listed[0] is not None else rng.random() < 0.5:
        c = [-v for v in coords(rng.randint(2, 5), rng.choice([7.0, 125.0, 250.0]), rng.choice([0.0, -1500.0, 300.0]))]
        cfg["z_coordinates"] = "[" + ", ".join(repr(v) for v in c) + "]"
        ax.append(numpy.array(c))
    else:
        top, r, n = rng.choice([0.0, 0.0, -400.0, 250.0]), rng.choice([50.0, 125.0, 400.0]), rng.randint(1, 4)
        cfg.update(z_top=repr(top), z_bot=repr(top - n * r), z_resolution=repr(r))
        ax.append(top - numpy.arange(n + 1) * r)
    return Block("block", md, cfg), ax, cfg


def world(md, ax):
    x, y, z = numpy.meshgrid(*ax, indexing="ij")
    t = numpy.radians(md.y_azimuth)
    return md.origin_x + x * numpy.cos(t) + y * numpy.sin(t), md.origin_y - x * numpy.sin(t) + y * numpy.cos(t), z


# ---------------------------------------------------------------- CSV
def csv_case():
    md = MD()
    b, ax, bcfg = make_block(md)
    crs = rng.choice(["EPSG:3311", "EPSG:4326", "EPSG:26910"])
    tr = pyproj.Transformer.from_crs("EPSG:3311", crs, always_xy=True)
    X, Y, Z = world(md, ax)
    X, Y, Z = tr.transform(X, Y, Z)
    sh = X.shape
    names = rng.sample(["Vp", "Vs", "density", "Qp"], rng.randint(1, 3))
    ncol = 3 + len(names) + rng.randint(0, 1)
    cols = rng.sample(range(ncol), 3 + len(names))
    want = numpy.full(sh + (len(names),), NODATA_VALUE, dtype=F4)
    rows = []
    pts = list(numpy.ndindex(*sh))
    rng.shuffle(pts)
    drop = rng.choice([0, 0, 1, 3, 10**6])
    pts = pts[:max(1, len(pts) - drop)]
    pts += rng.sample(pts, min(len(pts), rng.choice([0, 0, 2])))
    for p in pts:
        row = [rng.uniform(-9, 9) for _ in range(ncol)]
        row[cols[0]], row[cols[1]], row[cols[2]] = X[p], Y[p], Z[p]
        v = [round(rng.uniform(-1e4, 1e4), 3) for _ in names]
        for c, q in zip(cols[3:], v):
            row[c] = q
        rows.append(row)
        want[p] = v
    flag = rng.choice(["#", "%", None])
    with open("pts.csv", "w") as f:
        f.write("%s a comment 1 2 3\n" % (flag or "#"))
        for r in rows:
            f.write(" ".join("%.17g" % v for v in r) + "\n")
    cfg = {"geomodelgrids": {"history": rng.choice(["", "made"])}, "csv": {"filename": "pts.csv", "crs": crs}, "csv.columns": dict(zip(["x", "y", "z"] + names, map(str, cols))),
           "data": {"values": "[" + ", ".join(names) + "]"}, "coordsys": {"crs": "EPSG:3311", "origin_x": repr(md.origin_x), "origin_y": repr(md.origin_y), "y_azimuth": repr(md.y_azimuth)}}
    if flag:
        cfg["csv"]["comment_flag"] = flag
    d = CSVFile(cfg)
    d.initialize()
    got = d.get_values(b, None, None)
    what = "block %s, file in %s, %d rows for %d points, azimuth %s" % ({k: v for k, v in bcfg.items() if k[1] == "_"}, crs, len(rows), len(list(numpy.ndindex(*sh))), md.y_azimuth)
    if got.shape != want.shape:
        return "CSV: shape %s, expected %s: %s" % (got.shape, want.shape, what)
    bad = numpy.argwhere(~numpy.isclose(got, want, rtol=1e-6))
    if len(bad):
        i = tuple(bad[0])
        return "CSV: point %s of value %s is %r, the file has %r: %s" % (i[:3], names[i[3]], got[i], want[i], what)


# ---------------------------------------------------------------- EMC
class Var:
    def __init__(self, a, units, long_name):
        self.a, self.units, self.long_name, self.size, self.shape = numpy.asarray(a), units, long_name, numpy.asarray(a).size, numpy.asarray(a).shape

    def __getitem__(self, i):
        return numpy.ma.masked_array(self.a[i].copy(), mask=(numpy.asarray(self.a)[i] == 99999.0) if self.a.ndim == 3 else False)

    def __len__(self):
        return len(self.a)


class Nc:
    pass


def emc_case():
    nx, ny, nz = rng.randint(2, 5), rng.randint(2, 5), rng.randint(2, 5)
    unit = rng.choice(["km", "m"])
    lon0, lat0, dl, dm = rng.uniform(-125, -110), rng.uniform(30, 40), rng.choice([0.5, 0.1]), rng.choice([0.25, 1.0])
    uniform = rng.random() < 0.5
    k = 1.0 if unit == "km" else 1000.0
    dep = numpy.arange(nz) * rng.choice([5.0, 12.5]) * k if uniform else numpy.cumsum([0.0] + [rng.choice([1.0, 7.0, 20.0]) * (i + 1) for i in range(nz - 1)]) * k
    if rng.random() < 0.3:
        uniform = False
        dep = numpy.cumsum([0.0] + [rng.choice([1.0, 5.0]) * k * (1.0 + rng.choice([0.01, 0.03, -0.02]) * (i % 2)) for i in range(nz - 1)])
    if uniform and nz > 1 or numpy.std(numpy.diff(dep)) < 0.001:
        uniform = True
    d = Nc()
    lon, lat = lon0 + dl * numpy.arange(nx), lat0 + dm * numpy.arange(ny)
    d.geospatial_lon_min, d.geospatial_lon_max, d.geospatial_lat_min, d.geospatial_lat_max = float(lon[0]), float(lon[-1]), float(lat[0]), float(lat[-1])
    d.geospatial_vertical_min, d.geospatial_vertical_max = float(dep[0]), float(dep[-1])
    d.geospatial_lon_units, d.geospatial_lat_units, d.geospatial_vertical_units = rng.choice(["degrees_east", "degrees "]), "degrees_north", unit
    names = rng.sample(["vs", "vp", "rho", "dvs"], rng.randint(1, 3))
    data = {n: numpy.array([[[rng.uniform(1, 9) for _ in range(nx)] for _ in range(ny)] for _ in range(nz)]) for n in names}
    if rng.random() < 0.5:
        for n in names:
            data[n][tuple(numpy.array([(i % nz, (i // 3) % ny, (i // 2) % nx) for i in range(rng.randint(1, 5))]).T)] = 99999.0
    vs = {"longitude": Var(lon, "degrees_east", ""), "latitude": Var(lat, "degrees_north", ""), "depth": Var(dep, unit, "")}
    order = list(names) + list(vs)
    rng.shuffle(order)
    us = {n: "u-" + n for n in names}
    d.variables = {n: vs[n] if n in vs else Var(data[n], us[n], "long " + n) for n in order}
    names = [n for n in order if n in data]
    if rng.random() < 0.7:
        d.title, d.id, d.summary, d.keywords, d.reference = " T ", "ident", "sum", "a, b", "ref"
    netcdf.open["m.nc"] = d
    cfg = {"geomodelgrids": {"filename": "emc.h5", "repository_url": "", "repository_name": "", "repository_doi": ""}, "domain": {}, "block": {"chunk_size": "(1, 1, 1, 1)"}, "iris_emc": {"filename": "m.nc"}}
    s = EMCNetCDF(cfg)
    s.initialize()
    m = Model(cfg)
    what = "EMC %d x %d x %d, depth %s %s" % (nx, ny, nz, dep.tolist(), unit)
    sc = 1000.0 if unit == "km" else 1.0
    b = m.blocks[0]
    if len(m.blocks) != 1 or tuple(b.get_dims()) != (nx, ny, nz):
        return "EMC: block has %s points: %s" % (b.get_dims(), what)
    md = m.metadata
    if list(md.data_values) != names or list(md.data_units) != [us[n] for n in names]:
        return "EMC: values %s units %s, the file has %s: %s" % (md.data_values, md.data_units, names, what)
    near = lambda a, c: abs(a - c) <= 1e-9 * max(1.0, abs(a), abs(c))
    if not (near(md.origin_x, lon[0]) and near(md.origin_y, lat[0]) and near(md.dim_x, lon[-1] - lon[0]) and near(md.dim_y, lat[-1] - lat[0]) and near(md.dim_z, (dep[-1] - dep[0]) * sc) and md.y_azimuth == 0):
        return "EMC: domain origin (%r, %r) dims (%r, %r, %r): %s lon %s lat %s" % (md.origin_x, md.origin_y, md.dim_x, md.dim_y, md.dim_z, what, lon.tolist(), lat.tolist())
    if not (near(b.x_resolution, dl) and near(b.y_resolution, dm) and near(b.z_top, -dep[0] * sc) and near(b.z_bot, -dep[-1] * sc)):
        return "EMC: block resolution %r %r top %r bottom %r: %s" % (b.x_resolution, b.y_resolution, b.z_top, b.z_bot, what)
    if b.z_resolution is not None and not near(b.z_resolution, (dep[1] - dep[0]) * sc) or b.z_resolution is None and not numpy.allclose(b.z_coordinates, -dep * sc) or (b.z_resolution is not None) != uniform:
        return "EMC: vertical grid %r %r: %s" % (b.z_resolution, b.z_coordinates, what)

    def compare(got, box, how):
        w = numpy.stack([data[n].transpose(2, 1, 0)[box[0][0]:box[0][1], box[1][0]:box[1][1], box[2][0]:box[2][1]] for n in names], axis=3).astype(F4)
        w[w == 99999.0] = NODATA_VALUE
        if got.shape != w.shape:
            return "EMC: shape %s, expected %s (%s): %s" % (got.shape, w.shape, how, what)
        bad = numpy.argwhere(numpy.asarray(got) != w)
        if len(bad):
            i = tuple(bad[0])
            return "EMC: point %s of %s is %r, the file has %r (%s): %s" % (i[:3], names[i[3]], got[i], w[i], how, what)
    r = compare(s.get_values(b, None, None), ((0, nx), (0, ny), (0, nz)), "whole block")
    if r:
        return r
    for bt in b.get_batches(rng.choice([2, 5, 12])):
        r = compare(s.get_values(b, None, None, bt), (bt.x_range, bt.y_range, bt.z_range), "batch %s %s %s" % (bt.x_range, bt.y_range, bt.z_range))
        if r:
            return r


# ---------------------------------------------------------------- EarthVision
os.makedirs("rules", exist_ok=True)
with open("rules/ev_rules_c27.py", "w") as f:
    f.write("CODE = {'FB one': 1.0, 'FB2': 3.0, '': 0.0, 'Z a': 10.0, 'Zb': 20.0}\n"
            "def select(faultblock, zone):\n    k = CODE[faultblock] + CODE[zone]\n    return lambda x, y, depth: (depth + 1e5 * k, x - y + k, k * depth if k != 23.0 else -7)\n")
BLOCKS, ZONES = {"FB one": 3, "FB2": 7}, {"Z a": 2, "Zb": 5}


def label(x, y, z):
    """fault block and zone of a location in metres"""
    i = int(abs(x) // 700 + abs(y) // 900) % 5
    j = int(abs(z) // 130 + abs(x) // 1100) % 5
    return ("FB one" if i < 2 else "FB2" if i < 4 else ""), ("Z a" if j < 2 else "Zb" if j < 4 else "")


GRIDS = {"a.2grd": lambda x, y: 10.0 + 1e-3 * x - 2e-3 * y, "b.2grd": lambda x, y: 20.0 - 1.5e-3 * x + 1e-3 * y, "c.2grd": lambda x, y: -5.0 + 2e-3 * x}


class FakeEV:
    """the EarthVision programs: works on the files of the model directory, in external units"""

    def __init__(self, model_dir, env):
        self.dir = model_dir

    def ev_facedump(self, filename):
        assert filename == "geo.faces", filename
        out = ["Header", "Fault Block Names:"] + ["[%d] %s" % (v, k) for k, v in BLOCKS.items()] + ["", "Zone Names:"] + ["  [%d] %s" % (v, k) for k, v in ZONES.items()] + ["", "[9] not a name"]
        return out

    def read(self, name):
        return numpy.atleast_2d(numpy.loadtxt(os.path.join(self.dir, name)))

    def ev_label(self, values, points, model, dtype, converters):
        assert model == "geo.seq", model
        out = []
        for r in self.read(points):
            fb, zn = label(r[0] * self.h, r[1] * self.h, r[2] * self.v)
            out.append(tuple(converters.get(i, lambda s: s)(t) for i, t in enumerate([b"%.9e" % r[0], b"%.9e" % r[1], b"%.9e" % r[2], b'"%s"' % fb.encode(), b'"%s"' % zn.encode()])))
        open(os.path.join(self.dir, values), "w").close()
        return numpy.array(out, dtype=list(zip(dtype["names"], ["f8" if f == "f4" else f for f in dtype["formats"]])))

    def ev_fp(self, formula, filename_out=None):
        import re
        m = re.match(r"^(\S+)<elev> = bakint\((\S+), (\S+)<x>, (\S+)<y>\);$", formula.strip())
        assert m and m.group(3) == m.group(4), formula
        g = GRIDS[m.group(2)]
        z = [g(r[0] * self.h, r[1] * self.h) / self.v for r in self.read(m.group(3))]
        assert os.path.join(self.dir, m.group(1)) == filename_out
        numpy.savetxt(filename_out, z, fmt="%.12e")
        return numpy.loadtxt(filename_out)


class Stored:
    def __init__(self, z):
        self.z = z

    def load_surface(self, surface, batch=None):
        return self.z[batch.x_range[0]:batch.x_range[1], batch.y_range[0]:batch.y_range[1]] if batch else self.z


def ev_case():
    md = MD()
    md.origin_x, md.origin_y = rng.uniform(0, 3e4), rng.uniform(0, 3e4)
    b, ax, bcfg = make_block(md, (rng.random() < 0.3, rng.random() < 0.3, False))
    b.z_top_offset = rng.choice([0.0, -0.1, -10.0])
    hu, vu = rng.choice(list(SCALE)), rng.choice(list(SCALE))
    FakeEV.h, FakeEV.v = SCALE[hu], SCALE[vu]
    ev.api.EarthVisionAPI = FakeEV
    os.makedirs("ev", exist_ok=True)
    top = rng.sample(list(GRIDS), rng.randint(1, 3))
    tb = rng.sample(list(GRIDS), rng.randint(1, 3))
    cfg = {"earthvision": {"model_dir": os.path.abspath("ev"), "geologic_model": "geo.seq", "elev_units": vu, "xy_units": hu, "top_surface_2grd": "[%s]" % ", ".join(top), "topography_bathymetry_2grd": "[%s]" % ", ".join(tb),
                           "rules_fn": "ev_rules_c27.select", "rules_pythonpath": os.path.abspath("rules")}, "earthvision.environment": {}}
    s = ev.RulesDataSrc(cfg)
    s.initialize()
    what = "EarthVision units %s %s, block %s offset %s" % (hu, vu, {k: v for k, v in bcfg.items() if k[1] == "_"}, b.z_top_offset)
    ids, zids = dict(BLOCKS), dict(ZONES)
    ids[""] = zids[""] = NODATA_VALUE
    if s.faultblock_ids != ids or s.zone_ids != zids:
        return "EarthVision: ids %s %s" % (s.faultblock_ids, s.zone_ids)
    scfg = {k: v for k, v in bcfg.items() if k[0] in "xyc"}
    sf = Surface("top_surface", md, dict(scfg, chunk_size="(1, 1, 1)"), None)
    P = sf.generate_points()
    for fn, grids in ((s.get_top_surface, top), (s.get_topography_bathymetry, tb)):
        def surf(P, how):
            z = fn(P)
            w = numpy.max([GRIDS[g](P[:, :, 0], P[:, :, 1]) for g in grids], axis=0)
            if z.shape != w.shape + (1,):
                return "EarthVision: surface has shape %s for %s points" % (z.shape, P.shape)
            if not numpy.allclose(z[:, :, 0], w, rtol=1e-6, atol=1e-3):
                i = tuple(numpy.argwhere(~numpy.isclose(z[:, :, 0], w, rtol=1e-6, atol=1e-3))[0])
                return "EarthVision: elevation %r at %s, the highest of %s is %r (%s): %s" % (z[i][0], P[i].tolist(), grids, w[i], how, what)
        r = surf(P, "whole surface")
        if r:
            return r
        for bt in sf.get_batches(rng.choice([3, 6])):
            r = surf(sf.generate_points(bt), "batch")
            if r:
                return r
    # values: on surfaces with the resolution of the block
    ztop = None if rng.random() < 0.4 else numpy.array([[[round(rng.uniform(-100, 300), 2)] for _ in range(P.shape[1])] for _ in range(P.shape[0])])
    zt = numpy.array([[[round(rng.uniform(200, 400), 2)] for _ in range(P.shape[1])] for _ in range(P.shape[0])])
    tops = Surface("top_surface", md, dict(scfg, chunk_size="(1, 1, 1)"), Stored(ztop)) if ztop is not None else None
    topo = Surface("topography_bathymetry", md, dict(scfg, chunk_size="(1, 1, 1)"), Stored(zt))
    points = b.generate_points(tops)

    def compare(got, lo, sh, how):
        if got.shape != tuple(sh) + (5,):
            return "EarthVision: values of shape %s for %s points (%s): %s" % (got.shape, sh, how, what)
        for p in numpy.ndindex(*sh):
            q = tuple(a + c for a, c in zip(p, lo))
            x, y, z = points[q]
            depth = zt[q[0], q[1], 0] - z - (b.z_top_offset if q[2] == 0 else 0.0)
            # a location at the edge of two labels has either
            def close(g, w):
                return abs(g - w) <= 1e-4 + 2e-6 * abs(w)
            ok = False
            e = 2e-3
            for d in itertools.product((-e, 0, e), repeat=3):
                fb, zn = label(x + d[0], y + d[1], z + d[2])
                k = {"FB one": 1.0, "FB2": 3.0, "": 0.0}[fb] + {"Z a": 10.0, "Zb": 20.0, "": 0.0}[zn]
                w = (depth + 1e5 * k, x - y + k, k * depth if k != 23.0 else -7.0, ids[fb], zids[zn])
                if abs(got[p][0] - w[0]) < 1e-2 and abs(got[p][1] - w[1]) < 5e-2 and abs(got[p][2] - w[2]) < 0.4 and close(got[p][3], w[3]) and close(got[p][4], w[4]):
                    ok = True
                    break
            if not ok:
                fb, zn = label(x, y, z)
                k = {"FB one": 1.0, "FB2": 3.0, "": 0.0}[fb] + {"Z a": 10.0, "Zb": 20.0, "": 0.0}[zn]
                return "EarthVision: point %s (%r, %r, %r) in '%s', '%s', depth %r: values %s, expected %s (%s): %s" % (q, x, y, z, fb, zn, depth, got[p].tolist(), (depth + 1e5 * k, x - y + k, k * depth if k != 23.0 else -7.0, ids[fb], zids[zn]), how, what)
    n = b.get_dims()
    if n[0] * n[1] * n[2] < 2:
        return
    r = compare(s.get_values(b, tops, topo), (0, 0, 0), n, "whole block")
    if r:
        return r
    for bt in b.get_batches(rng.choice([4, 9, 20])):
        sh = [c[1] - c[0] for c in (bt.x_range, bt.y_range, bt.z_range)]
        if sh[0] * sh[1] * sh[2] < 2:
            continue
        r = compare(s.get_values(b, tops, topo, bt), (bt.x_range[0], bt.y_range[0], bt.z_range[0]), sh, "batch %s %s %s" % (bt.x_range, bt.y_range, bt.z_range))
        if r:
            return r


KINDS = [("CSV", csv_case), ("EMC", emc_case), ("EarthVision", ev_case)]
k = 0
while more():
    name, f = KINDS[k % 3]
    k += 1
    case(name)
    state = rng.getstate()
    r = guarded("values of the %s source" % name, f)
    if r:
        fail("values of the %s source" % name, r)
done()
