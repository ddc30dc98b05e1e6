"""C23: what is stored batch by batch is the intended arrays and metadata; a loaded slice is the stored slice."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyh import *
import json as js
import io
import contextlib
import h5py
import numpy
from geomodelgrids.create.core.model import Surface, Block, Model
from geomodelgrids.create.io.hdf5 import HDF5Storage

WORDS = ["alpha", "Beta gamma", "x", "Pékin", "données √", "S.C. <a@b.c>", "1.0e-3", "a/b", "naïve; test", "日本", ""]


class Meta:
    pass


class Box:
    def __init__(self, *r):
        for n, v in zip(("x_range", "y_range", "z_range"), r):
            setattr(self, n, v)


def f32(a):
    return numpy.asarray(a, dtype=numpy.float32)


def cuts(n):
    k = rng.randint(0, min(3, n - 1))
    c = [0] + sorted(rng.sample(range(1, n), k)) + [n]
    return list(zip(c[:-1], c[1:]))


def axis(cfg, a, extent, want):
    """axis with the wanted number of points"""
    if rng.random() < 0.5:
        res = rng.choice([0.5, 1.0, 2.5, 100.0])
        cfg[a + "_resolution"] = repr(res)
        return res * (want - 1) + rng.choice([0, 0.25]) * res
    c = sorted(rng.sample(range(1, 2000), want), reverse=(a == "z"))
    cfg[a + "_coordinates"] = "[" + ", ".join(repr(0.5 * (-v if a == "z" else v)) for v in c) + "]"
    return None


def metadata(dims, ncol):
    m = Meta()
    m.dim_x, m.dim_y, m.dim_z = dims
    m.origin_x, m.origin_y, m.y_azimuth = rng.uniform(-1e6, 1e6), rng.uniform(-1e6, 1e6), rng.uniform(-360, 360)
    m.data_values = ["v%d" % i for i in range(ncol)]
    return m


def decode(v):
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, numpy.ndarray):
        return [decode(x) for x in v]
    if isinstance(v, numpy.generic):
        return v.item() if not isinstance(v, numpy.bytes_) else bytes(v).decode("utf-8")
    return v


def snapshot(fn):
    out = {}
    with h5py.File(fn, "r") as h:
        out["/"] = ({k: decode(v) for k, v in h.attrs.items()}, None)

        def visit(name, o):
            out[name] = ({k: decode(v) for k, v in o.attrs.items()}, o[()].tobytes() if isinstance(o, h5py.Dataset) else None)
        h.visititems(visit)
    return out


def check_attrs(what, got, obj):
    for info in obj.get_attributes():
        want = getattr(obj, info[0])
        want = list(want) if isinstance(want, (list, tuple)) else want
        if got.get(info[0], None) != want:
            fail("attributes of the %s" % what, "%s: stored %r, configured %r" % (info[0], got.get(info[0]), want))
            return
    extra = set(got) - {i[0] for i in obj.get_attributes()}
    if extra:
        fail("attributes of the %s" % what, "stored but not configured: %s" % extra)


fnum = 0


def storage():
    global fnum
    fnum += 1
    fn = os.path.join(SCRATCH, "m%d.h5" % fnum)
    if os.path.exists(fn):
        os.remove(fn)
    st = HDF5Storage(fn)
    n = [rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 6)]
    ncol = rng.choice([1, 2, 3, 5])
    scfg = {"chunk_size": "(%d, %d, 1)" % (rng.randint(1, n[0]), rng.randint(1, n[1]))}
    bcfg = {"chunk_size": "(%d, %d, %d, %d)" % tuple(rng.randint(1, v) for v in n + [ncol]), "z_top_offset": "0.0"}
    dims = []
    for a, w in zip("xy", n):
        d = axis(bcfg, a, None, w)
        dims.append(d if d is not None else 1000.0)
        for k in (a + "_resolution", a + "_coordinates"):
            if k in bcfg:
                scfg[k] = bcfg[k]
    d = axis(bcfg, "z", None, n[2])
    if d is not None:
        zt = rng.choice([0.0, -5.0])
        bcfg["z_top"], bcfg["z_bot"] = repr(zt), repr(zt - d)
    dims.append(5000.0)
    md = metadata(dims, ncol)
    try:
        surf = Surface(rng.choice(["top_surface", "topography_bathymetry"]), md, scfg, st)
        other_s = Surface("other_surface", md, scfg, st)
        blk, other_b = Block("blk", md, bcfg), Block("blk2", md, bcfg)
    except ValueError:
        raise
    if list(surf.get_dims()) != [n[0], n[1], 1] or list(blk.get_dims()) != n:
        return
    case("storage")
    d0 = "dims %s columns %d config %s" % (n, ncol, bcfg)
    st.create_surface(other_s)
    st.create_block(other_b)
    oe = numpy.array([rng.uniform(-9, 9) for _ in range(n[0] * n[1])]).reshape(n[0], n[1], 1)
    od = numpy.array([rng.uniform(-9, 9) for _ in range(n[0] * n[1] * n[2] * ncol)]).reshape(n + [ncol])
    st.save_surface(other_s, oe)
    st.save_block(other_b, od)
    if rng.random() < 0.3:      # another surface or block of that name, possibly with other axes
        alt, altb = dict(scfg), dict(bcfg)
        for a in "xy":
            if rng.random() < 0.5:
                for c in (alt, altb):
                    if a + "_resolution" in c:
                        del c[a + "_resolution"]
                        c[a + "_coordinates"] = "[" + ", ".join(repr(7.0 * i) for i in range(n["xy".index(a)] + rng.choice([0, 0, 1]))) + "]"
                    else:
                        del c[a + "_coordinates"]
                        c[a + "_resolution"] = "1000.0" if n["xy".index(a)] == 2 else "400.0"
        alt["chunk_size"], altb["chunk_size"] = "(1, 1, 1)", "(1, 1, 1, 1)"
        olds, oldb = Surface(surf.name, md, alt, st), Block("blk", md, altb)
        st.create_surface(olds)
        st.create_block(oldb)
        st.save_surface(olds, numpy.full(olds.get_dims(), 5.0))
        st.save_block(oldb, numpy.full(list(oldb.get_dims()) + [ncol], 5.0))
    st.create_surface(surf)
    st.create_block(blk)
    if rng.random() < 0.3:      # old contents must not survive a new creation
        st.save_surface(surf, oe + 1)
        st.save_block(blk, od + 1)
        st.create_surface(surf)
        st.create_block(blk)
    e = numpy.array([rng.uniform(-9000, 9000) for _ in range(n[0] * n[1])]).reshape(n[0], n[1], 1)
    v = numpy.array([rng.uniform(-9000, 9000) for _ in range(n[0] * n[1] * n[2] * ncol)]).reshape(n + [ncol])

    def read(kind, name):
        with h5py.File(fn, "r") as h:
            return h[kind][name][()]
    for kind, name, obj, whole, save in (("surfaces", surf.name, surf, e, st.save_surface), ("blocks", "blk", blk, v, st.save_block)):
        if rng.random() < 0.2:
            save(obj, whole)
        else:
            boxes = [(a, b) for a in cuts(n[0]) for b in cuts(n[1])]
            if kind == "blocks":
                boxes = [(a, b, c) for a, b in boxes for c in cuts(n[2])]
            rng.shuffle(boxes)
            cur = read(kind, name)
            for r in boxes:
                sl = tuple(slice(*x) for x in r)
                save(obj, whole[sl], Box(*r))
                if rng.random() < 0.3:
                    now = read(kind, name)
                    cur[sl] = f32(whole)[sl]
                    if not numpy.array_equal(now, cur):
                        fail("a batch alters only its own box (%s)" % kind, "box %s: %s" % (r, d0))
                        return
                else:
                    cur[sl] = f32(whole)[sl]
        if not numpy.array_equal(read(kind, name), f32(whole)):
            fail("all batches give the whole array (%s)" % kind, d0)
            return
    if not numpy.array_equal(read("surfaces", "other_surface"), f32(oe)) or not numpy.array_equal(read("blocks", "blk2"), f32(od)):
        fail("other datasets are unchanged", d0)
        return
    with h5py.File(fn, "r") as h:
        sa = {k: decode(x) for k, x in h["surfaces"][surf.name].attrs.items()}
        ba = {k: decode(x) for k, x in h["blocks"]["blk"].attrs.items()}
    check_attrs("surface", sa, surf)
    check_attrs("block", ba, blk)
    case("load")
    full = st.load_surface(surf)
    if not numpy.array_equal(full, f32(e)):
        fail("a loaded surface is the stored one", d0)
        return
    for _ in range(3):
        a, b = sorted(rng.sample(range(n[0] + 1), 2)), sorted(rng.sample(range(n[1] + 1), 2))
        got = st.load_surface(surf, Box(tuple(a), tuple(b)))
        if not numpy.array_equal(got, f32(e)[a[0]:a[1], b[0]:b[1]]):
            fail("a loaded slice is the stored slice", "slice %s %s: %s" % (a, b, d0))
            return
    # saved again: loading gives the new elevations
    a, b = rng.choice(cuts(n[0])), rng.choice(cuts(n[1]))
    for again in range(2):
        if again:
            e = e + rng.uniform(1, 9)
            if rng.random() < 0.5:
                st.save_surface(surf, e)
            else:
                keep, e2 = e, f32(full).astype(float)
                e2[a[0]:a[1], b[0]:b[1]] = keep[a[0]:a[1], b[0]:b[1]]
                st.save_surface(surf, keep[a[0]:a[1], b[0]:b[1]], Box(a, b))
                e = e2
        if not numpy.array_equal(st.load_surface(surf, Box(a, b)), f32(e)[a[0]:a[1], b[0]:b[1]]) or not numpy.array_equal(st.load_surface(surf), f32(e)):
            fail("a loaded slice is the stored slice", "slice %s %s saved and loaded again: %s" % (a, b, d0))
            return
    # a surface that differs from the stored one is an error
    ax = rng.choice("xy")
    bad = Surface(surf.name, md, scfg, st)
    kind = None
    if getattr(bad, ax + "_resolution"):
        setattr(bad, ax + "_resolution", getattr(bad, ax + "_resolution") * rng.choice([2.0, 1.0 + 1e-6, 0.5]))
        kind = "resolution"
    else:
        c = list(getattr(bad, ax + "_coordinates"))
        m = rng.choice(["value", "more", "less"]) if len(c) > 1 else rng.choice(["value", "more"])
        if m == "value":
            j = rng.randrange(len(c))
            c[j] += 1.0
        elif m == "more":
            c.append(c[-1] + 1.0)
        else:
            c.pop()
        setattr(bad, ax + "_coordinates", tuple(c))
        kind = "coordinates " + m
    try:
        st.load_surface(bad)
        fail("a surface that does not match the stored one is an error", "%s: %s" % (kind, d0))
    except ValueError:
        pass
    # metadata only
    case("metadata")
    before = snapshot(fn)
    new = Surface(surf.name, md, scfg, st)
    if new.x_resolution:
        new.x_resolution *= 1.5
    else:
        new.x_coordinates = tuple(x + 2 for x in new.x_coordinates)
    st.save_surface_metadata(new)
    st.save_block_metadata(blk)
    after = snapshot(fn)
    key = "surfaces/" + surf.name
    check_attrs("surface", after[key][0], new)
    if {k: x for k, x in before.items() if k != key} != {k: x for k, x in after.items() if k != key} or before[key][1] != after[key][1]:
        fail("writing metadata changes nothing else", d0)
    os.remove(fn)


SRC = '''
import numpy
class DataSrc:
    def __init__(self, config):
        self.config = config
        self.ok = 0
    def initialize(self):
        self.ok += 1
    def get_metadata(self):
        return {}
    def _surf(self, p, c):
        assert self.ok == 1
        x, y = p[:, :, 0], p[:, :, 1]
        return (c * 10 + numpy.sin(x * 1e-2 + c) * 20 + numpy.cos(y * 1.7e-2) * 10).reshape(p.shape[0], p.shape[1], 1)
    def get_top_surface(self, points):
        return self._surf(points, 1)
    def get_topography_bathymetry(self, points):
        return self._surf(points, 2)
    def get_values(self, block, top_surface, topo_bathy, batch=None):
        assert self.ok == 1
        p = block.generate_points(top_surface, batch)
        n = len(block.model_metadata.data_values)
        c = sum(map(ord, block.name)) % 7 + (100 if topo_bathy is None else len(topo_bathy.name))
        return numpy.stack([c + numpy.sin(p[..., 0] * 1e-2 * (k + 1)) * 3 + numpy.cos(p[..., 1] * 2e-2) * 5 + p[..., 2] * (k + 1) for k in range(n)], axis=3)
'''


def text():
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3))).strip()


def application():
    global fnum
    fnum += 1
    if not os.path.exists("gm_datasrc.py"):
        with open("gm_datasrc.py", "w") as f:
            f.write(SRC)
    if SCRATCH not in sys.path:
        sys.path.insert(0, SCRATCH)
    from geomodelgrids.create.apps import create_model
    import logging
    case("application")
    fn = os.path.join(SCRATCH, "a%d.h5" % fnum)
    top, bathy = [(False, False), (True, False), (True, True)][rng.randrange(3)]
    nb = rng.randint(1, 2)
    lists = {k: [rng.choice([w for w in WORDS if w]).replace(",", " ") for _ in range(rng.randint(1, 3))] for k in ("keywords", "authors", "references")}
    ncol = rng.randint(1, 3)
    head = {k: text() for k in ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_email", "creator_institution",
                                "acknowledgement", "repository_name", "repository_url", "repository_doi", "license")}
    cfg = {"geomodelgrids": dict(head)}
    cfg["geomodelgrids"].update({"keywords": "[" + ", ".join(lists["keywords"]) + "]", "authors": "[" + " | ".join(lists["authors"]) + "]",
                                 "references": "[" + "|".join(lists["references"]) + "]", "data_source": "gm_datasrc.DataSrc", "filename": fn})
    coord = {"crs": "EPSG:3311", "origin_x": repr(rng.uniform(-1e4, 1e4)), "origin_y": repr(rng.uniform(-1e4, 1e4)), "y_azimuth": repr(rng.uniform(-180, 180))}
    cfg["coordsys"] = coord
    values = ["v%d" % i for i in range(ncol)]
    units = ["m/s"] * ncol
    cfg["data"] = {"values": "[" + ", ".join(values) + "]", "units": "[" + ", ".join(units) + "]", "layout": "vertex"}
    aux = None
    if rng.random() < 0.5:
        aux = {"b": {"x": 1, "name": rng.choice(WORDS)}, "a": {"0": "zéro", "1": "un"}}
        cfg["data"]["auxiliary"] = js.dumps(aux)
    nx, ny = rng.randint(2, 7), rng.randint(2, 7)
    rx, ry = rng.choice([50.0, 100.0]), rng.choice([50.0, 100.0])
    dim_z = 1000.0
    dims = (rx * (nx - 1), ry * (ny - 1), dim_z)
    names = ["blk%d" % i for i in range(nb)]
    cfg["domain"] = {"dim_x": repr(dims[0]), "dim_y": repr(dims[1]), "dim_z": repr(dim_z), "blocks": "[" + ", ".join(names) + "]"}
    step = rng.choice([1, 2])
    srf = {"x_resolution": repr(rx / step), "y_resolution": repr(ry / step), "chunk_size": "(2, 2, 1)"}
    if top:
        cfg["top_surface"] = srf
    if bathy:
        cfg["topography_bathymetry"] = dict(srf)
    for i, b in enumerate(names):
        nz = rng.randint(1, 4)
        cfg[b] = {"x_resolution": repr(rx), "y_resolution": repr(ry), "z_resolution": "50.0", "z_top": repr(-200.0 * i), "z_bot": repr(-200.0 * i - 50.0 * (nz - 1)),
                  "z_top_offset": "-0.1", "chunk_size": "(2, 2, 1, %d)" % ncol}
    batch = None
    if rng.random() < 0.8:
        # every batch of the block and of the surfaces is within the limit
        batch = rng.randint(1, 60)
        cfg["domain"]["batch_size"] = str(batch)
    cf = os.path.join(SCRATCH, "a%d.cfg" % fnum)

    def write_cfg(names):
        # two files: later files add to the first
        keys = list(cfg)
        h = len(keys) // 2 if len(names) > 1 else len(keys)
        for nm, ks in zip(names, (keys[:h], keys[h:])):
            with open(nm, "w", encoding="utf-8") as f:
                for s in ks:
                    f.write("[%s]\n" % s)
                    for k, x in cfg[s].items():
                        f.write("%s = %s\n" % (k, x.replace("%", "%%")))
    cfiles = [cf] if rng.random() < 0.6 else [cf, cf + "2"]
    write_cfg(cfiles)
    steps = rng.choice([["all_steps"], ["import_domain", "import_surfaces", "import_blocks"], ["import_domain"], ["import_surfaces"], ["import_domain", "import_surfaces", "import_blocks", "update_metadata"],
                        ["import_surfaces", "import_blocks"]])
    cli = rng.random() < 0.4
    logging.disable(logging.CRITICAL)
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
        h.close()

    def run(flags):
        if cli:
            names = {"all_steps": "--all"}
            argv = ["gmg_create", "--config", ",".join(cfiles), "--log", os.path.join(SCRATCH, "log")] + [names.get(s, "--" + s.replace("_", "-")) for s in flags]
            if rng.random() < 0.5:
                argv.append("--quiet")
            old = sys.argv
            sys.argv = argv
            try:
                create_model.cli()
            finally:
                sys.argv = old
        else:
            create_model.App(show_progress=False, log_filename=os.path.join(SCRATCH, "log")).main(",".join(cfiles), **{s: True for s in flags})
    d0 = "steps %s cli %s batch %s top %s bathymetry %s" % (steps, cli, batch, top, bathy)
    with contextlib.redirect_stdout(io.StringIO()):
        if rng.random() < 0.5:
            run(steps)
        else:
            for s in steps:
                run([s])
    done_dom = "all_steps" in steps or "import_domain" in steps or "update_metadata" in steps
    done_srf = "all_steps" in steps or "import_surfaces" in steps
    done_blk = "all_steps" in steps or "import_blocks" in steps
    if not os.path.exists(fn):
        if done_dom or (done_srf and top) or done_blk:
            fail("the model file is written", d0)
        return
    sys.path.insert(0, SCRATCH)
    import gm_datasrc
    ref = Model(create_model.config.get_config(cfiles))
    src = gm_datasrc.DataSrc({})
    src.ok = 1

    def check_domain(got):
        want = dict(head)
        want.update(lists)
        want.update(data_values=values, data_units=units, data_layout="vertex", crs="EPSG:3311", dim_x=dims[0], dim_y=dims[1], dim_z=dim_z)
        want.update({k: float(x) for k, x in coord.items() if k != "crs"})
        for k, x in want.items():
            if got.get(k) != x:
                fail("attributes of the domain", "%s: stored %r, configured %r; %s" % (k, got.get(k), x, d0))
                return
        if js.loads(got.get("auxiliary", "null")) != (aux or {}):
            fail("attributes of the domain", "auxiliary: stored %r, configured %r; %s" % (got.get("auxiliary"), aux, d0))
        extra = set(got) - set(want) - {"auxiliary"}
        if extra:
            fail("attributes of the domain", "stored but not configured: %s" % extra)
    with h5py.File(fn, "r") as h:
        got = {k: decode(x) for k, x in h.attrs.items()}
        if done_dom:
            check_domain(got)
        elif got:
            fail("only the steps asked for", "domain: %s" % d0)
        for obj, nm, f in ((ref.top_surface, "top_surface", src.get_top_surface), (ref.topo_bathy, "topography_bathymetry", src.get_topography_bathymetry)):
            there = "surfaces" in h and nm in h["surfaces"]
            if there != bool(obj is not None and done_srf):
                fail("only the steps asked for", "%s %s: %s" % (nm, there, d0))
                continue
            if there:
                want = f(obj.generate_points())
                got = h["surfaces"][nm][()]
                if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-6, atol=1e-5):
                    fail("surface of the model file is the data source's", "%s: %s" % (nm, d0))
                check_attrs("surface", {k: decode(x) for k, x in h["surfaces"][nm].attrs.items()}, obj)
        if done_blk:
            if sorted(h["blocks"]) != sorted(names):
                fail("blocks of the model file", "%s instead of %s: %s" % (sorted(h["blocks"]), names, d0))
        elif "blocks" in h:
            fail("only the steps asked for", "blocks: %s" % d0)
    if done_blk and (done_srf or not top):
        for blk in ref.blocks:
            want = src.get_values(blk, ref.top_surface, ref.topo_bathy or ref.top_surface)
            with h5py.File(fn, "r") as h:
                got = h["blocks"][blk.name][()]
                at = {k: decode(x) for k, x in h["blocks"][blk.name].attrs.items()}
            if got.shape != want.shape or not numpy.allclose(got, want, rtol=1e-5, atol=1e-3):
                fail("block of the model file is the data source's", "%s: %s" % (blk.name, d0))
            check_attrs("block", at, blk)
    # new configuration, metadata only
    if done_dom and done_srf and done_blk:
        case("update")
        before = snapshot(fn)
        for k in head:
            if rng.random() < 0.5:
                head[k] = text()
                cfg["geomodelgrids"][k] = head[k]
        lists["keywords"] = ["new", "é"]
        cfg["geomodelgrids"]["keywords"] = "[new, é]"
        write_cfg(cfiles)
        with contextlib.redirect_stdout(io.StringIO()):
            run(["update_metadata"])
        after = snapshot(fn)
        check_domain(after["/"][0])
        if {k: x for k, x in before.items() if k != "/"} != {k: x for k, x in after.items() if k != "/"}:
            fail("updating the metadata leaves the data alone", d0)
    for f in [fn] + cfiles:
        os.remove(f)


def configuration():
    """the model objects made from configuration files hold the configured values; later files win"""
    global fnum
    fnum += 1
    case("configuration")
    from geomodelgrids.create.utils import config as cfgmod
    want, cfg = {}, {"geomodelgrids": {}, "coordsys": {}, "data": {}, "domain": {}}
    word = lambda: rng.choice(["v1.0", "A, B (C)", "USGS", "x; y", "Pékin", "a=b: c", "[1]", "1e3"])
    for k in ("title", "id", "description", "history", "comment", "version", "creator_name", "creator_email", "creator_institution", "acknowledgement", "repository_name",
              "repository_url", "repository_doi", "license"):
        want[k] = cfg["geomodelgrids"][k] = word()
    blank = lambda: " " * rng.randint(0, 2)

    def many(n, d, make):
        vs = [make() for _ in range(n)]
        o, c = rng.choice(["[]", "()"])
        return vs, o + d.join(blank() + v + blank() for v in vs) + c
    for k, d in (("keywords", ","), ("authors", "|"), ("references", "|")):
        mk = (lambda: rng.choice(["one", "two words", "3", "é"])) if d == "," else (lambda: rng.choice(["Doe, J. and Roe, R.", "Single", "A (B), C [D]"]))
        want[k], cfg["geomodelgrids"][k] = many(rng.randint(1, 3), d, mk)
    ncol = rng.randint(1, 3)
    want["data_values"], cfg["data"]["values"] = many(ncol, ",", lambda: rng.choice(["Vp", "Vs", "density", "fault_block"]))
    want["data_units"], cfg["data"]["units"] = many(ncol, ",", lambda: rng.choice(["m/s", "None", "kg/m**3"]))
    want["data_layout"] = cfg["data"]["layout"] = "vertex"
    number = lambda a=-1e5, b=1e5: rng.choice([lambda: repr(rng.uniform(a, b)), lambda: str(rng.randint(int(a), int(b))), lambda: "%.3e" % rng.uniform(a, b)])()
    cfg["coordsys"]["crs"] = want["crs"] = rng.choice(["EPSG:4326", 'PROJCS["x, y"]'])
    for s, ks in (("coordsys", ("origin_x", "origin_y", "y_azimuth")), ("domain", ("dim_x", "dim_y", "dim_z"))):
        for k in ks:
            cfg[s][k] = number(1.0 if s == "domain" else -360.0, 360.0)
            want[k] = float(cfg[s][k])
    want["auxiliary"] = {}
    if rng.random() < 0.5:
        want["auxiliary"] = {"m": {"0": "a", "1": word()}, "z": {}}
        cfg["data"]["auxiliary"] = js.dumps(want["auxiliary"])
    names = rng.sample(["top", "middle", "bottom", "Fault A", "b10", "b2", "Z"], rng.randint(1, 4))
    cfg["domain"]["blocks"] = rng.choice(["[%s]", "(%s)"]) % ",".join(blank() + n + blank() for n in names)
    grids = {}

    def grid(axes, sect):
        c, w = {}, {}
        for a in axes:
            if rng.random() < 0.5:
                c[a + "_resolution"] = number(1.0, 100.0)
                w[a + "_resolution"], w[a + "_coordinates"] = float(c[a + "_resolution"]), None
                if a == "z":
                    c["z_top"], c["z_bot"] = number(0.0, 50.0), number(-500.0, -10.0)
                    w["z_top"], w["z_bot"] = float(c["z_top"]), float(c["z_bot"])
            else:
                xs, c[a + "_coordinates"] = many(rng.randint(1, 5), ",", lambda: number(-100.0, 100.0))
                w[a + "_resolution"], w[a + "_coordinates"] = None, tuple(map(float, xs))
                if a == "z":
                    w["z_top"], w["z_bot"] = max(map(float, xs)), min(map(float, xs))
        ch, c["chunk_size"] = many(len(axes) + 1 if axes == "xyz" else 3, ",", lambda: str(rng.randint(1, 9)))
        w["chunk_size"] = tuple(map(int, ch))
        if axes == "xyz":
            c["z_top_offset"] = number(-1.0, 1.0)
            w["z_top_offset"] = float(c["z_top_offset"])
        cfg[sect], grids[sect] = c, w
    top, bathy = rng.random() < 0.5, rng.random() < 0.5
    if top:
        grid("xy", "top_surface")
    if bathy:
        grid("xy", "topography_bathymetry")
    for n in names:
        grid("xyz", n)
    fn = os.path.join(SCRATCH, "c%d.h5" % fnum)
    cfg["geomodelgrids"]["filename"] = fn
    # the values spread over files; earlier files hold other values for some of them
    nf = rng.randint(1, 3)
    parts = [{} for _ in range(nf)]
    for s in cfg:
        for k, v in cfg[s].items():
            j = rng.randrange(nf)
            parts[j].setdefault(s, {})[k] = v
            for i in range(j):
                if rng.random() < 0.3:
                    parts[i].setdefault(s, {})[k] = "overridden"
    # names may hold upper case letters
    cfg["data"]["My Key"] = "kept"
    parts[-1].setdefault("data", {})["My Key"] = "kept"
    files = []
    for i, p in enumerate(parts):
        files.append(os.path.join(SCRATCH, rng.choice("zam") + "%d_%d.cfg" % (fnum, i)))
        with open(files[-1], "w", encoding="utf-8") as f:
            for s in p:
                f.write("[%s]\n" % s + "".join("%s = %s\n" % (k, v.replace("%", "%%")) for k, v in p[s].items()))
    d0 = "files %d blocks %s" % (nf, names)
    got = cfgmod.get_config(list(files))
    if got != cfg:
        k = [(s, k) for s in cfg for k in cfg[s] if got.get(s, {}).get(k) != cfg[s][k]] or "more than configured"
        fail("configuration of the files", "%s: %s" % (k, d0))
        return
    m = Model(got)
    for k, w in want.items():
        if getattr(m.metadata, k) != w:
            fail("metadata are the configured values", "%s: %r instead of %r; %s" % (k, getattr(m.metadata, k), w, d0))
    if [b.name for b in m.blocks] != names:
        fail("blocks are those configured, in order", "%s instead of %s" % ([b.name for b in m.blocks], names))
        return
    if (m.top_surface is not None, m.topo_bathy is not None) != (top, bathy) or m.storage.filename != fn:
        fail("surfaces and file are those configured", d0)
        return
    for o, s in [(b, b.name) for b in m.blocks] + ([(m.top_surface, "top_surface")] if top else []) + ([(m.topo_bathy, "topography_bathymetry")] if bathy else []):
        if o.name != s or o.model_metadata is not m.metadata:
            fail("grids are the configured ones", "%s named %s" % (s, o.name))
        for k, w in grids[s].items():
            g = getattr(o, k)
            if (tuple(g) if isinstance(g, (list, tuple)) else g) != w:
                fail("grids hold the configured values", "%s %s: %r instead of %r" % (s, k, g, w))
    try:
        cfgmod.get_config(files + [os.path.join(SCRATCH, "missing.cfg")])
        fail("a missing configuration file is an error", d0)
    except IOError:
        pass
    bad = {s: dict(c) for s, c in got.items()}
    bad["data"]["layout"] = rng.choice(["cell", "Vertex", "", "vertexes"])
    try:
        Model(bad)
        fail("other layouts are rejected", bad["data"]["layout"])
    except NotImplementedError:
        pass
    for f in files:
        os.remove(f)


while more():
    r = rng.random()
    if r < 0.2:
        guarded("configuration", configuration)
    elif r < 0.55:
        guarded("storage", storage)
    else:
        try:
            guarded("application", application)
        except AssertionError as e:
            fail("data source used before it is initialized", str(e))
done()
