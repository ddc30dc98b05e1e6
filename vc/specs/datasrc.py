"""C27: contracts of the data sources (geomodelgrids/create/data_srcs): every value belongs to its own grid point.

CSV: loop over the rows as a store at a computed position (the last store of a point counts); the index is that of the nearest grid point.
EMC: the array is the transposed box of the variable.  EarthVision: one record per point in row-major order, rule and ids of that record."""
import re
import z3
from ..pyvc import *
from ..pyvc import TXT, tterm, COS, SIN, Fraction
from . import builder as bld

CSV = "geomodelgrids.create.data_srcs.csv.datasrc:CSVFile"
EMC = "geomodelgrids.create.data_srcs.iris_emc.datasrc:EMCNetCDF"
EV = "geomodelgrids.create.data_srcs.earthvision.datasrc:RulesDataSrc"
LEN = "geomodelgrids.create.utils.units:length_scale"
LISTS = "geomodelgrids.create.utils.config:string_to_list"
NODATA = z3.RealVal("-100000000000000000000")
NAMES = ("density", "Vp", "Vs")


def program(repo):
    return PyProgram(repo)


def by_name(c):
    return {k.split(":")[-1]: f for k, f in c.items()}


def iv(n):
    return z3.Int(n)


def rv(n):
    return z3.Real(n)


def as_list(run, a, k):
    v = run.force(a[0])
    if not isinstance(v, (list, Seq)):
        raise Unsupported("list of the configuration")
    return v


def digits(t):
    return Opaque("text", "str", truth=True, attrs={"int": t, "float": z3.ToReal(t)})


def decimal(t):
    return Opaque("text", "str", truth=True, attrs={"float": t})


def inside(idx, n):
    return z3.And([z3.And(term(i) >= 0, term(i) < term(m)) for i, m in zip(idx, n)])


# ---------------------------------------------------------------- CSV
DATA = ufun("csv_data", I, I, R)
AXES = [ufun("model_%s_of_row" % a, I, R) for a in "xyz"]
VERT = [ufun("vertex_%s_of_row" % a, I, I) for a in "xyz"]


def csv_config():
    return {"csv": {"filename": "points.csv", "crs": "CRS of the file", "comment_flag": "%"}, "data": {"values": list(NAMES)},
            "csv.columns": {n: digits(iv("column_" + n)) for n in NAMES + ("x", "y", "z")},
            "coordsys": {"crs": "CRS of the model", "origin_x": decimal(rv("origin_x")), "origin_y": decimal(rv("origin_y")), "y_azimuth": decimal(rv("y_azimuth"))}}


def loadtxt(run, a, k):
    if a != ["points.csv"] or set(k) - {"comments", "ndmin"} or k.get("comments") != "%" or k.get("ndmin", 0) not in (0, 2):
        raise Unsupported("arguments of loadtxt")
    # at least one row; two columns (x and y) or more
    run.assume(z3.And(iv("num_rows") >= 1, iv("num_columns") >= 2))
    if k.get("ndmin") != 2 and run.branch(iv("num_rows") == 1):
        return Arr(run, [iv("num_columns")], lambda idx: DATA(z3.IntVal(0), term(idx[0])), "real")
    return Arr(run, [iv("num_rows"), iv("num_columns")], lambda idx: DATA(term(idx[0]), term(idx[1])), "real")


def csv_block(run, kinds):
    nb = [iv("n" + a) for a in "xyz"]
    run.assume(z3.And([n >= 1 for n in nb]))
    at, pos = {}, []
    for a, k, n in zip("xyz", kinds, nb):
        if k == "u":
            r = rv(a + "_resolution")
            run.assume(r > 0)
            at[a + "_resolution"], at[a + "_coordinates"] = r, None
            pos.append((lambda i, r=r: z3.ToReal(term(i)) * r) if a != "z" else (lambda i, r=r: rv("z_top") - z3.ToReal(term(i)) * r))
        else:
            f = ufun(a + "_coordinate", I, R)
            at[a + "_resolution"], at[a + "_coordinates"] = None, Seq(n, lambda i, f=f: f(term(i)), "tuple")
            pos.append(lambda i, f=f: f(term(i)))
    at["z_top"] = rv("z_top")
    b = Obj("block", at, partial=True, methods={"get_dims": lambda r, a, k: tuple(nb)})
    return b, nb, pos


def vertex_of(run, kinds, nb, pos, r):
    """precondition: row r is (within rounding) at a grid point of the block: nearer to it than to any other"""
    c = []
    for a, k, n, p, x, g in zip("xyz", kinds, nb, pos, AXES, VERT):
        c.append(z3.And(g(r) >= 0, g(r) < n))
        if k == "u":
            q, res = x(r), rv(a + "_resolution")
            d = (q if a != "z" else rv("z_top") - q) / res - z3.ToReal(g(r))
            c.append(z3.And(d < z3.RealVal("1/2"), d > z3.RealVal("-1/2")))
        else:
            run.ghost.setdefault("argmin_at", [])
            if not any(t.eq(g(r)) for t in run.ghost["argmin_at"]):
                run.ghost["argmin_at"].append(g(r))
                ab = lambda t: z3.If(t >= 0, t, -t)

                def hook(j, m, g=g, r=r, p=p, x=x, n=n):
                    run.assume(z3.Implies(z3.And(r >= 0, r < iv("num_rows"), j >= 0, j < n, j != g(r)), ab(p(g(r)) - x(r)) < ab(p(j) - x(r))))
                run.ghost.setdefault("argmin_hooks", []).append(hook)
    run.assume(z3.Implies(z3.And(r >= 0, r < iv("num_rows")), z3.And(c)))


def csv_task(kinds):
    def setup(run):
        b, nb, pos = csv_block(run, kinds)
        cols = csv_config()["csv.columns"]
        for n in NAMES + ("x", "y", "z"):
            run.assume(z3.And(iv("column_" + n) >= 0, iv("column_" + n) < iv("num_columns")))
        cls = run.find(CSV)

        def to_model(r, a, k):
            d = a[-1]
            if isinstance(d, Arr) and len(d.shape) == 1:
                raise Raised("IndexError", line=r.line)
            if not isinstance(d, Arr) or len(d.shape) != 2 or simp(term(d.shape[0]) == iv("num_rows")) is not True:
                raise Unsupported("argument of _to_model_xyz")

            def elem(f):
                def fn(idx):
                    vertex_of(r, kinds, nb, pos, term(idx[0]))
                    return f(term(idx[0]))
                return Arr(r, [iv("num_rows")], fn, "real")
            return tuple(elem(f) for f in AXES)
        run.contracts = dict(run.contracts)
        run.contracts["CSVFile._to_model_xyz"] = to_model
        o = Obj(cls, {"config": csv_config()}, partial=True)
        return dict(func=cls.find("get_values"), args=[o, b, None, None], nb=nb, inputs={})

    def post(run, env, ret):
        nb = env["nb"]
        if not isinstance(ret, Arr) or len(ret.shape) != 4:
            return [("a 4D array", False)]
        out = [("shape of the values", z3.And([term(x) == term(y) for x, y in zip(ret.shape, list(nb) + [len(NAMES)])]))]
        i = [iv("point_" + a) for a in "xyz"]
        run.assume(inside(i, nb))
        vals = [term(ret.get(tuple(i) + (c,))) for c in range(len(NAMES))]
        r = iv("any_row")
        run.instantiate(r)
        on = lambda q: z3.And(q >= 0, q < iv("num_rows"), *[g(q) == j for g, j in zip(VERT, i)])
        vertex_of(run, kinds, nb, [None] * 3, r)
        lasts = [L for L, _ in run.ghost.get("last_store", [])] or [r]
        nolater = z3.And([z3.Not(z3.And(on(L), L > r)) for L in lasts])
        none_ = z3.And([z3.Not(on(L)) for L in lasts])
        for c, n in enumerate(NAMES):
            out.append(("value %s of a point is that of the last row at that point" % n, z3.Implies(z3.And(on(r), nolater), vals[c] == DATA(r, iv("column_" + n)))))
            out.append(("value %s of a point without a row is NODATA" % n, z3.Implies(none_, vals[c] == NODATA)))
        return out
    return PyTask(CSV + ".get_values", setup, post, name="CSVFile.get_values (%s)" % kinds, contracts=by_name({LISTS: as_list}), lib=csv_lib())


def csv_lib():
    return {"numpy": dict(base_lib()["numpy"], loadtxt=Builtin("numpy.loadtxt", loadtxt)), "importlib": {"import_module": Builtin("import_module", lambda r, a, k: bad_module())}, "abc": {"ABC": Type("object"), "abstractmethod": Builtin("abstractmethod", lambda r, a, k: a[0])}}


def bad_module():
    raise Unsupported("import_module")


def csv_refuses():
    def setup(run):
        b, nb, pos = csv_block(run, "uuu")
        cls = run.find(CSV)
        o = Obj(cls, {"config": csv_config()}, partial=True)
        return dict(func=cls.find("get_values"), args=[o, b, None, None, Obj("batch", {}, partial=True)])
    return PyTask(CSV + ".get_values", setup, lambda run, env, ret: [("a batch is refused", False)], lambda run, env, e: [("a batch is refused", e.cls == "NotImplementedError")],
                  name="CSVFile.get_values (batch)", contracts=by_name({LISTS: as_list}), lib=csv_lib())


def csv_to_model():
    T = [ufun("transformed_" + a, I, R) for a in "xyz"]

    def from_crs(run, a, k):
        if len(a) + len(k) != 3:
            raise Unsupported("arguments of from_crs")
        p = dict(zip(["crs_from", "crs_to"], a))
        p.update(k)
        if p.get("crs_from") != "CRS of the file" or p.get("crs_to") != "CRS of the model" or p.get("always_xy") is not True:
            raise Unsupported("transformation")

        def transform(r, x, kw):
            if len(x) != 3 or kw:
                raise Unsupported("transform")
            for v, n in zip(x, "xyz"):
                i = iv("any_row")
                r.assume(z3.And(i >= 0, i < iv("num_rows")))
                if not isinstance(v, Arr) or len(v.shape) != 1 or not r.entails(real(v.get((i,))) == DATA(i, iv("column_" + n))):
                    raise Unsupported("coordinates of the transformation")
            return tuple(Arr(r, [iv("num_rows")], lambda idx, f=f: f(term(idx[0])), "real") for f in T)
        return Obj("transformer", methods={"transform": transform})

    def setup(run):
        cls = run.find(CSV)
        for n in ("x", "y", "z"):
            run.assume(z3.And(iv("column_" + n) >= 0, iv("column_" + n) < iv("num_columns")))
        d = loadtxt(run, ["points.csv"], {"comments": "%", "ndmin": 2})
        return dict(func=cls.find("_to_model_xyz"), args=[Obj(cls, {"config": csv_config()}, partial=True), d])

    def post(run, env, ret):
        if not isinstance(ret, tuple) or len(ret) != 3 or not all(isinstance(v, Arr) and len(v.shape) == 1 for v in ret):
            return [("three coordinates", False)]
        i = iv("any_row")
        run.assume(z3.And(i >= 0, i < iv("num_rows")))
        import math
        t = z3.simplify(rv("y_azimuth") * z3.RealVal(str(Fraction(repr(math.pi)))) / 180, som=True)
        c, s = COS(t), SIN(t)
        dx, dy = T[0](i) - rv("origin_x"), T[1](i) - rv("origin_y")
        got = [real(v.get((i,))) for v in ret]
        return [("one coordinate per row", z3.And([term(v.shape[0]) == iv("num_rows") for v in ret])), ("x of the reader's mapping", got[0] == dx * c - dy * s),
                ("y of the reader's mapping", got[1] == dx * s + dy * c), ("z is the elevation", got[2] == T[2](i))]
    lib = csv_lib()
    lib["pyproj"] = {"Transformer": Obj("Transformer", methods={"from_crs": from_crs})}
    return PyTask(CSV + "._to_model_xyz", setup, post, lib=lib)


# ---------------------------------------------------------------- EMC
NAME = ufun("value_name", I, TXT)
VAR = ufun("emc_variable", TXT, I, I, I, R)
MISSING = ufun("emc_sample_missing", TXT, I, I, I, z3.BoolSort())
SCALE = ufun("length_of_unit", TXT, R)
UNIT_V = z3.Const("vertical_unit", TXT)


def c_length(run, a, k):
    v = run.force(a[0])
    t = tterm(v)
    if t is None:
        raise Unsupported("units")
    run.assume(SCALE(t) > 0)
    return SCALE(t)


def emc_obj(run):
    n = [iv("emc_n" + a) for a in "xyz"]
    run.assume(z3.And([m >= 2 for m in n]))

    def var(r, a, k):
        v = r.force(a[0])
        if v in ("longitude", "latitude", "depth"):
            m = n[("longitude", "latitude", "depth").index(v)]
            f = ufun("emc_" + v, I, R)
            return Arr(r, [m], lambda idx: f(term(idx[0])), "real")
        t = tterm(v)
        return Arr(r, [n[2], n[1], n[0]], lambda idx: VAR(t, *[term(i) for i in idx]), "real")
    lim = {"geospatial_" + x: rv(x) for x in ("lon_min", "lon_max", "lat_min", "lat_max", "vertical_min", "vertical_max")}
    units = {"geospatial_lon_units": "degrees_east ", "geospatial_lat_units": "degrees_north", "geospatial_vertical_units": Opaque("text", "str", truth=True, term=UNIT_V)}
    return Obj("netcdf", dict(lim, variables=Obj("variables", methods={"__getitem__": var}), **units), partial=True), n


def filled(run, a, k):
    """masked array: the missing samples replaced by the value"""
    if len(a) != 2 or k or not isnum(run.force(a[1])):
        raise Unsupported("ma.filled")
    x, v = run.asarray(a[0]), real(run.force(a[1]))
    f = x.snap()

    def fn(idx):
        e = f(tuple(idx))
        if not (z3.is_expr(e) and z3.is_app(e) and e.decl().eq(VAR)):
            raise Unsupported("missing samples of a computed value")
        return z3.If(MISSING(*e.children()), v, e)
    return Arr(run, list(x.shape), fn, "real")


def sample(*a):
    return z3.If(MISSING(*a), NODATA, VAR(*a))


def emc_lib():
    return {"numpy": dict(base_lib()["numpy"], ma=Obj("numpy.ma", {"filled": Builtin("numpy.ma.filled", filled)})), "importlib": {"import_module": Builtin("import_module", lambda r, a, k: bad_module())}, "abc": {"ABC": Type("object"), "abstractmethod": Builtin("abstractmethod", lambda r, a, k: a[0])}}


def emc_values(batch):
    def setup(run):
        e, n = emc_obj(run)
        cls = run.find(EMC)
        nv = iv("num_values")
        run.assume(nv >= 1)
        names = Seq(nv, lambda i: Opaque("name", "str", truth=True, term=NAME(term(i))), "list")
        o = Obj(cls, {"config": {"data": {"values": names}}, "emc": e}, partial=True)
        b, lo, ln = bld.box(run, batch, n, "xyz")
        return dict(func=cls.find("get_values"), args=[o, Obj("block", {}, partial=True), None, None] + ([b] if batch else []), lo=lo, ln=ln, nv=nv)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 4:
            return [("a 4D array", False)]
        i, c = bld.vertex(run, env["ln"]), iv("any_value")
        run.assume(z3.And(c >= 0, c < env["nv"]))
        p = [l + j for l, j in zip(env["lo"], i)]
        return [("shape of the values", z3.And([term(x) == term(y) for x, y in zip(ret.shape, list(env["ln"]) + [env["nv"]])])),
                ("value of a point is the sample at its depth, latitude and longitude, NODATA where it is missing", real(ret.get(tuple(i) + (c,))) == sample(NAME(c), p[2], p[1], p[0]))]
    return PyTask(EMC + ".get_values", setup, post, name="EMCNetCDF.get_values (%s)" % ("batch" if batch else "block"), lib=emc_lib())


def emc_coordsys():
    def setup(run):
        e, n = emc_obj(run)
        cls = run.find(EMC)
        cfg = {"geomodelgrids": {"kept": 1}}
        for k in ("title", "id", "summary", "keywords", "history", "comment", "data_revision", "author_name", "creator_name", "author_email", "creator_email", "author_institution", "creator_institution", "acknowledgement", "reference", "license"):
            e.attrs[k] = "text"
        return dict(func=cls.find("_read_model_metadata"), args=[Obj(cls, {"config": cfg, "emc": e}, partial=True)], cfg=cfg)

    def post(run, env, ret):
        d = env["cfg"].get("coordsys") or {}
        eq_ = lambda k, w: isnum(run.force(d.get(k))) and real(run.force(d[k])) == w
        return [("longitude, latitude and ellipsoidal height", d.get("crs") == "EPSG:4979"), ("origin at the smallest longitude", eq_("origin_x", rv("lon_min"))), ("origin at the smallest latitude", eq_("origin_y", rv("lat_min"))),
                ("y axis to the north", eq_("y_azimuth", 0)), ("other settings are kept", env["cfg"]["geomodelgrids"].get("kept") == 1)]
    return PyTask(EMC + "._read_model_metadata", setup, post, lib=emc_lib())


def emc_domain():
    def setup(run):
        e, n = emc_obj(run)
        cls = run.find(EMC)
        cfg = {"domain": {"kept": 1}}
        return dict(func=cls.find("_read_domain_metadata"), args=[Obj(cls, {"config": cfg, "emc": e}, partial=True)], cfg=cfg)

    def post(run, env, ret):
        d = env["cfg"]["domain"]
        eq_ = lambda k, w: isnum(run.force(d.get(k))) and real(run.force(d[k])) == w
        return [("extent along x", eq_("dim_x", rv("lon_max") - rv("lon_min"))), ("extent along y", eq_("dim_y", rv("lat_max") - rv("lat_min"))),
                ("extent along z in metres", eq_("dim_z", (rv("vertical_max") - rv("vertical_min")) * SCALE(UNIT_V))), ("one block", d.get("blocks") == ["block"]), ("other settings are kept", d.get("kept") == 1)]
    return PyTask(EMC + "._read_domain_metadata", setup, post, contracts=by_name({LEN: c_length}), lib=emc_lib())


def emc_block():
    def setup(run):
        e, n = emc_obj(run)
        cls = run.find(EMC)
        cfg = {"block": {"chunk_size": "(1, 1, 1, 1)"}}
        return dict(func=cls.find("_read_block_metadata"), args=[Obj(cls, {"config": cfg, "emc": e}, partial=True)], cfg=cfg, n=n)

    def post(run, env, ret):
        b, n = env["cfg"]["block"], env["n"]
        s = SCALE(UNIT_V)
        eq_ = lambda k, w: isnum(run.force(b.get(k))) and real(run.force(b[k])) == w
        cells = [z3.ToReal(m - 1) for m in n]
        out = [("spacing along x", eq_("x_resolution", (rv("lon_max") - rv("lon_min")) / cells[0])), ("spacing along y", eq_("y_resolution", (rv("lat_max") - rv("lat_min")) / cells[1])),
               ("no offset of the top", eq_("z_top_offset", 0)), ("other settings are kept", b.get("chunk_size") == "(1, 1, 1, 1)")]
        if "z_coordinates" in b and "z_resolution" not in b:
            v, i = b["z_coordinates"], iv("any_depth")
            run.assume(z3.And(i >= 0, i < n[2]))
            ok = isinstance(v, Seq)
            return out + [("one coordinate per depth", ok and term(v.n) == n[2]), ("coordinate is minus the depth in metres", ok and real(v.fn(i)) == -s * ufun("emc_depth", I, R)(i))]
        j = iv("any_depth")
        run.assume(z3.And(j >= 0, j + 1 < n[2]))
        depth = ufun("emc_depth", I, R)
        even = z3.Or([z3.And(term(sh[0]) == n[2] - 1, real(f((j,))) == depth(j + 1) - depth(j), d < z3.RealVal("1/1000")) for sh, f, d in run.ghost.get("std", []) if len(sh) == 1])
        return out + [("the depths have one spacing (standard deviation below 0.001)", even), ("spacing along z in metres", eq_("z_resolution", s * (rv("vertical_max") - rv("vertical_min")) / cells[2])), ("top of the block", eq_("z_top", -s * rv("vertical_min"))), ("bottom of the block", eq_("z_bot", -s * rv("vertical_max")))]
    return PyTask(EMC + "._read_block_metadata", setup, post, contracts=by_name({LEN: c_length}), lib=emc_lib())


# ---------------------------------------------------------------- EarthVision
PT = ufun("grid_point", I, I, I, I, R)
SPT = ufun("surface_point", I, I, I, R)
TB = ufun("surface_elevation", I, I, R)
GRID = ufun("ev_grid", TXT, R, R, R)
FB, ZN = ufun("ev_fault_block", R, R, R, TXT), ufun("ev_zone", R, R, R, TXT)
RULE = ufun("ev_rule", I, TXT, TXT, R, R, R, R)
IDF, IDZ = ufun("id_of_fault_block", TXT, R), ufun("id_of_zone", TXT, R)
UH, UV = z3.Const("xy_units", TXT), z3.Const("elev_units", TXT)
LABEL = z3.Function("text_of_label", TXT, I, TXT)


def savetxt(run, a, k):
    if len(a) != 2 or set(k) - {"fmt"} or not isinstance(a[0], str):
        raise Unsupported("savetxt")
    x = run.asarray(a[1])
    if len(x.shape) != 2:
        raise Unsupported("savetxt")
    run.mut()
    run.ghost.setdefault("files", {})[a[0]] = (list(x.shape), x.snap())


def saved(run, name):
    f = run.ghost.get("files", {}).get(name)
    if f is None:
        raise Unsupported("file %r" % (name,))
    return f


def remove(run, a, k):
    run.mut()


def join(run, a, k):
    if not all(isinstance(x, str) for x in a):
        raise Unsupported("path")
    return "/".join(a)


def ev_lib():
    lib = emc_lib()
    lib["numpy"] = dict(base_lib()["numpy"], savetxt=Builtin("numpy.savetxt", savetxt))
    lib["os"] = {"path": Obj("path", methods={"join": join}), "remove": Builtin("os.remove", remove)}
    lib["sys"] = {"path": ["path of the rules"]}

    def rules(run, a, k):
        def fn(run, a, k):
            fb, zn = tterm(run.force(a[0])), tterm(run.force(a[1]))
            if fb is None or zn is None or len(a) != 2:
                raise Unsupported("argument of the rules")
            num_ = lambda t: Opaque("number", None, attrs={"float": t})
            return Builtin("rule", lambda run, x, k: tuple(num_(RULE(c, fb, zn, *[real(v) for v in x])) for c in range(3)))
        if a != ["package.rules"]:
            raise Unsupported("module of the rules")
        return Obj("rules module", {"select": Builtin("select", fn)}, partial=True)
    lib["importlib"] = {"import_module": Builtin("import_module", rules)}
    return lib


def ev_config(grids=()):
    t = lambda c: Opaque("text", "str", truth=True, term=c)
    return {"earthvision": {"xy_units": t(UH), "elev_units": t(UV), "geologic_model": "geo.seq", "rules_fn": "package.rules.select", "rules_pythonpath": "path of the rules",
                            "top_surface_2grd": grids, "topography_bathymetry_2grd": grids}}


def ev_surface(method, ng=None):
    """ng grids, or any number: the loop over the grids by induction"""
    NG = iv("num_grids")
    file_ = ufun("file_of_grid", I, TXT)
    tokens = {}

    def grid(k):
        """text that stands for the name of grid k in the formula"""
        t = "grid<%s>" % re.sub(r"\s+", "", str(term(k)))
        tokens[t] = term(k)
        return t

    def setup(run):
        n = [iv("nx"), iv("ny")]
        run.assume(z3.And([m >= 1 for m in n]))
        run.assume(NG >= 1)
        nc = iv("num_coordinates")
        run.assume(nc >= 2)
        pts = Arr(run, n + [nc], lambda idx: SPT(*[term(i) for i in idx]), "real")
        grids = [grid(g) for g in range(ng)] if ng else Seq(NG, grid, "list")

        def ev_fp(r, a, k):
            f, out = (a + [k.get("filename_out")])[:2]
            m = re.match(r"^(\S+)<elev> = bakint\((\S+), (\S+)<x>, (\S+)<y>\);$", f.strip()) if isinstance(f, str) else None
            if not m or m.group(3) != m.group(4) or "dir/" + m.group(1) != out or m.group(2) not in tokens:
                raise Unsupported("formula")
            sh, g = saved(r, "dir/" + m.group(3))
            t = file_(tokens[m.group(2)])
            return Arr(r, [sh[0]], lambda idx: GRID(t, real(g((idx[0], 0))), real(g((idx[0], 1)))), "real")
        cls = run.find(EV)
        o = Obj(cls, {"config": ev_config(grids), "model_dir": "dir", "api": Obj("api", methods={"ev_fp": ev_fp})}, partial=True)
        return dict(func=cls.find(method), args=[o, pts], n=n)

    def post(run, env, ret):
        n = env["n"]
        if not isinstance(ret, Arr) or len(ret.shape) != 3:
            return [("a 3D array", False)]
        i = bld.vertex(run, n)
        z = real(ret.get(tuple(i) + (0,)))
        w = lambda g: GRID(file_(term(g)), SPT(i[0], i[1], 0) / SCALE(UH), SPT(i[0], i[1], 1) / SCALE(UH)) * SCALE(UV)
        out = [("shape of the elevations", z3.And(term(ret.shape[0]) == n[0], term(ret.shape[1]) == n[1], term(ret.shape[2]) == 1))]
        if ng:
            for g in range(ng):
                run.assume(w(g) > NODATA)      # an elevation that a grid can hold
            return out + [("the elevation is not below any grid", z3.And([z >= w(g) for g in range(ng)])), ("the elevation is that of a grid at the point, in metres", z3.Or([z == w(g) for g in range(ng)]))]
        folds = run.ghost.get("folds", [])
        if len(folds) != 1:
            raise Unsupported("loop over the grids")
        F = folds[0]
        k, x, any_, at, last_any, last_at = iv("grids_done"), rv("highest_so_far"), iv("any_grid_before"), iv("highest_grid_before"), iv("any_grid"), iv("highest_grid")
        # invariant after k grids: not below grid any_ (if any_ < k); the elevation of grid at < k, or nothing yet
        above = lambda k, x, any_=any_: z3.Implies(z3.And(any_ >= 0, any_ < k), x >= w(any_))
        one = lambda k, x, g: z3.Or(z3.And(k == 0, x == NODATA), z3.And(g >= 0, g < k, x == w(g)))
        x2 = real(F["step"](k, i, x))
        valid = z3.And(w(k) > NODATA, k >= 0, k < NG)
        init = real(F["init"](tuple(i)))
        out += [("the loop goes over all grids", term(F["n"]) == NG), ("before the first grid: not below any grid", above(z3.IntVal(0), init)), ("before the first grid: nothing yet", one(z3.IntVal(0), init, at)),
                ("next grid: not below any grid", z3.Implies(z3.And(valid, above(k, x)), above(k + 1, x2))),
                ("next grid: elevation of one grid", z3.Implies(z3.And(valid, one(k, x, at)), z3.Or(one(k + 1, x2, at), one(k + 1, x2, k))))]
        last = F["value"](i)
        run.assume(above(NG, last, last_any))
        run.assume(one(NG, last, last_at))
        any_ = last_any
        g = last_at
        out += [("the elevation is not below any grid", z3.Implies(z3.And(any_ >= 0, any_ < NG), z >= w(any_))), ("the elevation is that of a grid at the point, in metres", z3.And(g >= 0, g < NG, z == w(g)))]
        return out
    return PyTask(EV + "." + method, setup, post, name="RulesDataSrc.%s (%s)" % (method, "%d grids" % ng if ng else "any number of grids"), contracts=by_name({LEN: c_length, LISTS: as_list}), lib=ev_lib())


def ev_values(batch, top):
    def setup(run):
        n = [iv("n" + a) for a in "xyz"]
        run.assume(z3.And([m >= 1 for m in n]))
        b, lo, ln = bld.box(run, batch, n, "xyz")
        surf, topo = Obj("top surface", {}, partial=True) if top else None, Obj("topography", {}, partial=True)
        off = rv("z_top_offset")

        def check_batch(x):
            if x is not b:
                raise Unsupported("batch argument")

        def points(r, a, k):
            p = dict(zip(["top_surface", "batch"], a))
            p.update(k)
            check_batch(p.get("batch"))
            if r.force(p.get("top_surface")) is not surf:
                raise Unsupported("surface argument")
            return Arr(r, list(ln) + [3], lambda idx: PT(*[add(l, i) if isz(term(add(l, i))) else term(add(l, i)) for l, i in zip(lo, idx)][:3], term(idx[3])), "real")

        def surface(r, a, k):
            p = dict(zip(["surface", "batch"], a))
            p.update(k)
            check_batch(p.get("batch"))
            if r.force(p.get("surface")) is not topo:
                raise Unsupported("surface argument")
            return Arr(r, list(ln[:2]), lambda idx: TB(term(add(lo[0], idx[0])), term(add(lo[1], idx[1]))), "real")
        block = Obj("block", {"z_top_offset": off}, partial=True, methods={"generate_points": points, "get_surface": surface})

        def ev_label(r, a, k):
            p = dict(zip(["filename_values", "filename_points", "filename_model", "dtype", "converters"], a))
            p.update(k)
            if p["filename_model"] != "geo.seq" or not isinstance(p["filename_values"], str) or not isinstance(p["converters"], dict):
                raise Unsupported("arguments of ev_label")
            nm = p["dtype"]["names"]
            if tuple(nm) != ("x", "y", "z", "fault_block", "zone"):
                raise Unsupported("names of the columns")
            sh, g = saved(r, "dir/" + p["filename_points"])
            conv = p["converters"]

            def label(t, c):
                # the text of the label in quotes; decode and strip give the label
                q = Opaque("label", "str", truth=True, term=t)

                def strip(run, x, kw):
                    if x != ['"']:
                        raise Unsupported("strip")
                    return q
                return Obj("bytes", methods={"decode": lambda run, x, kw: Obj("quoted", methods={"strip": strip})})

            def cell(i, c):
                at = [real(g((i, d))) for d in range(3)]
                raw = decimal(at[c]) if c < 3 else label((FB if c == 3 else ZN)(*at), c)
                return r.call(conv[c], [raw], {}) if c in conv else raw
            rec = lambda i: Obj("record", methods={"__getitem__": lambda run, x, kw: cell(i, x[0] if isinstance(x[0], int) else nm.index(x[0]))})
            return Obj("records", {"vector": (sh[0], rec)}, partial=True, methods={"__getitem__": lambda run, x, kw: Obj("column", {"vector": (sh[0], lambda i: cell(i, nm.index(x[0])))}, partial=True)})

        def ids(f):
            def get(run, a, k):
                t = tterm(run.force(a[0]))
                if t is None:
                    raise Unsupported("name")
                return Opaque("number", None, attrs={"float": f(t)})
            return Obj("ids", methods={"__getitem__": get})
        cls = run.find(EV)
        o = Obj(cls, {"config": ev_config(), "model_dir": "dir", "api": Obj("api", methods={"ev_label": ev_label}), "faultblock_ids": ids(IDF), "zone_ids": ids(IDZ)}, partial=True)
        return dict(func=cls.find("get_values"), args=[o, block, surf, topo] + ([b] if batch else []), lo=lo, ln=ln, off=off)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 4:
            return [("a 4D array", False)]
        ln, lo = env["ln"], env["lo"]
        i = bld.vertex(run, ln)
        p = [simp(l + j) if isz(term(l + j)) else l + j for l, j in zip(lo, i)]
        P = [PT(*p, z3.IntVal(c)) for c in range(3)]
        h, v = SCALE(UH), SCALE(UV)
        E = [P[0] / h, P[1] / h, P[2] / v]
        for e, s, q in zip(E, (h, h, v), P):
            run.assume(z3.Implies(s > 0, z3.And(e * s == q, s * e == q)))
        fb, zn = FB(*E), ZN(*E)
        depth = TB(p[0], p[1]) - P[2] - z3.If(p[2] == 0, env["off"], 0)
        want = [RULE(c, fb, zn, P[0], P[1], depth) for c in range(3)] + [IDF(fb), IDZ(zn)]
        out = [("shape of the values", z3.And([term(x) == term(y) for x, y in zip(ret.shape, list(ln) + [5])]))]
        for c, w in enumerate(want):
            g = term(ret.get(tuple(i) + (c,)))
            out.append(("%s of the fault block and zone of the point" % (("rule value %d" % c) if c < 3 else ("fault block id", "zone id")[c - 3]), real(g) == w))
        return out
    return PyTask(EV + ".get_values", setup, post, name="RulesDataSrc.get_values (%s%s)" % ("batch" if batch else "block", ", top surface" if top else ""), contracts=by_name({LEN: c_length, LISTS: as_list}), lib=ev_lib())


def t_length():
    unit = {"m": "1", "meter": "1", "meters": "1", "km": "1000", "kilometer": "1000", "kilometers": "1000", "ft": "0.3048", "foot": "0.3048", "feet": "0.3048"}

    def one(name, want):
        return PyTask(LEN, lambda run: dict(func=run.find(LEN), args=[name]), lambda run, env, ret: [("length of %s in metres" % name, isnum(ret) and real(ret) == z3.RealVal(want))], name="length_scale (%s)" % name)
    other = PyTask(LEN, lambda run: dict(func=run.find(LEN), args=["furlong"]), lambda run, env, ret: [("an unknown unit is refused", False)], lambda run, env, e: [("an unknown unit is refused", e.cls == "ValueError")], name="length_scale (unknown)")
    return [one(n, w) for n, w in unit.items()] + [other]


def tasks():
    import itertools
    return [csv_task("".join(k)) for k in itertools.product("uv", repeat=3)] + [csv_refuses(), csv_to_model(), emc_values(False), emc_values(True), emc_coordsys(), emc_domain(), emc_block()] + \
        [ev_surface(m, g) for m in ("get_top_surface", "get_topography_bathymetry") for g in (None, 2)] + [ev_values(b, t) for b in (False, True) for t in (False, True)] + t_length()
