"""Contracts of geomodelgrids::utils::GeoTiff over GDAL (C24): what is written is what is read."""
from ..spec import *

GT = U + "GeoTiff"
GREF = 91
COLS, ROWS, BANDS = z3.Ints("num_cols num_rows num_bands")
TRF = z3.Const("transform", z3.ArraySort(I, R))
LABELS = z3.Const("labels", z3.ArraySort(I, I))
NODATA_ = z3.Real("nodata")
CRS = z3.Int("crs_text")
CRSOBJ, WKT = z3.Function("PJ_OF", I, I), z3.Function("PJ_WKT", I, I)
BAND = lambda n: simp(n + 10000)               # handle of a band of the open dataset
BANDNO = lambda h: simp(h - 10000)
E_NONE, E_W, E_R, E_F32, E_RO = [z3.Int("E:" + x) for x in ("CE_None", "GF_Write", "GF_Read", "GDT_Float32", "GA_ReadOnly")]
AI, AR = z3.ArraySort(I, I), z3.ArraySort(I, R)
GH = Ty("ghost")
# the file on disk: dimensions, geographic transformation, labels, NODATA values, projection, cells (band sequential)
FILE0 = dict(cols=z3.Int("f_cols"), rows=z3.Int("f_rows"), bands=z3.Int("f_bands"), tr=z3.Const("f_tr", AR), label=z3.Const("f_label", AI), nd=z3.Const("f_nd", AR), wkt=z3.Int("f_wkt"), data=z3.Const("f_data", AR))


def g(st, k):
    return st.ghost["f_" + k].t[0]


def setg(st, k, v):
    st.ghost["f_" + k] = V(GH, [v])


def cells(c, r, b):
    return c * r * b


def init(ex, st, registered=True, old=False):
    for k, v in FILE0.items():
        setg(st, k, v)
    st.ghost["registered"] = V(BOOL, [z3.BoolVal(registered)])
    st.ghost["ds"] = V(SIZE, [z3.Int("old_dataset") if old else ival(0)])      # the dataset that is open; 0: none
    st.ghost["mode"] = V(SIZE, [ival(0)])
    st.ghost["ioerr"] = V(SIZE, [ival(0)])
    st.assume(z3.Distinct(E_W, E_R))
    st.assume(E_NONE == 0)
    st.assume(z3.And(z3.Int("old_dataset") >= 0))


def opened(ex, st, what):
    h = ival(501)
    ok = fresh("opened", B)
    ex.oblige(st, "pre", st.ghost["ds"].x == 0, "the dataset in use is closed before another is opened")
    st.ghost["ds"] = V(SIZE, [z3.If(ok, h, ival(0))])
    return ok, V(ptr(cls("GDALDataset")), [z3.If(ok, h, ival(0))])


def d_get(ex, st, this, a, fn):
    return V(ptr(cls("GDALDriver")), [simp(z3.If(st.ghost["registered"].x, ival(401), ival(0)))])


def d_create(ex, st, this, a, fn):
    ex.oblige(st, "pre", this.x == 401, "a driver")
    ex.oblige(st, "pre", a[4].x == E_F32, "cells hold single precision values")
    ok, h = opened(ex, st, "Create")
    for k, v in zip(("cols", "rows", "bands"), a[1:4]):
        setg(st, k, v.x)
    setg(st, "tr", fresh("created_tr", AR)), setg(st, "label", z3.K(I, strlit(""))), setg(st, "nd", fresh("created_nd", AR)), setg(st, "data", fresh("created_data", AR)), setg(st, "wkt", fresh("created_wkt", I))
    st.ghost["mode"] = V(SIZE, [ival(2)])
    return h


def c_gdalopen(ex, st, this, a, node):
    v = [ex.rv(x, st) for x in a]
    ex.oblige(st, "pre", v[1].x == E_RO, "opened for reading")
    ok, h = opened(ex, st, "GDALOpen")
    st.assume(z3.Implies(ok, z3.And(g(st, "cols") >= 1, g(st, "rows") >= 1, g(st, "bands") >= 0, cells(g(st, "cols"), g(st, "rows"), g(st, "bands")) < 2**60, g(st, "bands") < 2**16)))
    st.ghost["mode"] = V(SIZE, [ival(1)])
    return V(ptr(VOID), h.t)


def use(ex, st, this, what):
    ex.oblige(st, "pre", z3.And(this.x != 0, this.x == st.ghost["ds"].x), "%s is asked of the open dataset" % what)


def g_size(k):
    def f(ex, st, this, a, fn):
        use(ex, st, this, k)
        return V(INT32, [g(st, k)])
    return f


def g_setproj(ex, st, this, a, fn):
    use(ex, st, this, "SetProjection")
    setg(st, "wkt", a[0].x)
    return V(INT32, [fresh("err", I)])


def g_getproj(ex, st, this, a, fn):
    use(ex, st, this, "GetProjectionRef")
    return V(STR, [g(st, "wkt")])


def transform6(ex, st, p):
    """the six values of an array passed to GDAL: an lvalue to read or write"""
    if isinstance(p, PV) and isinstance(p.lv, Elem) and z3.is_int_value(simp(p.lv.idx)) and simp(p.lv.idx).as_long() == 0:
        return p.lv.par
    raise Unsupported("geographic transformation %r" % (p,))


def g_settr(ex, st, this, a, fn):
    use(ex, st, this, "SetGeoTransform")
    v = ex.read(st, transform6(ex, st, a[0]))
    setg(st, "tr", v.t[-1])
    return V(INT32, [fresh("err", I)])


def g_gettr(ex, st, this, a, fn):
    use(ex, st, this, "GetGeoTransform")
    par = transform6(ex, st, a[0])
    v = ex.read(st, par)
    err = fresh("err", I)
    ex.write(st, par, V(v.ty, v.t[:-1] + [z3.If(err == 0, g(st, "tr"), fresh("no_transform", AR))]))
    return V(INT32, [err])


def g_band(ex, st, this, a, fn):
    use(ex, st, this, "GetRasterBand")
    ex.oblige(st, "pre", z3.And(a[0].x >= 1, a[0].x <= g(st, "bands")), "the band exists")
    return V(ptr(cls("GDALRasterBand")), [BAND(a[0].x)])


def b_setdesc(ex, st, this, a, fn):
    setg(st, "label", z3.Store(g(st, "label"), BANDNO(this.x), a[0].x))
    return V(VOID, [])


def b_setnd(ex, st, this, a, fn):
    setg(st, "nd", z3.Store(g(st, "nd"), BANDNO(this.x), a[0].x))
    return V(INT32, [fresh("err", I)])


def b_getdesc(ex, st, this, a, fn):
    r = z3.Select(g(st, "label"), BANDNO(this.x))
    st.assume(r != 0)
    return V(STR, [r])


def zero(v):
    return v.x == 0 if v.t is not None and len(v.t) == 1 else v.t[0] == 0


def g_rasterio(ex, st, this, a, fn):
    use(ex, st, this, "RasterIO")
    rw, x0, y0, xs, ys, buf, bx, by, ty, nb = a[:10]
    c, r, b = g(st, "cols"), g(st, "rows"), g(st, "bands")
    ex.oblige(st, "pre", z3.And(x0.x == 0, y0.x == 0, xs.x == c, ys.x == r, bx.x == c, by.x == r, nb.x == b), "the whole raster, every band, at its own resolution")
    ex.oblige(st, "pre", z3.And([ty.x == E_F32] + [zero(v) for v in a[10:]]), "single precision values, band after band, without gaps")
    ex.oblige(st, "pre", z3.Or(z3.And(rw.x == E_R, st.ghost["mode"].x == 1), z3.And(rw.x == E_W, st.ghost["mode"].x == 2)), "read from a file opened for reading, write to one that was created")
    base, off = (buf.lv.base, buf.lv.off) if isinstance(buf, PV) else buf.t
    ex.oblige(st, "bounds", z3.And(base != 0, off == 0, ex.LEN(base) >= cells(c, r, b)), "the buffer holds every cell")
    k = ex.mkey(REAL)
    m = ex.cellof(st, "mem", k)[0]
    err = fresh("err", I)
    st.ghost["ioerr"] = V(SIZE, [err])
    j = z3.Int(fresh_name("j"))
    inside = z3.And(j >= 0, j < cells(c, r, b))
    old = z3.Select(m, base)
    if ex.valid(st, rw.x == E_W):
        setg(st, "data", z3.If(err == 0, z3.Lambda([j], z3.If(inside, z3.Select(old, j), z3.Select(g(st, "data"), j))), fresh("bad_data", AR)))
    else:
        st.mem[k] = [z3.Store(m, base, z3.If(err == 0, z3.Lambda([j], z3.If(inside, z3.Select(g(st, "data"), j), z3.Select(old, j))), fresh("bad_cells", AR)))]
    return V(INT32, [err])


def c_gdalclose(ex, st, this, a, node):
    v = ex.rv(a[0], st)
    ex.oblige(st, "pre", z3.And(v.x != 0, v.x == st.ghost["ds"].x), "GDALClose is given the open dataset")
    st.ghost["ds"] = V(SIZE, [ival(0)])
    return V(INT32, [ival(0)])


def c_reg(on):
    def f(ex, st, this, a, node):
        st.ghost["registered"] = V(BOOL, [z3.BoolVal(on)])
        return V(VOID, [])
    return f


CHARPP = Ty("ptr", Ty("ptr", INT(8, True)))


def c_csl(ex, st, this, a, node):
    v = [ex.rv(x, st) for x in a]
    return V(ptr(VOID), [fresh("options", I), ival(0)])


def c_wkt(ex, st, this, a, node):
    p = ex.rv(a[1], st)
    w = z3.If(p.x == 0, ival(0), WKT(p.x))
    st.assume(WKT(p.x) > 0)
    return V(STR, [w])


CON = {"::GetGDALDriverManager": lambda ex, st, this, a, node: V(ptr(cls("GDALDriverManager")), [ival(301)]), "GDALDriverManager::GetDriverByName": d_get, "GDALDriver::Create": d_create,
       "::GDALOpen": c_gdalopen, "GDALDataset::GetRasterXSize": g_size("cols"), "GDALDataset::GetRasterYSize": g_size("rows"), "GDALDataset::GetRasterCount": g_size("bands"),
       "GDALDataset::SetProjection": g_setproj, "GDALDataset::GetProjectionRef": g_getproj, "GDALDataset::SetGeoTransform": g_settr, "GDALDataset::GetGeoTransform": g_gettr,
       "GDALDataset::GetRasterBand": g_band, "GDALRasterBand::SetDescription": b_setdesc, "GDALRasterBand::SetNoDataValue": b_setnd, "GDALRasterBand::GetDescription": b_getdesc,
       "GDALMajorObject::SetDescription": b_setdesc, "GDALMajorObject::GetDescription": b_getdesc,
       "GDALDataset::RasterIO": g_rasterio, "::GDALClose": c_gdalclose, "::GDALAllRegister": c_reg(True), "::GDALDestroyDriverManager": c_reg(False),
       "::CSLSetNameValue": c_csl, "::CSLDestroy": lambda ex, st, this, a, node: V(VOID, []),
       "::proj_create": lambda ex, st, this, a, node: V(ptr(cls("PJ")), [CRSOBJ(ex.rv(a[1], st).x)]), "::proj_as_wkt": c_wkt, "::proj_destroy": lambda ex, st, this, a, node: V(VOID, [])}


def fields(ex, st, buffer=None):
    t = this_obj(ex, st, GT, GREF)
    for f, v in (("_numCols", COLS), ("_numRows", ROWS), ("_numBands", BANDS), ("_noDataValue", NODATA_), ("_crs", CRS)):
        setf(ex, st, GREF, GT, f, v)
    fl = ex.field(st, ival(GREF), GT, "_transform")
    v = ex.read(st, fl)
    ex.write(st, fl, V(v.ty, v.t[:-1] + [TRF]))
    fl = ex.field(st, ival(GREF), GT, "_bandLabels")
    v = ex.read(st, fl)
    ex.write(st, fl, V(v.ty, [z3.Int("num_labels"), LABELS]))
    st.assume(z3.And(COLS >= 1, ROWS >= 1, BANDS >= 1, COLS < 2**31, ROWS < 2**31, BANDS < 2**16, cells(COLS, ROWS, BANDS) < 2**60, z3.Int("num_labels") >= 0, CRS != 0))
    setf(ex, st, GREF, GT, "_dataset", st.ghost["ds"].x)
    return t


def fld(ex, st, f):
    return getf(ex, st, GREF, GT, f)


def row_of(ex, st, base):
    return z3.Select(ex.cellof(st, "mem", ex.mkey(REAL))[0], base)


def t_create():
    def setup(ex, st):
        init(ex, st, old=True)
        t = fields(ex, st)
        st.assume(z3.Int("num_labels") == BANDS)
        return dict(this=t, args=[V(STR, [z3.Int("filename")])], inputs={"cols": COLS, "rows": ROWS, "bands": BANDS})

    def post(ex, st, o, ret):
        i = z3.Int("i")
        w = CRSOBJ(CRS)
        return [("the file has the size of the raster", z3.And(g(st, "cols") == COLS, g(st, "rows") == ROWS, g(st, "bands") == BANDS)),
                ("the file has the bounding box of the raster", z3.And([z3.Select(g(st, "tr"), k) == z3.Select(TRF, k) for k in range(6)])),
                ("the file has the band labels", z3.Implies(z3.And(i >= 0, i < BANDS), z3.Select(g(st, "label"), i + 1) == z3.Select(LABELS, i))),
                ("the file has the NODATA value", z3.Implies(z3.And(i >= 0, i < BANDS), z3.Select(g(st, "nd"), i + 1) == NODATA_)),
                ("the file has the CRS", g(st, "wkt") == z3.If(w == 0, ival(0), WKT(w))),
                ("the dataset is kept", z3.And(fld(ex, st, "_dataset").x == st.ghost["ds"].x, st.ghost["ds"].x != 0)),
                ("the raster is not changed", z3.And(fld(ex, st, "_numCols").x == COLS, fld(ex, st, "_numRows").x == ROWS, fld(ex, st, "_numBands").x == BANDS))]

    def exc(ex, st, o, e):
        return [("an error only if the file cannot be created", st.ghost["ds"].x == 0)]
    return Task(GT + "::create", setup, post, exc, name="GeoTiff::create", contracts=CON)


def t_write():
    def setup(ex, st):
        init(ex, st, old=True)
        t = fields(ex, st)
        st.assume(st.ghost["ds"].x > 0)
        st.ghost["mode"] = V(SIZE, [ival(2)])
        st.assume(z3.And(g(st, "cols") == COLS, g(st, "rows") == ROWS, g(st, "bands") == BANDS))
        p, r = symarr(ex, st, 601, cells(COLS, ROWS, BANDS), REAL, "cells")
        setf(ex, st, GREF, GT, "_buffer", p)
        return dict(this=t, args=[], r=r, inputs={"cols": COLS, "rows": ROWS, "bands": BANDS})

    def post(ex, st, o, ret):
        i = z3.Int("i")
        return [("every cell is written", z3.Implies(z3.And(i >= 0, i < cells(COLS, ROWS, BANDS)), z3.Select(g(st, "data"), i) == z3.Select(o["r"], i))),
                ("nothing else of the file changes", z3.And([g(st, k) == FILE0[k] for k in ("tr", "label", "nd", "wkt")])),
                ("the raster is not changed", row_of(ex, st, ival(601)) == o["r"])]
    return Task(GT + "::write", setup, post, lambda ex, st, o, e: [("an error only if GDAL cannot write", st.ghost["ioerr"].x != 0)], name="GeoTiff::write", contracts=CON)


def t_read():
    def setup(ex, st):
        init(ex, st, old=True)
        t = fields(ex, st)
        return dict(this=t, args=[V(STR, [z3.Int("filename")])], inputs={"cols": FILE0["cols"], "rows": FILE0["rows"], "bands": FILE0["bands"]})

    def post(ex, st, o, ret):
        i = z3.Int("i")
        F = FILE0
        n = cells(F["cols"], F["rows"], F["bands"])
        b = fld(ex, st, "_buffer")
        lab = fld(ex, st, "_bandLabels")
        tr = fld(ex, st, "_transform")
        return [("the size is that of the file", z3.And(fld(ex, st, "_numCols").x == F["cols"], fld(ex, st, "_numRows").x == F["rows"], fld(ex, st, "_numBands").x == F["bands"])),
                ("the bounding box is that of the file", z3.And([z3.Select(tr.t[-1], k) == z3.Select(F["tr"], k) for k in range(6)])),
                ("the band labels are those of the file", z3.And(lab.t[0] == F["bands"], z3.Implies(z3.And(i >= 0, i < F["bands"]), z3.Select(lab.t[1], i) == z3.Select(F["label"], i + 1)))),
                ("the CRS is that of the file", z3.Implies(F["wkt"] != 0, fld(ex, st, "_crs").x == F["wkt"])),
                ("every cell is that of the file", z3.And(b.t[0] != 0, b.t[1] == 0, ex.LEN(b.t[0]) >= n, z3.Implies(z3.And(i >= 0, i < n), z3.Select(row_of(ex, st, b.t[0]), i) == z3.Select(F["data"], i)))),
                ("the file is not changed", z3.And([g(st, k) == F[k] for k in F]))]

    def exc(ex, st, o, e):
        return [("nothing is left open", z3.And(st.ghost["ds"].x == 0, fld(ex, st, "_dataset").x == 0, fld(ex, st, "_buffer").t[0] == 0))]
    return Task(GT + "::read", setup, post, exc, name="GeoTiff::read", contracts=CON)


def t_close():
    def setup(ex, st):
        init(ex, st, old=True)
        return dict(this=fields(ex, st), args=[])

    def post(ex, st, o, ret):
        return [("the file is closed", z3.And(st.ghost["ds"].x == 0, fld(ex, st, "_dataset").x == 0)), ("the buffer is released", fld(ex, st, "_buffer").t[0] == 0),
                ("GDAL stays usable", st.ghost["registered"].x), ("nothing of the file changes", z3.And([g(st, k) == FILE0[k] for k in FILE0]))]
    return [Task(GT + "::close", setup, post, None, name="GeoTiff::close", contracts=CON), Task(GT + "::~GeoTiff", setup, lambda ex, st, o, ret: [("the file is closed", st.ghost["ds"].x == 0), ("GDAL stays usable for other objects", st.ghost["registered"].x)], None, name="GeoTiff::~GeoTiff", contracts=CON)]


def t_bbox():
    a = z3.Reals("minX maxX minY maxY")

    def s1(ex, st):
        init(ex, st)
        return dict(this=fields(ex, st), args=[V(REAL, [v]) for v in a], inputs=dict(zip(("minX", "maxX", "minY", "maxY"), a)))

    def p1(ex, st, o, ret):
        tr = fld(ex, st, "_transform").t[-1]
        T = [z3.Select(tr, k) for k in range(6)]
        return [("the west edge", T[0] == a[0]), ("the east edge", T[0] + T[1] * COLS == a[1]), ("the north edge", T[3] == a[3]), ("the south edge", T[3] + T[5] * ROWS == a[2]),
                ("no rotation", z3.And(T[2] == 0, T[4] == 0))]

    def s2(ex, st, skip=None):
        init(ex, st)
        t = fields(ex, st)
        for k in ("minX", "maxX", "minY", "maxY"):
            st.loc[k] = V(REAL, [z3.Real("old_" + k)])
        return dict(this=t, args=[PV(PREAL, Local(k, REAL)) if k != skip else V(Ty("null"), [ival(0)]) for k in ("minX", "maxX", "minY", "maxY")])

    def p2(skip=None):
        def f(ex, st, o, ret):
            T = [z3.Select(TRF, k) for k in range(6)]
            want = {"minX": T[0], "maxX": T[0] + T[1] * COLS, "maxY": T[3], "minY": T[3] + T[5] * ROWS}
            return [("%s" % k, st.loc[k].x == want[k]) for k in want if k != skip]
        return f
    r = [Task(GT + "::setBBox", s1, p1, None, name="GeoTiff::setBBox", contracts=CON), Task(GT + "::getBBox", s2, p2(), None, name="GeoTiff::getBBox", contracts=CON)]
    for k in ("minX", "maxX", "minY", "maxY"):
        r.append(Task(GT + "::getBBox", lambda ex, st, k=k: s2(ex, st, k), p2(k), None, name="GeoTiff::getBBox without %s" % k, contracts=CON))
    return r


def t_set(m, f, ty, bad=False):
    def setup(ex, st):
        init(ex, st)
        v = z3.Int("value") if ty is not REAL else z3.Real("value")
        if ty is SIZE:
            st.assume(v >= 0)
        return dict(this=fields(ex, st), args=[V(ty, [v])], v=v, old=st.fork())

    def post(ex, st, o, ret):
        others = [k for k in ("_numCols", "_numRows", "_numBands", "_noDataValue", "_crs") if k != f]
        ok = {SIZE: o["v"] > 0, STR: z3.And(o["v"] != 0, o["v"] != strlit(""))}.get(ty, z3.BoolVal(True))
        return [("the value is kept", z3.And(ok, fld(ex, st, f).x == o["v"])), ("nothing else changes", z3.And([fld(ex, st, k).x == fld(ex, o["old"], k).x for k in others]))]

    def exc(ex, st, o, e):
        return [("only an unusable value is refused", {SIZE: o["v"] == 0, STR: z3.Or(o["v"] == 0, o["v"] == strlit(""))}.get(ty, z3.BoolVal(False)))]
    return Task(GT + "::" + m, setup, post, exc, name="GeoTiff::" + m, contracts=CON)


def t_get(m, f):
    def setup(ex, st):
        init(ex, st)
        return dict(this=fields(ex, st), args=[])
    return Task(GT + "::" + m, setup, lambda ex, st, o, ret: [("%s gives %s" % (m, f), ret.x == {"_numCols": COLS, "_numRows": ROWS, "_numBands": BANDS, "_crs": CRS}[f])], None, name="GeoTiff::" + m, contracts=CON)


def t_labels():
    def setup(ex, st):
        init(ex, st)
        t = fields(ex, st)
        st.loc["labels"] = V(Ty("tmpl", (STR,), None, "vector"), [z3.Int("n"), z3.Const("new_labels", AI)])
        st.assume(z3.Int("n") >= 0)
        return dict(this=t, args=[Alias(Local("labels", Ty("tmpl", (STR,), None, "vector")))])

    def post(ex, st, o, ret):
        i = z3.Int("i")
        v = fld(ex, st, "_bandLabels")
        return [("one label for each band", z3.And(v.t[0] == BANDS, z3.Int("n") == BANDS)), ("the labels are kept", z3.Implies(z3.And(i >= 0, i < BANDS), z3.Select(v.t[1], i) == z3.Select(z3.Const("new_labels", AI), i)))]
    return Task(GT + "::setBandLabels", setup, post, lambda ex, st, o, e: [("only the wrong number of labels is refused", z3.Int("n") != BANDS)], name="GeoTiff::setBandLabels", contracts=CON)


def t_bands():
    def setup(ex, st):
        init(ex, st)
        t = fields(ex, st)
        b = z3.Int("old_buffer")
        st.assume(z3.Or(b == 0, z3.And(b > 0, ex.LEN(b) == cells(COLS, ROWS, BANDS))))
        setf(ex, st, GREF, GT, "_buffer", V(ptr(REAL), [b, ival(0)]))
        return dict(this=t, args=[], b=b)

    def post(ex, st, o, ret):
        b = fld(ex, st, "_buffer")
        return [("the buffer holds every cell", z3.And(ret.t[0] != 0, ret.t[1] == 0, ex.LEN(ret.t[0]) >= cells(COLS, ROWS, BANDS), ret.t[0] == b.t[0])), ("an existing buffer is kept", z3.Implies(o["b"] != 0, ret.t[0] == o["b"]))]
    return Task(GT + "::getBands", setup, post, None, name="GeoTiff::getBands", contracts=CON)


def tasks():
    return [t_create(), t_write(), t_read()] + t_close() + t_bbox() + [t_set("setNumRows", "_numRows", SIZE), t_set("setNumCols", "_numCols", SIZE), t_set("setNumBands", "_numBands", SIZE), t_set("setNoDataValue", "_noDataValue", REAL),
            t_set("setCRS", "_crs", STR), t_get("getNumRows", "_numRows"), t_get("getNumCols", "_numCols"), t_get("getNumBands", "_numBands"), t_get("getCRS", "_crs"), t_labels(), t_bands()]
