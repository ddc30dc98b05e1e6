"""Contracts of the isosurface search (C16) and raster (C17) of apps/Isosurface.cc."""
from ..spec import *
from .hyperslab import NODATA
from .apps import iso_options

IF, LS, LD, LU, IS, QU = A + "Isosurfacer", A + "LineSearch", A + "LineSearchDown", A + "LineSearchUp", A + "Isosurface", S + "Query"
QREF, SREF, APP, LREF = 61, 62, 63, 64
VAL = z3.Function("QVAL", I, R, R, R, R)              # value i of the query at a point
TOPEL, TBEL = z3.Function("Q_TOPELEV", R, R, R), z3.Function("Q_TBELEV", R, R, R)
DREALS = Ty("tmpl", (REAL,), None, "vector")
# the documented search: segment chosen among n-1 segments of width dz below zTop (down: first with a value at its lower end
# not below the target; up: from the bottom, first with a value at its upper end below the target)
SEARCH = z3.Function("SEARCH", B, I, R, R, R, R, R, I, I)      # (down, n, zTop, zBot, target, x, y, value)


def vec(ex, st, ref, c, name):
    return getf(ex, st, ref, c, name)


def c_query(ex, st, this, args, fn):
    """contract of Query::query (C07-C11): the requested values at the point, in the order requested"""
    p, x, y, z = args[0], args[1].x, args[2].x, args[3].x
    ex.oblige(st, "null", this.x != 0, "query exists")
    j = z3.Int(fresh_name("j"))
    NV = z3.Int("nvalues")
    if isinstance(p, PV) and isinstance(p.lv, Elem):
        v = ex.read(st, p.lv.par)
        ex.oblige(st, "bounds", z3.And(p.lv.idx == 0, v.t[0] >= NV), "query: room for every value")
        full = ex.valid(st, v.t[0] == NV)       # nothing beyond the values exists
        ex.write(st, p.lv.par, V(v.ty, [v.t[0], z3.Lambda([j], VAL(j, x, y, z) if full else z3.If(z3.And(j >= 0, j < NV), VAL(j, x, y, z), z3.Select(v.t[1], j)))]))
    elif isinstance(p, PV) and isinstance(p.lv, Mem) or (p.t is not None and len(p.t) == 2):
        b, o = (p.lv.base, p.lv.off) if isinstance(p, PV) else p.t
        ex.oblige(st, "bounds", z3.And(b != 0, o == 0, ex.LEN(b) >= NV), "query: room for every value")
        k = ex.mkey(REAL)
        m = ex.cellof(st, "mem", k)[0]
        old = z3.Select(m, b)
        st.mem[k] = [z3.Store(m, b, z3.Lambda([j], z3.If(z3.And(j >= 0, j < NV), VAL(j, x, y, z), z3.Select(old, j))))]
    else:
        raise Unsupported("query into %r" % (p,))
    return V(INT32, [z3.Int(fresh_name("status"))])


def c_el(f):
    def g(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, "query exists")
        return V(REAL, [f(args[0].x, args[1].x)])
    return g


QCON = {QU + "::query": c_query, QU + "::queryTopElevation": c_el(TOPEL), QU + "::queryTopoBathyElevation": c_el(TBEL)}
n, X, Y, T, IVAL = z3.Int("numpoints"), z3.Real("x"), z3.Real("y"), z3.Real("target"), z3.Int("ivalue")


def t_search(down):
    c = LD if down else LU
    zt, zb, dz = z3.Reals("zTop zBot dz")

    def setup(ex, st):
        t = this_obj(ex, st, c, LREF)
        setf(ex, st, LREF, LS, "_query", QREF)
        setf(ex, st, LREF, LS, "_numSearchPoints", n)
        setf(ex, st, LREF, LS, "_x", X)
        setf(ex, st, LREF, LS, "_y", Y)
        setf(ex, st, LREF, LS, "_vbuffer", V(DREALS, [z3.Int("nvalues"), z3.Const("vbuf", z3.ArraySort(I, R))]))
        st.assume(z3.And(n >= 3, z3.Int("nvalues") >= 1, IVAL >= 0, IVAL < z3.Int("nvalues"), zt > zb, dz * (n - 1) == zt - zb, dz > 0))
        return dict(this=t, args=[V(REAL, [v]) for v in (zt, zb, dz, T)] + [V(SIZE, [IVAL])], inputs={"n": n, "target": T, "zTop": zt, "zBot": zb})

    def post(ex, st, o, ret):
        r = ret.x
        k = z3.Int("k")
        v = lambda i: VAL(IVAL, X, Y, (zt if down else zb) + (-1 if down else 1) * z3.ToReal(i) * dz)
        ok = (lambda u: u >= T) if down else (lambda u: u < T)
        far = r + 1 if down else n - 1 - r      # the search point that ends the segment reported
        w = ("shallowest", "lower end is not below") if down else ("deepest", "upper end is below")
        last = z3.And(r == 0, z3.Not(ok(v(far))))
        return [("a segment of the interval", z3.And(r >= 0, r <= n - 2)),
                ("the segment's %s the target unless it is the first" % w[1], z3.Implies(r > 0, ok(v(far)))),
                ("no %s segment does" % ("shallower" if down else "deeper"), z3.Implies(z3.And(k >= 1, k < far), z3.Not(ok(v(k))))) if down else
                ("no deeper segment does", z3.Implies(z3.And(k >= 1, k < far, z3.Or(r > 0, ok(v(far)))), z3.Not(ok(v(k))))),
                ("the first segment when no point does", z3.Implies(z3.And(k >= 1, k < n, last), z3.Not(ok(v(k)))))]
    return Task(c + "::search", setup, post, name="LineSearch%s::search" % ("Down" if down else "Up"), contracts=QCON)


# ------------------------------------------------------------------------------------------ Isosurfacer::query
SHALLOW, TOP = z3.Bool("prefer_shallow"), z3.Real("top_elevation")
DEPTH, LV_ = z3.Real("max_depth"), z3.Int("numlevels")
TARGET = z3.Function("TARGET", I, R)
ZT = z3.Function("SEARCH_TOP", I, I, R)               # (value, level): top of the interval searched at a level
W = z3.Function("SEARCH_WIDTH", I, R)                 # its width
NV = z3.Int("nvalues")


def search_at(i, l):
    zt = ZT(i, l)
    return SEARCH(SHALLOW, n, zt, zt - W(l), TARGET(i), X, Y, i)


def definition(i, l):
    """the documented multigrid search: level l+1 searches the segment chosen at level l"""
    return [W(0) == DEPTH - z3.Q(1, 10000), ZT(i, 0) == TOP - z3.Q(1, 10000),
            W(l + 1) == W(l) / z3.ToReal(n - 1), ZT(i, l + 1) == ZT(i, l) - z3.ToReal(search_at(i, l)) * (W(l) / z3.ToReal(n - 1)), W(l) > 0, W(l + 1) > 0]


def c_search(down):
    def f(ex, st, this, args, fn):
        zt, zb, dz, t, iv = [(ex.read(st, a.lv) if isinstance(a, Alias) else a).x for a in args]
        ex.oblige(st, "pre", z3.And(zt > zb, dz * z3.ToReal(n - 1) == zt - zb), "search: the points divide the interval evenly")
        ex.oblige(st, "pre", z3.And(iv >= 0, iv < NV), "search: a value of the query")
        ex.oblige(st, "pre", SHALLOW if down else z3.Not(SHALLOW), "search: in the direction asked for")
        r = SEARCH(SHALLOW, n, zt, zb, t, X, Y, iv)
        st.assume(z3.And(r >= 0, r <= n - 2))
        # scratch values are overwritten
        j = z3.Int(fresh_name("j"))
        setf(ex, st, SREF, IF, "_vbuffer", V(DREALS, [NV, fresh("scratch", z3.ArraySort(I, R))]))
        return V(SIZE, [r])
    return f


def c_ctor(down):
    def f(ex, st, this, args, fn):
        np_, x, y = args[2].x, args[3].x, args[4].x
        ex.oblige(st, "pre", z3.And(args[0].x == QREF, np_ == n, x == X, y == Y), "line search at the point asked for, with the number of points asked for")
        return V(VOID, [])
    return f


def result(i):
    zt = ZT(i, LV_)
    zb = zt - W(LV_)
    vt, vb, t = VAL(i, X, Y, zt), VAL(i, X, Y, zb), TARGET(i)
    a = (vt - vb) / (zt - zb)
    br = z3.Or(z3.And(vt <= t, t <= vb), z3.And(vt >= t, t >= vb))
    return zt, zb, vt, vb, t, br


def t_query(surface, nodata):
    J = z3.Int("any_value")
    start_p = []

    def setup(ex, st):
        t = this_obj(ex, st, IF, SREF)
        setf(ex, st, SREF, IF, "_app", APP)
        setf(ex, st, SREF, IF, "_query", QREF)
        setf(ex, st, SREF, IF, "_numLevels", LV_)
        setf(ex, st, SREF, IF, "_vbuffer", V(DREALS, [NV, z3.Const("vbuf", z3.ArraySort(I, R))]))
        setf(ex, st, APP, IS, "_numSearchPoints", n)
        setf(ex, st, APP, IS, "_preferShallow", SHALLOW)
        setf(ex, st, APP, IS, "_maxDepth", DEPTH)
        setf(ex, st, APP, IS, "_depthSurface", surface)
        iso = getf(ex, st, APP, IS, "_isosurfaces")
        i = z3.Int("i")
        st.assume(iso.t[0] == NV)
        st.assume(z3.ForAll([i], z3.Select(iso.t[-1], i) == TARGET(i), patterns=[z3.Select(iso.t[-1], i)]))
        top = (TOPEL if surface == 1 else TBEL)(X, Y)
        st.assume(z3.And(n >= 3, NV >= 1, LV_ >= 1, DEPTH > z3.Q(1, 10000), TOP == top, (TOP == NODATA) == z3.BoolVal(nodata)))
        p, rw = symarr(ex, st, 501, NV, REAL, "values0")
        start_p[:] = [p]
        return dict(this=t, args=[p, V(REAL, [X]), V(REAL, [Y])], p=p, rw=rw, inputs={"top": TOP, "depth": DEPTH})

    def post(ex, st, o, ret):
        inr = z3.And(J >= 0, J < NV)
        v = elem(ex, st, o["p"], J)
        if nodata:
            return [("NODATA outside the models", z3.Implies(inr, v == NODATA))]
        return [(n_, z3.Implies(inr, f)) for n_, f in facts(v)]

    def facts(v):
        zt, zb, vt, vb, t, br = result(J)
        d = TOP - v            # elevation reported
        return [("a linear interpolation between the last two elevations when they bracket the target",
                 z3.Implies(z3.And(br, vt != vb), (d - zt) * (vb - vt) == (t - vt) * (zb - zt))),
                ("within them when both values are the target", z3.Implies(z3.And(br, vt == vb), z3.And(d <= zt, d >= zb))),
                ("0 when no bracket is found and the target is below the value at the top", z3.Implies(z3.And(z3.Not(br), t < vt), v == 0)),
                ("NODATA when no bracket is found otherwise", z3.Implies(z3.And(z3.Not(br), t >= vt), v == NODATA))]

    def locs(s, k):
        return [(c, v) for c, v in s.loc.items() if isinstance(v, V) and v.t is not None and len(v.t) == 1 and z3.is_expr(v.t[0]) and v.t[0].sort() == k]

    def inv(ex, s, start, K):
        """the loop over levels: the interval is the documented one; the loop over values: the values so far are final"""
        tops = [c for c, v in locs(start, R) if ex.valid(start, v.x == TOP - z3.Q(1, 10000))]
        bots = [c for c, v in locs(start, R) if ex.valid(start, v.x == TOP - DEPTH)]
        out = []
        if tops and bots:
            ints = [v.x for c, v in locs(start, I)]
            i = [x for x in ints if any(ex.valid(start, v.x == TARGET(x)) for c, v in locs(start, R))]
            if not i:
                return []
            i = i[0]
            for l in (K, K - 1):
                s.pc.extend(z3.Implies(l >= 0, f) for f in definition(i, simp(l)))
            out += [("the top of the interval is the documented one", s.loc[c].x == ZT(i, K)) for c in tops]
            out += [("the bottom of the interval is the documented one", s.loc[c].x == ZT(i, K) - W(K)) for c in bots]
            return out
        v = elem(ex, s, start_p[0], J)
        return [(n_, z3.Implies(z3.And(J >= 0, J < K), f)) for n_, f in facts(v)]
    return Task(IF + "::query", setup, post, name="Isosurfacer::query (%s, %s)" % ("top surface" if surface == 1 else "topography/bathymetry", "outside" if nodata else "inside"),
                contracts=dict(QCON, **{LD + "::search": c_search(True), LU + "::search": c_search(False), LD + "::LineSearchDown": c_ctor(True), LU + "::LineSearchUp": c_ctor(False)}),
                hooks={"inv": [] if nodata else [("Isosurfacer::query", inv)]}, budget=120)


LOG = z3.Function("fn_log", R, R)


def t_init():
    """Isosurfacer::initialize: the query is opened on the models, values and CRS asked for; the levels reach the vertical resolution"""
    VRES = z3.Real("vertical_resolution")

    def setup(ex, st):
        t = this_obj(ex, st, IF, SREF)
        setf(ex, st, SREF, IF, "_app", APP)
        setf(ex, st, SREF, IF, "_query", 0)
        setf(ex, st, APP, IS, "_numSearchPoints", n)
        setf(ex, st, APP, IS, "_vertRes", VRES)
        setf(ex, st, APP, IS, "_maxDepth", DEPTH)
        iso = getf(ex, st, APP, IS, "_isosurfaces")
        st.assume(z3.And(iso.t[0] == NV, NV >= 1, n >= 3, VRES > 0, DEPTH > z3.Q(1, 10000), LOG(z3.ToReal(n - 1)) > 0))
        st.ghost["opened"] = V(SIZE, [ival(0)])
        return dict(this=t, args=[], inputs={"numpoints": n, "maxDepth": DEPTH, "vertRes": VRES})

    J = z3.Int("any_value")

    def qinit(ex, st, this, args, fn):
        args = [ex.read(st, a.lv) if isinstance(a, Alias) else a for a in args]
        names = args[1]
        iso = getf(ex, st, APP, IS, "_isosurfaces")
        models, crs = getf(ex, st, APP, IS, "_modelFilenames"), getf(ex, st, APP, IS, "_bboxCRS")
        ok = [z3.And([x == y for x, y in zip(args[0].t, models.t)]), args[2].x == crs.x, names.t[0] == NV,
              z3.Implies(z3.And(J >= 0, J < NV), z3.Select(names.t[1], J) == z3.Select(iso.t[1], J))]
        for nm, g in zip(("the models", "the CRS", "one name per isosurface", "the names of the isosurfaces"), ok):
            ex.oblige(st, "pre", g, "query opened on " + nm)
        st.ghost["opened"] = V(SIZE, [st.ghost["opened"].x + 1])
        return V(VOID, [])

    def post(ex, st, o, ret):
        l = getf(ex, st, SREF, IF, "_numLevels").x
        vb = getf(ex, st, SREF, IF, "_vbuffer")
        return [("the query is opened once", st.ghost["opened"].x == 1), ("at least one level", l >= 1),
                ("enough levels", z3.ToReal(l) * LOG(z3.ToReal(n - 1)) >= LOG(DEPTH / VRES)),
                ("room for one value per isosurface", vb.t[0] == NV)]
    return Task(IF + "::initialize", setup, post, name="Isosurfacer::initialize", contracts={QU + "::initialize": qinit, QU + "::Query": lambda ex, st, this, args, fn: V(VOID, [])})


def levels_lemma():
    """enough levels: the last interval is no wider than the vertical resolution"""
    m, d, r, w, p, q, x, y = z3.Reals("segments maxDepth vres width power power1 lx ly")
    l = z3.Int("l")
    LOGP = z3.Real("log_of_power")
    h0 = [m >= 2, d > z3.Q(1, 10000), r > 0]
    return [("width at level 0 times power 0", h0 + [w == d - z3.Q(1, 10000), p == 1], w * p == d - z3.Q(1, 10000)),
            ("width times (points-1)^level is kept by a level", h0 + [w * p == d - z3.Q(1, 10000), q == p * m], (w / m) * q == d - z3.Q(1, 10000)),
            # x = log(power), y = log(maxDepth/vres), log increasing: (x >= y) = (power >= maxDepth/vres)
            ("power at least maxDepth/vres bounds the width", h0 + [p > 0, w * p == d - z3.Q(1, 10000), (x >= y) == (p >= d / r), x >= y], w <= r)]


# ------------------------------------------------------------------------------------------ Isosurface::run
GT, CT, EH = U + "GeoTiff", U + "CRSTransformer", U + "ErrorHandler"
CREF, EHREF, GREF = 65, 66, 67
FWD = [z3.Function("TO_XY_%d" % i, R, R, R, R) for i in range(3)]       # geographic axis order -> x, y order
BACK = [z3.Function("FROM_XY_%d" % i, R, R, R, R) for i in range(3)]
ISO = z3.Function("ISO_DEPTH", I, R, R, R)                             # depth of isosurface i at a point in the CRS given


def rowmajor(b, r, c, b2, r2, c2, ny, nx):
    """instance of the row-major lemma for three dimensions"""
    rng = z3.And(b >= 0, r >= 0, r < ny, c >= 0, c < nx, b2 >= 0, r2 >= 0, r2 < ny, c2 >= 0, c2 < nx)
    i, j = b * ny * nx + r * nx + c, b2 * ny * nx + r2 * nx + c2
    return z3.Implies(z3.And(rng, z3.Not(z3.And(b == b2, r == r2, c == c2))), i != j)


def inside_lemma(b, r, c, nb, ny, nx):
    i = b * ny * nx + r * nx + c
    return z3.Implies(z3.And(b >= 0, b < nb, r >= 0, r < ny, c >= 0, c < nx), z3.And(i >= 0, i < nb * ny * nx))


def raster_lemma():
    b, r, c, b2, r2, c2, ny, nx, nb, p, q = z3.Ints("b r c b2 r2 c2 ny nx nb rows rows2")
    h = [b >= 0, r >= 0, r < ny, c >= 0, c < nx, b2 >= 0, r2 >= 0, r2 < ny, c2 >= 0, c2 < nx]
    res, minv, maxv = z3.Reals("res min max")
    N = z3.Int("N")
    return [("cells of different columns", [c >= 0, c < nx, c2 >= 0, c2 < nx, p < q, nx > 0, (q - p) * nx >= nx], p * nx + c != q * nx + c2),
            ("rows of different bands", [r >= 0, r < ny, r2 >= 0, r2 < ny, b < b2, ny > 0, (b2 - b) * ny >= ny], b * ny + r != b2 * ny + r2),
            ("a product of a positive and a factor of at least one", [nx > 0, p < q], (q - p) * nx >= nx),
            ("cell centres from the north", [maxv - minv == N * res], minv + (z3.ToReal(N - 1 - r) + z3.Q(1, 2)) * res == maxv - (z3.ToReal(r) + z3.Q(1, 2)) * res)]


def c_xf(F):
    def g(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, "transformer exists")
        x, y, z = [ex.read(st, a.lv).x if isinstance(a, Alias) else a.x for a in args[3:6]]
        for i, p in enumerate(args[:3]):
            if isinstance(p, PV):
                ex.write(st, p.lv, V(REAL, [F[i](x, y, z)]))
            elif not (p.t is not None and z3.is_int_value(simp(p.x)) and simp(p.x).as_long() == 0):
                raise Unsupported("transform into %r" % (p,))
        return V(VOID, [])
    return g


def t_run(log, help_=False):
    b_, r_, c_ = z3.Ints("any_band any_row any_column")
    RES = z3.Real("horizRes")
    bb = dict(zip(("_minX", "_maxX", "_minY", "_maxY"), z3.Reals("bbox_minX bbox_maxX bbox_minY bbox_maxY")))
    env = {}

    def setup(ex, st):
        env.clear()
        t = this_obj(ex, st, IS, APP)
        iso = getf(ex, st, APP, IS, "_isosurfaces")
        st.assume(z3.And(iso.t[0] == NV, NV >= 1, RES > 0))
        st.assume(lib.strlen_term(getf(ex, st, APP, IS, "_bboxCRS").x) > 0)
        lf = getf(ex, st, APP, IS, "_logFilename").x
        st.assume((lib.strlen_term(lf) > 0) if log else lf == strlit(""))
        for g in ("opened", "created", "written", "closed", "finalized"):
            st.ghost[g] = V(SIZE, [ival(0)])
        argv = V(ptr(STR), [z3.Int("argv"), ival(0)])
        for nm, v in bb.items():
            setf(ex, st, APP, IS, nm, v)
        x0, y0, x1, y1 = FWD[0](bb["_minX"], bb["_minY"], z3.RealVal(0)), FWD[1](bb["_minX"], bb["_minY"], z3.RealVal(0)), FWD[0](bb["_maxX"], bb["_maxY"], z3.RealVal(0)), FWD[1](bb["_maxX"], bb["_maxY"], z3.RealVal(0))
        env.update(x0=x0, x1=x1, y0=y0, y1=y1)
        nx, ny = z3.Ints("columns rows")
        env.update(nx=nx, ny=ny)
        for k, lo, hi in ((nx, x0, x1), (ny, y0, y1)):
            # the number of cells: (max-min)/resolution rounded to the nearest
            q = (hi + z3.Q(1, 2) * RES - lo) / RES
            st.assume(z3.And(z3.ToReal(k) <= q, q < z3.ToReal(k) + 1, k >= 1))
        setf(ex, st, APP, IS, "_horizRes", RES)
        setf(ex, st, APP, IS, "_showHelp", z3.BoolVal(help_))
        st.ghost["pixels"] = V(REAL, [z3.Const("pixels0", z3.ArraySort(I, R))])
        return dict(this=t, args=[V(INT32, [z3.Int("argc")]), argv], inputs={"res": RES, "columns": nx, "rows": ny})

    def noop(ex, st, this, args, fn):
        return V(VOID, [])

    def step(g):
        def f(ex, st, this, args, fn):
            st.ghost[g] = V(SIZE, [st.ghost[g].x + 1])
            return V(VOID, [])
        return f

    def c_create(ex, st, this, args, fn):
        ref = this.x
        g = lambda nm: getf(ex, st, ref, GT, nm)
        nx, ny = env["nx"], env["ny"]
        tr = getf(ex, st, ref, GT, "_transform")
        el = lambda i: ex.read(st, Elem(HeapLV(ref, GT, "_transform"), ival(i))).x if False else None
        ex.oblige(st, "pre", args[0].x == getf(ex, st, APP, IS, "_outputFilename").x, "raster written to the file asked for")
        ex.oblige(st, "pre", z3.And(g("_numCols").x == nx, g("_numRows").x == ny, g("_numBands").x == NV), "raster dimensions")
        ex.oblige(st, "pre", g("_crs").x == getf(ex, st, APP, IS, "_bboxCRS").x, "raster CRS")
        ex.oblige(st, "pre", g("_bandLabels").t[0] == NV, "one label per band")
        st.ghost["created"] = V(SIZE, [st.ghost["created"].x + 1])
        return V(VOID, [])

    def c_bbox(ex, st, this, args, fn):
        a = [ex.read(st, v.lv).x if isinstance(v, Alias) else v.x for v in args]
        for nm, u, w in zip(("west", "east", "south", "north"), a, (env["x0"], env["x1"], env["y0"], env["y1"])):
            ex.oblige(st, "pre", u == w, "raster bounding box: " + nm)
        return V(VOID, [])

    def c_iquery(ex, st, this, args, fn):
        p, x, y = args[0], args[1].x, args[2].x
        j = z3.Int(fresh_name("j"))
        if not (isinstance(p, PV) and isinstance(p.lv, Elem)):
            raise Unsupported("isosurface query into %r" % (p,))
        v = ex.read(st, p.lv.par)
        ex.oblige(st, "bounds", z3.And(p.lv.idx == 0, v.t[0] >= NV), "room for every isosurface")
        ex.write(st, p.lv.par, V(v.ty, [v.t[0], z3.Lambda([j], ISO(j, x, y))]))
        return V(VOID, [])

    def pixel(ex, s, buf, b, r, c):
        i = b * env["ny"] * env["nx"] + r * env["nx"] + c
        return elem(ex, s, buf, i)

    def want(b, r, c):
        x = env["x0"] + (z3.ToReal(c) + z3.Q(1, 2)) * RES
        y = env["y0"] + (z3.ToReal(env["ny"] - 1 - r) + z3.Q(1, 2)) * RES
        z = z3.RealVal(0)
        return ISO(b, BACK[0](x, y, z), BACK[1](x, y, z))

    def inv(ex, s, start, K):
        bufs = [v for c, v in s.loc.items() if isinstance(v, V) and v.ty.k == "ptr" and v.t is not None and len(v.t) == 2 and v.ty.a.k == "real"]
        if not bufs:
            return []
        env["buf"] = buf = bufs[0]
        d = ex.insum
        env["K%d" % d] = K
        ny, nx = env["ny"], env["nx"]
        inr = z3.And(b_ >= 0, b_ < NV, r_ >= 0, r_ < ny, c_ >= 0, c_ < nx)
        Ky, Kx = env.get("K1"), env.get("K2")
        row = None if d < 2 else ny - 1 - Ky
        if d == 1:
            done = ny - 1 - r_ < K
        elif d == 2:
            done = z3.Or(r_ > row, z3.And(r_ == row, c_ < K))
        elif d == 3:
            done = z3.Or(r_ > row, z3.And(r_ == row, z3.Or(c_ < Kx, z3.And(c_ == Kx, b_ < K))))
            s.pc.append(rowmajor(b_, r_, c_, K, row, Kx, ny, nx))
            s.pc.append(rowmajor(b_, r_, c_, simp(K - 1), row, Kx, ny, nx))
            s.pc.append(inside_lemma(K, row, Kx, NV, ny, nx))
        else:
            return []
        return [("the pixels written so far are final", z3.Implies(z3.And(inr, done), pixel(ex, s, buf, b_, r_, c_) == want(b_, r_, c_)))]

    def write_(ex, st, this, args, fn):
        ny, nx = env["ny"], env["nx"]
        p = getf(ex, st, this.x, GT, "_buffer")
        inr = z3.And(b_ >= 0, b_ < NV, r_ >= 0, r_ < ny, c_ >= 0, c_ < nx)
        ex.oblige(st, "pre", z3.And(st.ghost["created"].x == 1, st.ghost["written"].x == 0, st.ghost["closed"].x == 0), "the raster is written once, after it is created and before it is closed")
        ex.oblige(st, "post", z3.Implies(inr, pixel(ex, st, p, b_, r_, c_) == want(b_, r_, c_)), "every cell of every band holds the isosurface's depth at the cell's centre")
        st.ghost["written"] = V(SIZE, [st.ghost["written"].x + 1])
        return V(VOID, [])

    def post(ex, st, o, ret):
        return [("returns success", ret.x == 0), ("nothing is written" if help_ else "the raster is created, written and closed once", z3.And([st.ghost[g].x == (0 if help_ else 1) for g in ("created", "written", "closed")]))]

    def mk(ex, st, this, args, fn):
        return V(ptr(cls(CT)), [ival(CREF)])

    con = {IS + "::_printHelp": noop, IS + "::_parseArgs": lambda ex, st, this, args, fn: V(VOID, []), CT + "::createGeoToXYAxisOrder": mk, CT + "::transform": c_xf(FWD), CT + "::inverse_transform": c_xf(BACK),
           CT + "::~CRSTransformer": noop, IF + "::Isosurfacer": noop, IF + "::~Isosurfacer": noop, IF + "::initialize": step("opened"), IF + "::query": c_iquery, IF + "::finalize": step("finalized"),
           IF + "::getQuery": lambda ex, st, this, args, fn: V(ptr(cls(QU)), [ival(QREF)]), QU + "::getErrorHandler": lambda ex, st, this, args, fn: V(Ty("tmpl", (cls(EH),), None, "shared_ptr"), [ival(EHREF)]),
           EH + "::setLogFilename": noop, EH + "::setLoggingOn": noop,
           "::GDALAllRegister": lambda ex, st, this, args, fn: V(VOID, []), GT + "::~GeoTiff": noop, GT + "::create": c_create, GT + "::setBBox": c_bbox, GT + "::write": write_, GT + "::close": step("closed")}
    return Task(IS + "::run", setup, post, name="Isosurface::run" + (" with log" if log else " help" if help_ else ""), contracts=con, hooks={"inv": [("Isosurface::run", inv)]}, budget=200)


def tasks_run():
    return [t_run(False), t_run(True), t_run(False, True), Lemma("raster lemma", raster_lemma)] + iso_options()[1]


def tasks_search():
    return [t_search(True), t_search(False), t_init(), Lemma("levels lemma", levels_lemma), t_query(1, True), t_query(2, True), t_query(2, False)] + iso_options()[0]
