"""Contracts of geomodelgrids::serial::Block and Surface (queries, window configuration, depth range)."""
from ..spec import *
from .indexing import IDX, NPTS, EXTENT, c_getindex
from .hyperslab import INTERP2, INTERP3, NODATA

BL, SU, HS = S + "Block", S + "Surface", S + "Hyperslab"
BREF, HSREF, IX = 31, 32, (33, 34, 35)
TOL = z3.Q(1, 10000)
# what a hyperslab object interpolates (its data set) and how many values it returns per point
PATHOF = z3.Function("PATHOF", I, I)
NVOF = z3.Function("NVOF", I, I)
WINDOW = [z3.Function("WIN%d" % i, I, I) for i in range(4)]
RANKOF = z3.Function("RANKOF", I, I)
FILEOF = z3.Function("FILEOF", I, I)


def c_interpolate(n, nd):
    """contract of Hyperslab::interpolate (proved in vc/specs/hyperslab.py): inside the grid, value v is the interpolant"""
    def f(ex, st, this, args, fn):
        out, idx = args
        h = this.x
        ex.oblige(st, "null", h != 0, "interpolate: hyperslab exists")
        x = [elem(ex, st, idx, i) for i in range(nd)] if not isinstance(idx, PV) else [ex.read(st, Elem(idx.lv.par, simp(idx.lv.idx + i), REAL, idx.lv.skip)).x for i in range(nd)]
        for i in range(nd):
            ex.oblige(st, "pre", z3.And(x[i] >= 0, x[i] <= z3.ToReal(n[i] - 1)), "interpolate: index inside the grid (axis %d)" % i)
        term = (INTERP2 if nd == 2 else INTERP3)
        if isinstance(out, PV):
            ex.oblige(st, "pre", NVOF(h) == 1, "interpolate: room for the values")
            ex.write(st, out.lv, V(REAL, [term(PATHOF(h), *(x + [ival(0)]))]))
        else:
            ex.oblige(st, "pre", z3.And(out.t[0] != 0, ex.LEN(out.t[0]) - out.t[1] >= NVOF(h)), "interpolate: room for the values")
            k = ex.mkey(REAL)
            m = ex.cellof(st, "mem", k)[0]
            j = z3.Int(fresh_name("j"))
            old = z3.Select(m, out.t[0])
            new = z3.Lambda([j], z3.If(z3.And(j >= out.t[1], j < out.t[1] + NVOF(h)), term(PATHOF(h), *(x + [j - out.t[1]])), z3.Select(old, j)))
            st.mem[k] = [z3.Store(m, out.t[0], new)]
        return V(VOID, [])
    return f


def in_axis(i, n):
    return z3.And(i >= 0, i <= z3.ToReal(n - 1))


def far(i, n):
    """outside the axis by more than the rounding tolerance"""
    return z3.Or(i <= -TOL, i >= z3.ToReal(n - 1) + TOL)


def axes(ex, st, c, ref, n, names):
    for k, nm in enumerate(names):
        setf(ex, st, ref, c, nm, V(ptr(cls(U + "Indexing")), [ival(IX[k])]))
        st.assume(NPTS(ival(IX[k])) == n[k])
        st.assume(EXTENT(ival(IX[k])) > 0)


# ------------------------------------------------------------------------------------------ Surface::query
def t_surface_query():
    n = [z3.Int("nx"), z3.Int("ny")]

    def setup(ex, st):
        t = this_obj(ex, st, SU, BREF)
        x, y = z3.Reals("x y")
        for q in n:
            st.assume(q >= 2)
        axes(ex, st, SU, BREF, n, ["_indexingX", "_indexingY"])
        setf(ex, st, BREF, SU, "_hyperslab", [ival(HSREF)])
        setf(ex, st, BREF, SU, "_dims", dims_arr(n))
        st.assume(NVOF(ival(HSREF)) == 1)
        return dict(this=t, args=[V(REAL, [x]), V(REAL, [y])], x=x, y=y, inputs={"x": x, "y": y, "nx": n[0], "ny": n[1], "ix": IDX(ival(IX[0]), x), "iy": IDX(ival(IX[1]), y)})

    def post(ex, st, e, ret):
        i, j = IDX(ival(IX[0]), e["x"]), IDX(ival(IX[1]), e["y"])
        path = PATHOF(ival(HSREF))
        return [("inside the surface: the interpolant at (x,y)", z3.Implies(z3.And(in_axis(i, n[0]), in_axis(j, n[1])), ret.x == INTERP2(path, i, j, 0))),
                ("outside the surface: NODATA", z3.Implies(z3.Or(far(i, n[0]), far(j, n[1])), ret.x == NODATA))]
    return Task(SU + "::query", setup, post, name="Surface::query", contracts={U + "Indexing::getIndex": c_getindex, HS + "::interpolate": c_interpolate(n, 2)})


def dims_arr(n):
    a = z3.K(I, ival(0))
    for i, t in enumerate(n):
        a = z3.Store(a, i, t)
    return [a]


# ------------------------------------------------------------------------------------------ Block::query
def t_block_query():
    n = [z3.Int("nx"), z3.Int("ny"), z3.Int("nz")]
    nv = z3.Int("nv")

    def setup(ex, st):
        t = this_obj(ex, st, BL, BREF)
        x, y, z, zt = z3.Reals("x y z ztop")
        for q in n:
            st.assume(q >= 2)
        st.assume(nv >= 1)
        axes(ex, st, BL, BREF, n, ["_indexingX", "_indexingY", "_indexingZ"])
        setf(ex, st, BREF, BL, "_hyperslab", [ival(HSREF)])
        setf(ex, st, BREF, BL, "_dims", dims_arr(n))
        setf(ex, st, BREF, BL, "_zTop", zt)
        setf(ex, st, BREF, BL, "_numValues", nv)
        vals, vrow = symarr(ex, st, 231, nv, REAL, "values")
        setf(ex, st, BREF, BL, "_values", vals)
        st.assume(NVOF(ival(HSREF)) == nv)
        # a point of the block's domain (Model::query finds the block): distances within the axes up to rounding
        st.assume(z3.And(x >= 0, y >= 0, z <= 0))
        for q, d in zip(range(3), (x, y, zt - z)):
            st.assume(z3.Not(far(IDX(ival(IX[q]), d), n[q])))
        return dict(this=t, args=[V(REAL, [x]), V(REAL, [y]), V(REAL, [z])], d=(x, y, zt - z), vals=vals, inputs={"x": x, "y": y, "z": z, "ztop": zt})

    def post(ex, st, e, ret):
        ii = [IDX(ival(IX[q]), e["d"][q]) for q in range(3)]
        v = z3.Int("v")
        return [("returns the block's value array", z3.And(ret.t[0] == e["vals"].t[0], ret.t[1] == 0)),
                ("every value is the interpolant at (x, y, ztop - z)", z3.Implies(z3.And([in_axis(i, m) for i, m in zip(ii, n)] + [v >= 0, v < nv]),
                 elem(ex, st, e["vals"], v) == INTERP3(PATHOF(ival(HSREF)), ii[0], ii[1], ii[2], v))),
                ("frame: only the value array changes", same_row_outside(ex, ex.pre, st, None, "real", [ival(231)]))]
    return Task(BL + "::query", setup, post, name="Block::query", contracts={U + "Indexing::getIndex": c_getindex, HS + "::interpolate": c_interpolate(n, 3)})


# ------------------------------------------------------------------------------------------ openQuery
def c_hyperslab_ctor(log):
    """contract of Hyperslab::Hyperslab: a window of the requested size over the given data set (constructor tasks)"""
    def f(ex, st, this, args, fn):
        h5, path, dims, nd = args
        n = simp(nd.x)
        if not z3.is_int_value(n):
            raise Unsupported("hyperslab of symbolic rank")
        w = []
        for i in range(n.as_long()):
            w.append(ex.read(st, Elem(dims.lv.par, simp(dims.lv.idx + i), SIZE, dims.lv.skip)).x if isinstance(dims, PV) else elem(ex, st, dims, i))
        st.ghost["hs"] = V(INT32, [this.x])
        log.append(dict(this=this.x, h5=h5.x, path=path.x, dims=w, rank=n.as_long()))
        st.ghost["hsn"] = V(INT32, [ival(len(log))])
        return None
    return f


def t_open(kind):
    c = BL if kind == "block" else SU
    log = []
    win = [z3.Int("win%d" % i) for i in range(4)]
    nv = z3.Int("nv")
    name = z3.Int("name")

    def setup(ex, st):
        del log[:]
        t = this_obj(ex, st, c, BREF)
        setf(ex, st, BREF, c, "_name", name)
        st.assume(name > 0)
        for w in win:
            st.assume(w >= 1)
        setf(ex, st, BREF, c, "_hyperslabDims", dims_arr(win[:4 if kind == "block" else 3]))
        if kind == "block":
            st.assume(nv >= 1)
            setf(ex, st, BREF, c, "_numValues", nv)
        return dict(this=t, args=[V(ptr(cls(S + "HDF5")), [ival(41)])], inputs={})

    def post(ex, st, e, ret):
        from ..core import cat
        if len(log) != 1:
            return [("exactly one window over the data set", z3.BoolVal(False))]
        q = log[0]
        h = getf(ex, st, BREF, c, "_hyperslab")
        g = [("the window belongs to the object", z3.And(h.x == q["this"], h.x != 0)), ("reads from the given file", q["h5"] == 41)]
        alts = [q["path"] == cat(strlit(p), name) for p in (["/blocks/", "blocks/"] if kind == "block" else ["surfaces/", "/surfaces/"])]
        g.append(("the data set is the object's own", z3.Or(alts)))
        g.append(("rank", z3.BoolVal(q["rank"] == (4 if kind == "block" else 3))))
        if kind == "block":
            g.append(("the window size is the configured one", z3.And([a == b for a, b in zip(q["dims"], win)])))
            v = getf(ex, st, BREF, c, "_values")
            g.append(("room for the values of a point", z3.And(v.t[0] != 0, v.t[1] == 0, ex.LEN(v.t[0]) == nv)))
        else:
            g.append(("windows have at least two points per axis", z3.Or(z3.And(q["dims"][0] >= 2, q["dims"][1] >= 2), z3.And(q["dims"][0] == win[0], q["dims"][1] == win[1]))))
            g.append(("the value axis has one value", q["dims"][2] >= 1))
        return g
    return Task(c + "::openQuery", setup, post, name="%s::openQuery" % c.split("::")[-1], contracts={(HS + "::Hyperslab", 4): c_hyperslab_ctor(log), HS + "::Hyperslab": c_hyperslab_ctor(log)})


# ------------------------------------------------------------------------------------------ window configuration
def t_setdims(kind):
    c = BL if kind == "block" else SU
    nd = 3 if kind == "block" else 2

    def setup(ex, st):
        t = this_obj(ex, st, c, BREF)
        k = z3.Int("k")
        st.assume(k >= 0)
        old = [z3.Int("old%d" % i) for i in range(nd + 1)]
        setf(ex, st, BREF, c, "_hyperslabDims", dims_arr(old))
        new = [z3.Int("new%d" % i) for i in range(nd)]
        p = arr(ex, st, 241, new, SIZE, "new")
        return dict(this=t, args=[p, V(SIZE, [k])], k=k, old=old, new=new, inputs={"k": k})

    def cur(ex, st):
        return getf(ex, st, BREF, c, "_hyperslabDims").t[0]

    def post(ex, st, e, ret):
        a = cur(ex, st)
        return [("accepted only with the right number of sizes", e["k"] == nd),
                ("the sizes are kept", z3.And([z3.Select(a, i) == e["new"][i] for i in range(nd)])),
                ("the value axis is not windowed", z3.Select(a, nd) == e["old"][nd])]

    def exc(ex, st, e, x):
        return [("rejected only with the wrong number of sizes", e["k"] != nd), ("by a length error", z3.BoolVal(x.cls == "std::length_error")),
                ("frame: sizes unchanged", z3.And([z3.Select(cur(ex, st), i) == e["old"][i] for i in range(nd + 1)]))]
    return Task(c + "::setHyperslabDims", setup, post, exc, name="%s::setHyperslabDims" % c.split("::")[-1])


# ------------------------------------------------------------------------------------------ depth range
def t_zbottom(uniform):
    def setup(ex, st):
        t = this_obj(ex, st, BL, BREF)
        zt, res = z3.Reals("ztop res")
        n = z3.Int("nz")
        st.assume(n >= 1)
        setf(ex, st, BREF, BL, "_dims", dims_arr([z3.Int("nx"), z3.Int("ny"), n]))
        setf(ex, st, BREF, BL, "_zTop", zt)
        if uniform:
            st.assume(res > 0)
            setf(ex, st, BREF, BL, "_resolutionZ", res)
            setf(ex, st, BREF, BL, "_coordinatesZ", [ival(0), ival(0)])
            want = zt - res * z3.ToReal(n - 1)
        else:
            setf(ex, st, BREF, BL, "_resolutionZ", z3.RealVal(0))
            p, rw = symarr(ex, st, 251, n, REAL, "zc")
            setf(ex, st, BREF, BL, "_coordinatesZ", p)
            want = z3.Select(rw, n - 1)
        return dict(this=t, args=[], want=want, zt=zt, inputs={"ztop": zt, "res": res, "n": n})

    def post(ex, st, e, ret):
        return [("bottom is top - (n-1)*spacing" if uniform else "bottom is the last coordinate", ret.x == e["want"])]
    return Task(BL + "::getZBottom", setup, post, name="Block::getZBottom, %s" % ("uniform" if uniform else "variable"))


def t_ztop():
    def setup(ex, st):
        t = this_obj(ex, st, BL, BREF)
        zt = z3.Real("ztop")
        setf(ex, st, BREF, BL, "_zTop", zt)
        return dict(this=t, args=[], zt=zt, inputs={})
    return Task(BL + "::getZTop", setup, lambda ex, st, e, ret: [("top", ret.x == e["zt"])], name="Block::getZTop")


def t_compare():
    def setup(ex, st):
        a, b = this_obj(ex, st, BL, BREF), this_obj(ex, st, BL, BREF + 20)
        za, zb = z3.Reals("za zb")
        setf(ex, st, BREF, BL, "_zTop", za)
        setf(ex, st, BREF + 20, BL, "_zTop", zb)
        ty = Ty("tmpl", (cls(BL),), None, "shared_ptr")
        return dict(this=None, args=[Alias(Temp(V(ty, a.t))), Alias(Temp(V(ty, b.t)))], za=za, zb=zb, inputs={"za": za, "zb": zb})
    return Task(BL + "::compare", setup, lambda ex, st, e, ret: [("orders blocks by decreasing top, strictly", ret.x == (e["za"] > e["zb"]))], name="Block::compare")


def tasks_query():
    return [t_surface_query(), t_block_query()]


def tasks_open():
    return [t_open("block"), t_open("surface"), t_setdims("block"), t_setdims("surface")]


def tasks_range():
    return [t_zbottom(True), t_zbottom(False), t_ztop(), t_compare()]
