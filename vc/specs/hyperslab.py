"""Contracts of geomodelgrids::serial::Hyperslab / _Hyperslab."""
from ..spec import *

HS, HSP = S + "Hyperslab", S + "_Hyperslab"
NODATA = -100000000000000000000
# stored data set: D(path, i, j, k, v); surfaces use k = 0
D = z3.Function("D", I, I, I, I, I, R)
ROWS = z3.ArraySort(I, R)
# contents of the window (origin, dims) of a data set, in row-major order
SLAB2 = z3.Function("SLAB2", *([I] * 7 + [ROWS]))
SLAB3 = z3.Function("SLAB3", *([I] * 9 + [ROWS]))
# the interpolated value (C01's value) and the nearest value; pure functions of the data set and the point
INTERP2 = z3.Function("INTERP2", I, R, R, I, R)
INTERP3 = z3.Function("INTERP3", I, R, R, R, I, R)

HREF, PREF, H5REF = 11, 12, 13
B_ORIGIN, B_DIMS, B_ALL, B_VALUES, B_OUT, B_IDX = 201, 202, 203, 204, 205, 206


def slabrow(path, o, d):
    f = SLAB2 if len(d) == 3 else SLAB3
    return f(path, *(list(o) + list(d)))


def is_nodata(x):
    return z3.And(1 - x / NODATA < z3.Q(1, 1000), x / NODATA - 1 < z3.Q(1, 1000))


def prod(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r * x
    return r


def rep(ex, st, nd, origin=True):
    """representation invariant of an opened hyperslab of rank nd (nd-1 space axes + values); returns its parts.
    The value axis is never windowed: its origin is 0 and its window length is the data set's."""
    h = this_obj(ex, st, HS, HREF)
    p = this_obj(ex, st, HSP, PREF)
    d = [z3.Int("d%d" % i) for i in range(nd)]
    al = [z3.Int("n%d" % i) for i in range(nd)]
    o = [z3.Int("o%d" % i) for i in range(nd - 1)] + [ival(0)]
    st.assume(d[-1] == al[-1])
    st.assume(d[-1] >= 1)
    for i in range(nd - 1):
        st.assume(z3.And(d[i] >= 2, d[i] <= al[i]))
    setf(ex, st, HREF, HS, "_h5", H5REF)
    path = z3.Int("path")
    st.assume(path > 0)
    setf(ex, st, HREF, HS, "_datasetPath", path)
    setf(ex, st, HREF, HS, "_ndims", ival(nd))
    setf(ex, st, HREF, HS, "_dims", arr(ex, st, B_DIMS, d, SIZE, "dims"))
    setf(ex, st, HREF, HS, "_dimsAll", arr(ex, st, B_ALL, al, SIZE, "all"))
    vals, vrow = symarr(ex, st, B_VALUES, prod(d), REAL, "slab")
    setf(ex, st, HREF, HS, "_values", vals)
    if origin:
        setf(ex, st, HREF, HS, "_origin", arr(ex, st, B_ORIGIN, o, SIZE, "origin"))
        for i in range(nd - 1):
            st.assume(z3.And(o[i] >= 0, o[i] + d[i] <= al[i]))
        st.assume(vrow == slabrow(path, o, d))
    else:
        setf(ex, st, HREF, HS, "_origin", [ival(0), ival(0)])
    setf(ex, st, HREF, HS, "_hyperslab", PREF)
    setf(ex, st, PREF, HSP, "_hyperslab", HREF)
    setf(ex, st, PREF, HSP, "_interpolate", fptr_of(ex, HSP + "::_interpolate%dD" % (nd - 1)))
    setf(ex, st, PREF, HSP, "_nearest", fptr_of(ex, HSP + "::_nearest%dD" % (nd - 1)))
    return dict(h=h, p=p, d=d, all=al, o=o, path=path, vrow=vrow, nd=nd)


def flat(idx, d):
    r = idx[0]
    for i, n in zip(idx[1:], d[1:]):
        r = r * n + i
    return r


def dset(path, idx):
    idx = list(idx)
    if len(idx) == 3:
        idx = idx[:2] + [ival(0)] + idx[2:]
    return D(path, *idx)


def slab_instance(r, sub):
    """definition of the window contents at window vertex sub, and the row-major bounds (lemma row_major)"""
    d, o = r["d"], r["o"]
    inr = z3.And([z3.And(s >= 0, s < n) for s, n in zip(sub, d)])
    f = flat(list(sub) + [ival(0)], d)
    v = z3.Int("v")      # the (arbitrary) value index the postcondition speaks about
    dd = dset(r["path"], [s + oo for s, oo in zip(sub, o)] + [v])
    return z3.Implies(inr, z3.And(f >= 0, f + d[-1] <= prod(d),
                                  z3.Implies(z3.And(v >= 0, v < d[-1]), z3.Select(r["vrow"], f + v) == dd)))


def lemma_row_major():
    """0 <= sub < dims implies 0 <= flat(sub) and flat(sub) + d_last <= prod(dims), axis by axis; the step uses that
    products are monotone in a non-negative factor"""
    a, b, c = z3.Ints("a b c")
    f, P, sub, dim = z3.Ints("f P sub dim")
    mono = z3.Implies(z3.And(f + 1 <= P, dim >= 0), (f + 1) * dim <= P * dim)
    nn = z3.Implies(z3.And(f >= 0, dim >= 0), f * dim >= 0)
    return [("products are monotone in a non-negative factor", [a <= b, c >= 0], a * c <= b * c),
            ("row-major step", [f >= 0, f + 1 <= P, 0 <= sub, sub < dim, mono, nn], z3.And(f * dim + sub >= 0, f * dim + sub + 1 <= P * dim)),
            ("row-major last axis", [f >= 0, f + 1 <= P, dim >= 1, mono, nn], z3.And(f * dim >= 0, f * dim + dim <= P * dim))]


def lemmas():
    return [Lemma("row-major indexing lemma", lemma_row_major)]


def out_and_index(ex, st, r):
    nd = r["nd"]
    x = [z3.Real("x%d" % i) for i in range(nd - 1)]
    nv = r["d"][-1]
    out, orow = symarr(ex, st, B_OUT, z3.Int("outlen"), REAL, "out0")
    st.assume(z3.Int("outlen") >= nv)
    idx = arr(ex, st, B_IDX, x, REAL, "index")
    r.update(x=x, out=out, orow=orow, idx=idx)
    r["inputs"] = {"x%d" % i: t for i, t in enumerate(x)}
    r["inputs"].update({"n%d" % i: t for i, t in enumerate(r["all"])})
    r["inputs"].update({"d%d" % i: t for i, t in enumerate(r["d"])})
    r["inputs"].update({"o%d" % i: t for i, t in enumerate(r["o"])})
    return r


def multilinear(path, cells, x, v):
    """multilinear interpolant of the stored vertices of the cell with lower corner cells (data set indices)"""
    n = len(cells)
    s = z3.RealVal(0)
    corners = []
    for m in range(2 ** n):
        bits = [(m >> (n - 1 - a)) & 1 for a in range(n)]
        w = z3.RealVal(1)
        for a in range(n):
            rel = x[a] - z3.ToReal(cells[a])
            w = w * (rel if bits[a] else 1 - rel)
        val = dset(path, [c + b for c, b in zip(cells, bits)] + [v])
        corners.append(val)
        s = s + w * val
    return s, corners


def witnesses(r):
    """lower corners (window coordinates) the property allows; `global` ones do not depend on the window"""
    if "wit" in r:
        return r["wit"]
    x, o = r["x"], r["o"]
    TOL = z3.Q(1, 10**12)
    ws = {"up": [], "low": [], "lowtol": []}
    for a in range(r["nd"] - 1):
        xi = z3.ToInt(x[a])
        n = r["all"][a]
        ws["up"].append(z3.If(xi + 1 < n, xi, n - 2) - o[a])                      # min(floor(x), n-2)
        c = -z3.ToInt(-x[a]) - 1
        ws["low"].append(z3.If(c >= 0, c, ival(0)) - o[a])                        # max(0, ceil(x)-1)
        c = z3.ToInt(x[a] - z3.ToReal(o[a]) - TOL)
        ws["lowtol"].append(z3.If(c >= 0, c, ival(0)))
    r["defs"] = []
    r["wit"] = {}
    for n, w in ws.items():
        out = []
        for a, t in enumerate(w):
            c = z3.Int("w%s_%d" % (n, a))
            r["defs"].append(c == t)
            out.append(c)
        r["wit"][n] = out
    return r["wit"]


def cell_ok(r, sub):
    TOL = z3.Q(1, 10**12)
    g = []
    for a, c in enumerate(sub):
        cc = c + r["o"][a]
        g.append(z3.And(cc >= 0, cc + 1 < r["all"][a], z3.ToReal(cc) <= r["x"][a], r["x"][a] <= z3.ToReal(cc) + 1 + TOL))
    return z3.And(g)


def in_window(r):
    """postcondition of getSlab: the cell of the point is inside the window and does not depend on where the window is"""
    g = []
    for a in range(r["nd"] - 1):
        o, d, n, x = r["o"][a], r["d"][a], r["all"][a], r["x"][a]
        g.append(z3.And(o >= 0, o + d <= n, z3.ToReal(o) <= x, x <= z3.ToReal(o + d - 1),
                        z3.Or(x < z3.ToReal(o + d - 1), o + d == n)))
    return z3.And(g)


def in_grid(r):
    return z3.And([z3.And(x >= 0, x <= z3.ToReal(n - 1)) for x, n in zip(r["x"], r["all"])])


def setup_interp(nd, wn=("up", "low", "lowtol")):
    def f(ex, st):
        r = rep(ex, st, nd)
        out_and_index(ex, st, r)
        st.assume(in_window(r))
        ws = witnesses(r)
        for q in r["defs"]:
            st.assume(q)
        for n in wn:
            for m in range(2 ** (nd - 1)):
                sub = [c + ((m >> (nd - 2 - a)) & 1) for a, c in enumerate(ws[n])]
                st.assume(slab_instance(r, sub))
        r.update(this=r["p"], args=[r["out"], r["idx"]])
        return r
    return f


def interp_value(r, w, v):
    val, corners = multilinear(r["path"], [c + o for c, o in zip(w, r["o"])], r["x"], v)
    if r["nd"] == 4:
        val = z3.If(z3.Or([is_nodata(c) for c in corners]), z3.RealVal(NODATA), val)
    return val


def frame_posts(ex, st, r):
    j = z3.Int("jout")
    return [("nothing beyond the values is written", z3.Implies(z3.Or(j < 0, j >= r["d"][-1]), z3.Select(row(ex, st, r["out"]), j) == z3.Select(r["orow"], j))),
            ("frame: only the output array changes", same_row_outside(ex, ex.pre, st, None, "real", [ival(B_OUT)])),
            ("frame: the window position is unchanged", z3.And([elem(ex, st, getf(ex, st, HREF, HS, "_origin"), i) == r["o"][i] for i in range(r["nd"] - 1)]))]


def post_interp(nd, which, name):
    def f(ex, st, r, ret):
        v = z3.Int("v")
        new = z3.Select(row(ex, st, r["out"]), v)
        st.assume(z3.And(v >= 0, v < r["d"][-1]))
        ws = witnesses(r)
        goals = [z3.And(cell_ok(r, ws[n]), new == interp_value(r, ws[n], v)) for n in which]
        return [(name, AnyOf(goals))] + frame_posts(ex, st, r)
    return f


def tasks_interp(which, name):
    return [Task(HSP + "::_interpolate%dD" % (nd - 1), setup_interp(nd, which), post_interp(nd, which, name),
                 name="_Hyperslab::_interpolate%dD" % (nd - 1), budget=200) for nd in (3, 4)]


# ------------------------------------------------------------------------------------------ nearest
def setup_nearest(nd):
    def f(ex, st):
        r = rep(ex, st, nd)
        out_and_index(ex, st, r)
        st.assume(in_window(r))
        sub = []
        for a in range(nd - 1):
            c = z3.Int("near_%d" % a)
            st.assume(c == z3.ToInt(r["x"][a] - z3.ToReal(r["o"][a]) + z3.Q(1, 2)))
            sub.append(c)
        r["near"] = sub
        st.assume(slab_instance(r, sub))
        r.update(this=r["p"], args=[r["out"], r["idx"]])
        return r
    return f


def post_nearest(nd):
    def f(ex, st, r, ret):
        v = z3.Int("v")
        new = z3.Select(row(ex, st, r["out"]), v)
        st.assume(z3.And(v >= 0, v < r["d"][-1]))
        val = dset(r["path"], [c + o for c, o in zip(r["near"], r["o"])] + [v])
        return [("value is the stored value of the nearest vertex (NODATA normalised)",
                 new == z3.If(is_nodata(val), z3.RealVal(NODATA), val))] + frame_posts(ex, st, r)
    return f


def tasks_nearest():
    return [Task(HSP + "::_nearest%dD" % (nd - 1), setup_nearest(nd), post_nearest(nd), name="_Hyperslab::_nearest%dD" % (nd - 1)) for nd in (3, 4)]


# ------------------------------------------------------------------------------------------ reading
def c_read_hyperslab(r):
    """contract of HDF5::readDatasetHyperslab: the window must lie inside the data set, the buffer must hold it, and the
    call fills the buffer with the window in row-major order (proved in C15 against the HDF5 library's contract)"""
    def f(ex, st, this, args, fn):
        values, path, org, dims, nd, ty = args
        n = r["nd"]
        ex.oblige(st, "pre", nd.x == n, "readDatasetHyperslab: rank of the data set")
        ex.oblige(st, "pre", path.x == r["path"], "readDatasetHyperslab: reads its own data set")
        ex.oblige(st, "pre", z3.And(ex.LEN(org.t[0]) >= org.t[1] + n, ex.LEN(dims.t[0]) >= dims.t[1] + n), "readDatasetHyperslab: origin and dims have rank elements")
        o = [elem(ex, st, org, i) for i in range(n)]
        d = [elem(ex, st, dims, i) for i in range(n)]
        for i in range(n):
            ex.oblige(st, "pre", z3.And(o[i] >= 0, o[i] + d[i] <= r["all"][i]), "readDatasetHyperslab: window inside the data set (axis %d)" % i)
            ex.oblige(st, "pre", z3.And(d[i] == r["d"][i]), "readDatasetHyperslab: buffer holds the window (axis %d)" % i)
        ex.oblige(st, "pre", z3.And(values.t[0] != 0, values.t[1] == 0, ex.LEN(values.t[0]) >= prod(r["d"])), "readDatasetHyperslab: buffer holds the window")
        k = ex.mkey(REAL)
        m = ex.cellof(st, "mem", k)[0]
        # a failing read leaves anything in the buffer
        junk = z3.Const("junk_row", z3.ArraySort(I, R))
        st.mem[k] = [z3.Store(m, values.t[0], z3.If(READFAIL, junk, slabrow(r["path"], o, d)))]
        ex.throw(st, ExV("std::runtime_error", z3.Int("read_message")), READFAIL)
        return V(VOID, [])
    return f


READFAIL = z3.Bool("read_fails")


def exc_getslab(nd):
    def f(ex, st, r, x):
        org = getf(ex, st, HREF, HS, "_origin")
        o = [elem(ex, st, org, i) for i in range(nd)]
        vals = getf(ex, st, HREF, HS, "_values")
        return [("fails only if the read fails", READFAIL),
                ("after a failed read the window holds the data set's values or is unused",
                 z3.Or(org.t[0] == 0, z3.And([z3.And(o[i] >= 0, o[i] + r["d"][i] <= r["all"][i]) for i in range(nd - 1)] + [o[-1] == 0, org.t[1] == 0,
                       z3.Select(ex.cellof(st, "mem", "real")[0], vals.t[0]) == slabrow(r["path"], o, r["d"])]))),
                ("frame: window buffer", z3.And(vals.t[0] == B_VALUES, vals.t[1] == 0))] + [
                ("frame: window size axis %d" % i, elem(ex, st, getf(ex, st, HREF, HS, "_dims"), i) == r["d"][i]) for i in range(nd)] + [
                ("frame: data set size axis %d" % i, elem(ex, st, getf(ex, st, HREF, HS, "_dimsAll"), i) == r["all"][i]) for i in range(nd)]
    return f


def setup_getslab(nd, origin):
    def f(ex, st):
        r = rep(ex, st, nd, origin)
        out_and_index(ex, st, r)
        st.assume(in_grid(r))
        r.update(this=r["p"], args=[r["idx"]])
        f.r.update(r)
        return r
    f.r = {}
    return f


def post_getslab(nd, origin):
    def f(ex, st, r, ret):
        org = getf(ex, st, HREF, HS, "_origin")
        o = [elem(ex, st, org, i) for i in range(nd)]
        vals = getf(ex, st, HREF, HS, "_values")
        r2 = dict(r, o=o)
        g = [("the window is allocated", z3.And(org.t[0] != 0, org.t[1] == 0, ex.LEN(org.t[0]) >= nd)),
             ("the window lies in the data set and contains the cell of the point", in_window(r2)),
             ("the value axis starts at 0", o[-1] == 0),
             ("the cached values are the data set's values in the window", z3.Select(ex.cellof(st, "mem", "real")[0], vals.t[0]) == slabrow(r["path"], o, r["d"])),
             ("frame: values buffer and window size are kept", z3.And(vals.t[0] == B_VALUES, vals.t[1] == 0)),
             ("frame: only the window buffer changes", same_row_outside(ex, ex.pre, st, None, "real", [ival(B_VALUES)]))]
        for i in range(nd):
            g.append(("frame: window size axis %d" % i, elem(ex, st, getf(ex, st, HREF, HS, "_dims"), i) == r["d"][i]))
            g.append(("frame: data set size axis %d" % i, elem(ex, st, getf(ex, st, HREF, HS, "_dimsAll"), i) == r["all"][i]))
        return g
    return f


def tasks_getslab():
    out = []
    for nd in (3, 4):
        for origin in (True, False):
            su = setup_getslab(nd, origin)
            r = su.r
            out.append(Task(HSP + "::getSlab", su, post_getslab(nd, origin), exc_getslab(nd), name="_Hyperslab::getSlab rank %d, %s" % (nd, "window loaded" if origin else "first use"),
                            contracts={S + "HDF5::readDatasetHyperslab": (lambda q: lambda ex, st, this, args, f: c_read_hyperslab(q)(ex, st, this, args, f))(r)}))
    return out


# ------------------------------------------------------------------------------------------ composition
def c_getslab(r):
    def f(ex, st, this, args, fn):
        ex.oblige(st, "pre", this.x == PREF, "getSlab on the hyperslab's own helper")
        for i in range(r["nd"] - 1):
            ex.oblige(st, "pre", elem(ex, st, args[0], i) == r["x"][i], "getSlab gets the point's index")
        o = [z3.Int("on%d" % i) for i in range(r["nd"] - 1)] + [ival(0)]
        st.assume(in_window(dict(r, o=o)))
        setf(ex, st, HREF, HS, "_origin", arr(ex, st, 301, o, SIZE, "norigin"))
        k = ex.mkey(REAL)
        m = ex.cellof(st, "mem", k)[0]
        st.mem[k] = [z3.Store(m, ival(B_VALUES), slabrow(r["path"], o, r["d"]))]
        r["o2"] = o
        st.ghost["slab"] = V(BOOL, [z3.BoolVal(True)])
        return V(VOID, [])
    return f


def interp_term(r, v):
    return (INTERP2 if r["nd"] == 3 else INTERP3)(r["path"], *(r["x"] + [v]))


def c_interpND(r):
    """contract of _interpolateND (proved by the interpolation tasks): out[v] is the interpolant for every v"""
    def f(ex, st, this, args, fn):
        out, idx = args
        ex.oblige(st, "pre", this.x == PREF, "interpolation on the hyperslab's own helper")
        org = getf(ex, st, HREF, HS, "_origin")
        ex.oblige(st, "pre", org.t[0] != 0, "interpolation: window allocated")
        o = [elem(ex, st, org, i) for i in range(r["nd"])]
        x = [elem(ex, st, idx, i) for i in range(r["nd"] - 1)]
        ex.oblige(st, "pre", in_window(dict(r, o=o, x=x)), "interpolation: the window contains the cell of the point")
        vals = getf(ex, st, HREF, HS, "_values")
        ex.oblige(st, "pre", z3.Select(ex.cellof(st, "mem", "real")[0], vals.t[0]) == slabrow(r["path"], o, r["d"]), "interpolation: the window holds the data set's values")
        ex.oblige(st, "pre", z3.And(out.t[0] == B_OUT, out.t[1] == 0), "interpolation: output array is the caller's")
        k = ex.mkey(REAL)
        m = ex.cellof(st, "mem", k)[0]
        j = z3.Int(fresh_name("j"))
        old = z3.Select(m, out.t[0])
        new = z3.Lambda([j], z3.If(z3.And(j >= 0, j < r["d"][-1]), interp_term(dict(r, x=x), j), z3.Select(old, j)))
        st.mem[k] = [z3.Store(m, out.t[0], new)]
        return V(VOID, [])
    return f


def tasks_compose():
    out = []
    for nd in (3, 4):
        R_ = {}

        def su(ex, st, nd=nd, R_=R_):
            r = rep(ex, st, nd, True)
            out_and_index(ex, st, r)
            st.assume(in_grid(r))
            r.update(this=r["h"], args=[r["out"], r["idx"]])
            R_.update(r)
            return r

        def po(ex, st, r, ret, nd=nd):
            v = z3.Int("v")
            org = getf(ex, st, HREF, HS, "_origin")
            o = [elem(ex, st, org, i) for i in range(nd)]
            vals = getf(ex, st, HREF, HS, "_values")
            return [("interpolate returns the interpolant of the data set at the point",
                     z3.Implies(z3.And(v >= 0, v < r["d"][-1]), z3.Select(row(ex, st, r["out"]), v) == interp_term(r, v))),
                    ("representation invariant holds again", z3.And(o[-1] == 0, z3.And([z3.And(o[i] >= 0, o[i] + r["d"][i] <= r["all"][i]) for i in range(nd - 1)]),
                                                                  z3.Select(ex.cellof(st, "mem", "real")[0], vals.t[0]) == slabrow(r["path"], o, r["d"])))]

        def mk(g, R_=R_):
            return lambda ex, st, this, args, f: g(R_)(ex, st, this, args, f)
        out.append(Task(HS + "::interpolate", su, po, name="Hyperslab::interpolate rank %d" % nd,
                        contracts={HSP + "::getSlab": mk(c_getslab), HSP + "::_interpolate%dD" % (nd - 1): mk(c_interpND)}))
    return out


# ------------------------------------------------------------------------------------------ constructor
def c_dataset_dims(n_terms, nd_term, path_ok=None, expect_path=None):
    """contract of HDF5::getDatasetDims(dims, ndims, path): *ndims is the rank and *dims a new array with the extents"""
    def f(ex, st, this, args, fn):
        pd, pn, path = args
        if expect_path is not None:
            ex.oblige(st, "pre", path.x == expect_path, "getDatasetDims: the object's own data set")
        b = ex.new_base(st)
        a = arr(ex, st, b, n_terms, SIZE, fresh_name("exts"))
        st.assume(ex.LEN(b) == nd_term) if z3.is_expr(nd_term) else None
        ex.write(st, ex.deref(st, pd), V(PSIZE, a.t))
        ex.write(st, ex.deref(st, pn), V(INT32, [nd_term if z3.is_expr(nd_term) else ival(nd_term)]))
        return V(VOID, [])
    return f


def tasks_ctor():
    out = []
    for nd in (3, 4):
        al = [z3.Int("n%d" % i) for i in range(nd)]
        w = [z3.Int("win%d" % i) for i in range(nd)]
        path = z3.Int("path")

        def su(ex, st, nd=nd, al=al, w=w):
            h = this_obj(ex, st, HS, HREF)
            for a in al:
                st.assume(a >= 1)
            for a, b in zip(w[:-1], al[:-1]):
                st.assume(z3.And(a >= 2, b >= 2))
            st.assume(w[-1] >= al[-1])
            st.assume(path > 0)
            dims = arr(ex, st, 401, w, SIZE, "win")
            return dict(this=h, args=[V(ptr(cls(S + "HDF5")), [ival(H5REF)]), V(STR, [path]), dims, V(SIZE, [ival(nd)])], inputs={})

        def po(ex, st, r, ret, nd=nd, al=al, w=w):
            d = getf(ex, st, HREF, HS, "_dims")
            a = getf(ex, st, HREF, HS, "_dimsAll")
            v = getf(ex, st, HREF, HS, "_values")
            dd = [elem(ex, st, d, i) for i in range(nd)]
            p = getf(ex, st, HREF, HS, "_hyperslab")
            g = [("window size is the requested size clipped to the data set", z3.And([z3.And(dd[i] <= al[i], dd[i] <= w[i], z3.Or(dd[i] == al[i], dd[i] == w[i])) for i in range(nd)])),
                 ("the whole value axis is in the window", dd[-1] == al[-1]),
                 ("data set size is recorded", z3.And([elem(ex, st, a, i) == al[i] for i in range(nd)])),
                 ("buffer holds the window", z3.And(v.t[0] != 0, v.t[1] == 0, ex.LEN(v.t[0]) == prod(dd))),
                 ("no window is loaded yet", getf(ex, st, HREF, HS, "_origin").t[0] == 0),
                 ("path, file and rank are recorded", z3.And(getf(ex, st, HREF, HS, "_datasetPath").x == z3.Int("path"), getf(ex, st, HREF, HS, "_h5").x == H5REF, getf(ex, st, HREF, HS, "_ndims").x == nd)),
                 ("helper refers back and interpolates in the data set's rank", z3.And(p.x != 0, getf(ex, st, p.x, HSP, "_hyperslab").x == HREF,
                  getf(ex, st, p.x, HSP, "_interpolate").x == fptr_of(ex, HSP + "::_interpolate%dD" % (nd - 1)),
                  getf(ex, st, p.x, HSP, "_nearest").x == fptr_of(ex, HSP + "::_nearest%dD" % (nd - 1))))]
            return g
        out.append(Task(HS + "::Hyperslab", su, po, name="Hyperslab::Hyperslab rank %d" % nd, nparams=4,
                        contracts={S + "HDF5::getDatasetDims": c_dataset_dims(al, nd, expect_path=path)}))
    return out
