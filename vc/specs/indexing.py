"""Contracts of geomodelgrids::utils::Indexing*."""
from ..spec import *

IU, IV = U + "IndexingUniform", U + "IndexingVariable"
REF = 21
# index of distance x on the axis handled by indexing object r
IDX = z3.Function("IDX", I, R, R)
EXTENT = z3.Function("EXTENT", I, R)    # distance of the last grid coordinate from the first
NPTS = z3.Function("NPTS", I, I)


def setup_u(ex, st):
    t = this_obj(ex, st, IU, REF)
    x, dx = z3.Real("x"), z3.Real("dx")
    setf(ex, st, REF, IU, "_dx", dx)
    st.assume(dx > 0)
    return dict(this=t, args=[V(REAL, [x])], x=x, dx=dx, inputs={"x": x, "dx": dx})


def post_u(ex, st, e, ret):
    n = z3.Int("n")
    return [("the index is x/dx", ret.x * e["dx"] == e["x"]),
            ("a distance inside the axis has an index inside the axis",
             z3.Implies(z3.And(e["x"] >= 0, n >= 1, e["x"] <= e["dx"] * z3.ToReal(n - 1)), z3.And(ret.x >= 0, ret.x <= z3.ToReal(n - 1)))),
            ("frame: the spacing is unchanged", getf(ex, st, REF, IU, "_dx").x == e["dx"])]


def setup_uctor(ex, st):
    t = this_obj(ex, st, IU, REF)
    dx = z3.Real("dx")
    return dict(this=t, args=[V(REAL, [dx])], dx=dx, inputs={"dx": dx})


def post_uctor(ex, st, e, ret):
    return [("construction succeeds only for a positive spacing", e["dx"] > 0), ("the spacing is kept", getf(ex, st, REF, IU, "_dx").x == e["dx"])]


def exc_uctor(ex, st, e, exc):
    return [("a non-positive spacing is rejected, a positive one is not", e["dx"] <= 0), ("with an invalid-argument error", z3.BoolVal(exc.cls == "std::invalid_argument"))]


def setup_v(order):
    sgn = 1 if order == 0 else -1

    def f(ex, st):
        t = this_obj(ex, st, IV, REF)
        x, n = z3.Real("x"), z3.Int("n")
        st.assume(n >= 2)
        p, rw = symarr(ex, st, 211, n, REAL, "coords")
        setf(ex, st, REF, IV, "_x", p)
        setf(ex, st, REF, IV, "_numX", n)
        setf(ex, st, REF, IV, "_order", ival(order))
        i, j = z3.Ints("i j")
        sel = lambda i: z3.Select(rw, i)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), sgn * sel(i) < sgn * sel(j)), patterns=[z3.MultiPattern(sel(i), sel(j))]))
        # every distance, inside the axis or not
        return dict(this=t, args=[V(REAL, [x])], x=x, sel=sel, n=n, sgn=sgn, rw=rw, inputs={"x": x, "n": n, "x0": sel(0), "xn": sel(n - 1)})
    return f


def post_v(ex, st, e, ret):
    sel, n, s = e["sel"], e["n"], e["sgn"]
    d = z3.ToInt(ret.x)
    cell = z3.If(d > n - 2, n - 2, z3.If(d < 0, 0, d))
    return [("the index is below the axis exactly when the distance is", (ret.x < 0) == (e["x"] < 0)),
            ("the index is beyond the axis exactly when the distance is", (ret.x > z3.ToReal(n - 1)) == (e["x"] > s * (sel(n - 1) - sel(0)))),
            ("the index inverts the piecewise linear coordinate", z3.Implies(z3.And(e["x"] >= 0, e["x"] <= s * (sel(n - 1) - sel(0))),
             s * (sel(cell) - sel(0)) + (ret.x - z3.ToReal(cell)) * (s * (sel(cell + 1) - sel(cell))) == e["x"])),
            ("frame: the coordinates are unchanged", row(ex, st, getf(ex, st, REF, IV, "_x")) == e["rw"])]


def setup_vctor(order, null=False):
    def f(ex, st):
        t = this_obj(ex, st, IV, REF)
        n = z3.Int("n")
        st.assume(n >= 0)
        if null:
            p, rw = V(PREAL, [ival(0), ival(0)]), None
        else:
            p, rw = symarr(ex, st, 212, n, REAL, "given")
        return dict(this=t, args=[p, V(SIZE, [n]), V(INT32, [ival(order)])], n=n, rw=rw, order=order, inputs={"n": n})
    return f


def post_vctor(ex, st, e, ret):
    n, g = e["n"], e["rw"]
    s = 1 if e["order"] == 0 else -1
    p = getf(ex, st, REF, IV, "_x")
    if g is None:
        return [("a null list is rejected", z3.BoolVal(False))]
    own = row(ex, st, p)
    i, j = z3.Ints("ci cj")
    inr = lambda v: z3.And(v >= 0, v < n)
    return [("construction succeeds only for a non-empty list", n >= 1),
            ("the object owns a copy", z3.And(p.t[0] > 0, p.t[0] != 212, p.t[1] == 0, ex.LEN(p.t[0]) == n)),
            ("the length and order are kept", z3.And(getf(ex, st, REF, IV, "_numX").x == n, getf(ex, st, REF, IV, "_order").x == e["order"])),
            ("the copy is sorted in the axis order", z3.Implies(z3.And(inr(i), inr(j), i < j), z3.Select(own, i) <= z3.Select(own, j) if s == 1 else z3.Select(own, i) >= z3.Select(own, j))),
            ("every coordinate of the copy is a given one", z3.Implies(inr(i), z3.Exists([j], z3.And(inr(j), z3.Select(own, i) == z3.Select(g, j))))),
            ("every given coordinate is in the copy", z3.Implies(inr(i), z3.Exists([j], z3.And(inr(j), z3.Select(own, j) == z3.Select(g, i))))),
            ("frame: the given list is unchanged", z3.Select(ex.cellof(st, "mem", "real")[0], ival(212)) == g)]


def exc_vctor(ex, st, e, exc):
    return [("only a null or empty list is rejected", z3.BoolVal(True) if e["rw"] is None else e["n"] == 0),
            ("with an invalid-argument error", z3.BoolVal(exc.cls == "std::invalid_argument"))]


def tasks():
    o = [Task(IU + "::getIndex", setup_u, post_u, name="IndexingUniform::getIndex"),
         Task(IU + "::IndexingUniform", setup_uctor, post_uctor, exc_uctor, name="IndexingUniform::IndexingUniform", nparams=1)]
    for order, nm in ((0, "ascending"), (1, "descending")):
        o.append(Task(IV + "::getIndex", setup_v(order), post_v, name="IndexingVariable::getIndex, " + nm))
        o.append(Task(IV + "::IndexingVariable", setup_vctor(order), post_vctor, exc_vctor, name="IndexingVariable::IndexingVariable, " + nm, nparams=3))
    o.append(Task(IV + "::IndexingVariable", setup_vctor(0, True), post_vctor, exc_vctor, name="IndexingVariable::IndexingVariable, null list", nparams=3))
    return o


def c_getindex(ex, st, this, args, fn):
    """contract of Indexing::getIndex used by callers (the axis law of this file): the index of a distance, inside the
    index range exactly when the distance is inside the axis"""
    r, x = this.x, args[0].x
    ex.oblige(st, "pre", r != 0, "getIndex: indexing object exists")
    i = IDX(r, x)
    st.assume(z3.And((i < 0) == (x < 0), (i > z3.ToReal(NPTS(r) - 1)) == (x > EXTENT(r))))
    return V(REAL, [i])
