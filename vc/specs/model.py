"""Contracts of geomodelgrids::serial::Model (mapping, containment, block selection, elevations)."""
from ..spec import *
from .hyperslab import NODATA

MO, BL, SU, CT = S + "Model", S + "Block", S + "Surface", U + "CRSTransformer"
MREF, CREF, TOPREF, TBREF = 51, 52, 53, 54
PI = lib.exact("3.14159265358979323846") if hasattr(lib, "exact") else z3.Q(1, 1)
TOL = z3.Q(1, 10000)
# forward and inverse coordinate transforms of a CRS transformer object (PROJ)
FWD = [z3.Function("FWD_" + a, I, R, R, R, R) for a in "xyz"]
INV = [z3.Function("INV_" + a, I, R, R, R, R) for a in "xyz"]
SURFQ = z3.Function("SURFQ", I, R, R, R)              # Surface::query
MXYZ = [z3.Function("MODEL_" + a, I, R, R, R, R) for a in "xyz"]     # Model::_toModelXYZ
CONTAINS = z3.Function("CONTAINS", I, R, R, R, B)
ZTOP, ZBOT = z3.Function("ZTOP", I, R), z3.Function("ZBOT", I, R)
BQ = z3.Function("BQUERY", I, R, R, R, I)             # the value array of Block::query after querying (x, y, z)


def outp(ex, st, p, val):
    """*p = val for an out-parameter that may be null"""
    if p.t is not None and len(p.t) and z3.is_int_value(simp(p.t[0])) and simp(p.t[0]).as_long() == 0:
        return
    if p.ty.k == "null":
        return
    ex.write(st, ex.deref(st, p), V(REAL, [val]))


def c_transform(funcs):
    def f(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, "transform: transformer exists")
        xyz = [a.x for a in args[3:]]
        for p, g in zip(args[:3], funcs):
            outp(ex, st, p, g(this.x, *xyz))
        return V(VOID, [])
    return f


def c_surface_query(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "query: surface exists")
    return V(REAL, [SURFQ(this.x, args[0].x, args[1].x)])


def model_obj(ex, st, ref=MREF, top=None, tb=None):
    t = this_obj(ex, st, MO, ref)
    o = dict(this=t, az=z3.Real("azimuth"), ox=z3.Real("origin_x"), oy=z3.Real("origin_y"), dims=[z3.Real("dim_" + a) for a in "xyz"])
    setf(ex, st, ref, MO, "_yazimuth", o["az"])
    setf(ex, st, ref, MO, "_origin", [z3.Store(z3.Store(z3.K(I, z3.RealVal(0)), 0, o["ox"]), 1, o["oy"])])
    a = z3.K(I, z3.RealVal(0))
    for i in range(3):
        a = z3.Store(a, i, o["dims"][i])
        st.assume(o["dims"][i] > 0)
    setf(ex, st, ref, MO, "_dims", [a])
    setf(ex, st, ref, MO, "_crsTransformer", [ival(CREF)])
    if top is not None:
        setf(ex, st, ref, MO, "_surfaceTop", [ival(TOPREF if top else 0)])
        setf(ex, st, ref, MO, "_surfaceTopoBathy", [ival(TBREF if tb else 0)])
    o["top"], o["tb"] = top, tb
    o["x"], o["y"], o["z"] = z3.Reals("x y z")
    o["inputs"] = dict(x=o["x"], y=o["y"], z=o["z"], azimuth=o["az"], origin_x=o["ox"], origin_y=o["oy"], dim_x=o["dims"][0], dim_y=o["dims"][1], dim_z=o["dims"][2])
    return o


def rotation(o):
    a = o["az"] * PI / 180
    return lib.COS(a), lib.SIN(a)


def formula(o, z):
    """the documented mapping: CRS transform, origin, rotation by the y azimuth, depth stretch"""
    w = [g(ival(CREF), o["x"], o["y"], z) for g in FWD]
    c, s = rotation(o)
    xr, yr = w[0] - o["ox"], w[1] - o["oy"]
    return xr * c - yr * s, xr * s + yr * c, w[2]


# ------------------------------------------------------------------------------------------ mapping
def t_tomodel(top, withz):
    def setup(ex, st):
        o = model_obj(ex, st, top=top, tb=False)
        o["out"] = [symarr(ex, st, 261 + i, ival(1), REAL, "out%d" % i)[0] for i in range(3)]
        if not withz:
            o["out"][2] = V(PREAL, [ival(0), ival(0)])
        o["args"] = o["out"] + [V(REAL, [o[a]]) for a in "xyz"]
        g = SURFQ(ival(TOPREF), *formula(o, o["z"])[:2]) if top else z3.RealVal(0)
        o["g"] = g
        if withz:
            st.assume(g != -o["dims"][2])      # the top surface is not at the bottom of the model
        return o

    def post(ex, st, o, ret):
        fx, fy, wz = formula(o, o["z"])
        gx, gy = [elem(ex, st, p, 0) for p in o["out"][:2]]
        r = [("model x is the transformed, shifted and rotated coordinate", gx == fx), ("model y is the transformed, shifted and rotated coordinate", gy == fy)]
        if withz:
            gz = elem(ex, st, o["out"][2], 0)
            D, g = o["dims"][2], o["g"]
            want = z3.Real("want_z")
            st.assume(want * (g + D) == -D * (g - wz))
            r += [("model z: depth stretched so that the surface is 0 and the bottom -dim_z", z3.Implies(z3.Or(want <= 0, want >= TOL), gz == want)),
                  ("model z up to the tolerance above the surface counts as 0", z3.Implies(z3.And(want > 0, want < TOL), gz == 0))]
        return r
    return Task(MO + "::_toModelXYZ", setup, post, name="Model::_toModelXYZ, %s top surface%s" % ("with" if top else "without", "" if withz else ", no depth"),
                contracts={CT + "::transform": c_transform(FWD), SU + "::query": c_surface_query})


def c_tomodel(ex, st, this, args, fn):
    xyz = [a.x for a in args[3:]]
    for p, g in zip(args[:3], MXYZ):
        outp(ex, st, p, g(this.x, *xyz))
    return V(VOID, [])


def box(o, m=None):
    m = m or [g(ival(MREF), o["x"], o["y"], o["z"]) for g in MXYZ]
    d = o["dims"]
    return z3.And(m[0] >= 0, m[0] <= d[0], m[1] >= 0, m[1] <= d[1], m[2] <= 0, m[2] >= -d[2])


def t_contains():
    def setup(ex, st):
        o = model_obj(ex, st)
        o["args"] = [V(REAL, [o[a]]) for a in "xyz"]
        return o

    def post(ex, st, o, ret):
        return [("contained exactly when the model coordinates are in the closed box", ret.x == box(o))]
    return Task(MO + "::contains", setup, post, name="Model::contains", contracts={MO + "::_toModelXYZ": c_tomodel})


# ------------------------------------------------------------------------------------------ block selection
def c_ztop(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "block exists")
    return V(REAL, [ZTOP(this.x)])


def c_zbot(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "block exists")
    return V(REAL, [ZBOT(this.x)])


def blocks(ex, st, ref=MREF):
    n = z3.Int("nblocks")
    rw = z3.Const("blocks", z3.ArraySort(I, I))
    i, j = z3.Ints("bi bj")
    st.assume(n >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(rw, i) > 0), patterns=[z3.Select(rw, i)]))
    q, t = ex.prog.field_type(MO, "_blocks")
    setf(ex, st, ref, MO, "_blocks", [n, rw])
    return n, rw


def covers(b, z, tol=0):
    return z3.And(z <= ZTOP(b) + tol, z >= ZBOT(b) - tol)


def first_covering(n, rw, z, k):
    """block k is the first of the list whose closed depth range covers z"""
    j = z3.Int("fj")
    return z3.And(k >= 0, k < n, covers(z3.Select(rw, k), z), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(covers(z3.Select(rw, j), z))), patterns=[z3.Select(rw, j)]))


def t_findblock():
    def setup(ex, st):
        o = model_obj(ex, st)
        n, rw = blocks(ex, st)
        o.update(n=n, rw=rw, args=[V(REAL, [o[a]]) for a in "xyz"])
        return o

    def post(ex, st, o, ret):
        k = z3.Int("k")
        i = z3.Int("ei")
        n, rw, z = o["n"], o["rw"], o["z"]
        return [("the uppermost covering block is found", z3.Implies(first_covering(n, rw, z, k), ret.x == z3.Select(rw, k))),
                ("a found block covers z (within rounding)", z3.Or(ret.x == 0, covers(ret.x, z, TOL)))]
    return Task(MO + "::_findBlock", setup, post, name="Model::_findBlock", contracts={BL + "::getZTop": c_ztop, BL + "::getZBottom": c_zbot})


def c_findblock(o):
    def f(ex, st, this, args, fn):
        z = args[2].x
        k = z3.Int("k")
        r = z3.Int(fresh_name("blk"))
        st.assume(z3.Implies(first_covering(o["n"], o["rw"], z, k), r == z3.Select(o["rw"], k)))
        st.assume(z3.Or(r == 0, covers(r, z, TOL)))
        return V(Ty("tmpl", (cls(BL),), None, "shared_ptr"), [r])
    return f


def c_blockquery(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "query: block exists")
    return V(PREAL, [BQ(this.x, *[a.x for a in args]), ival(0)])


def c_contains(ex, st, this, args, fn):
    return V(BOOL, [CONTAINS(this.x, *[a.x for a in args])])


def t_query():
    R_ = {}

    def setup(ex, st):
        o = model_obj(ex, st)
        n, rw = blocks(ex, st)
        o.update(n=n, rw=rw, args=[V(REAL, [o[a]]) for a in "xyz"])
        R_.update(o)
        m = [g(ival(MREF), o["x"], o["y"], o["z"]) for g in MXYZ]
        o["m"] = m
        st.assume(CONTAINS(ival(MREF), o["x"], o["y"], o["z"]))
        st.assume(box(o, m))
        k = z3.Int("k")
        st.assume(first_covering(n, rw, m[2], k))
        return o

    def post(ex, st, o, ret):
        m = o["m"]
        return [("answered by the uppermost covering block at the model coordinates", z3.And(ret.t[0] == BQ(z3.Select(o["rw"], z3.Int("k")), *m), ret.t[1] == 0))]
    return Task(MO + "::query", setup, post, name="Model::query", contracts={MO + "::_toModelXYZ": c_tomodel, MO + "::contains": c_contains,
                MO + "::_findBlock": lambda ex, st, this, args, fn: c_findblock(R_)(ex, st, this, args, fn), BL + "::query": c_blockquery})


# ------------------------------------------------------------------------------------------ elevations
def t_elev(which, top, tb):
    def setup(ex, st):
        o = model_obj(ex, st, top=top, tb=tb)
        o["args"] = [V(REAL, [o[a]]) for a in "xy"]
        return o

    def post(ex, st, o, ret):
        m = [g(ival(MREF), o["x"], o["y"], z3.RealVal(0)) for g in MXYZ]
        if which == "top":
            s = TOPREF if top else None
        else:
            s = TBREF if tb else TOPREF if top else None
        if s is None:
            return [("a model without such a surface gives 0", ret.x == 0)]
        c, sn = rotation(o)
        e = SURFQ(ival(s), m[0], m[1])
        X, Y = m[0] * c + m[1] * sn + o["ox"], -m[0] * sn + m[1] * c + o["oy"]
        return [("elevation of the surface at the point's model x, y, converted to the input CRS", ret.x == INV[2](ival(CREF), X, Y, e))]
    f = "queryTopElevation" if which == "top" else "queryTopoBathyElevation"
    return Task(MO + "::" + f, setup, post, name="Model::%s, top %d, topography %d" % (f, top, tb),
                contracts={MO + "::_toModelXYZ": c_tomodel, SU + "::query": c_surface_query, CT + "::inverse_transform": c_transform(INV)})


def rotation_lemma():
    """the inverse rotation used for elevations undoes the rotation of the mapping"""
    c, s, x, y = z3.Reals("c s x y")
    u, v = x * c - y * s, x * s + y * c
    return [("x", [c * c + s * s == 1], u * c + v * s == x), ("y", [c * c + s * s == 1], -u * s + v * c == y)]


def stretch_lemma():
    g, D, z, w = z3.Reals("g D z w")
    h = [D > 0, g + D > 0, w * (g + D) == -D * (g - z)]
    return [("the surface maps to 0", h + [z == g], w == 0), ("the bottom stays at -dim_z", h + [z == -D], w == -D), ("points below the surface are below 0", h + [z < g], w < 0)]


def tasks_map():
    return [t_tomodel(True, True), t_tomodel(False, True), t_tomodel(True, False), t_contains(), Lemma("rotation lemma", rotation_lemma), Lemma("depth stretch lemma", stretch_lemma)]


def tasks_block():
    return [t_findblock(), t_query()]


def tasks_elev():
    return [t_elev(w, t, b) for w in ("top", "topobathy") for t in (0, 1) for b in (0, 1)]
