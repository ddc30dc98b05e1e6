"""Contracts of geomodelgrids::utils::CRSTransformer over PROJ (C26)."""
from ..spec import *

CT = U + "CRSTransformer"
_CT = U + "_CRSTransformer"
CREF = 71
CRSOBJ = z3.Function("PJ_OF", I, I)                 # what proj_create(text) describes; 0 if the text is not understood
CSYS = z3.Function("PJ_COORDINATE_SYSTEM", I, I)    # its coordinate system; 0 if it has none of its own
KIND = z3.Function("PJ_KIND", I, I)
BASE = z3.Function("PJ_SOURCE_CRS", I, I)
SUB = z3.Function("PJ_SUB_CRS", I, I, I)
WKT = z3.Function("PJ_WKT", I, I)
NORM = z3.Function("PJ_NORMALIZED", I, I)
NAX = z3.Function("PJ_NUM_AXES", I, I)
UNIT = z3.Function("PJ_AXIS_UNIT", I, I, I)
TR, TRPJ = z3.Function("PJ_CRS_TO_CRS", I, I, I), z3.Function("PJ_CRS_TO_CRS_FROM_PJ", I, I, I)
FWD = [z3.Function("PJ_FWD_" + a, I, R, R, R, R) for a in "xyz"]
INV = [z3.Function("PJ_INV_" + a, I, R, R, R, R) for a in "xyz"]
WHAT = z3.Function("PJ_WHAT", I, I)                 # what a handle stands for
BOUND, COMPOUND = z3.Int("E:PJ_TYPE_BOUND_CRS"), z3.Int("E:PJ_TYPE_COMPOUND_CRS")
PJT = Ty("ptr", Ty("class", name="PJ"))


def handle(ex, st, what):
    """a new PROJ object for `what` (none if what is 0)"""
    h = st.ghost["handle"].x
    st.ghost["handle"] = V(SIZE, [simp(h + 1)])
    st.assume(z3.And(WHAT(h) == what, z3.Implies(h != 0, h > 0)))
    live = st.ghost["live"]
    st.ghost["live"] = V(live.ty, [z3.Store(live.t[0], h, what != 0)])
    st.ghost["open"] = V(SIZE, [simp(st.ghost["open"].x + z3.If(what != 0, 1, 0))])
    return V(PJT, [simp(z3.If(what != 0, h, ival(0)))])


def rvs(ex, st, nodes):
    return [ex.rv(n, st) for n in nodes]


def use(ex, st, v, what):
    ex.oblige(st, "pre", z3.And(v.x != 0, z3.Select(st.ghost["live"].t[0], v.x)), what + " is given an existing PROJ object")
    return WHAT(v.x)


def p_create(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, CRSOBJ(v[1].x))


def p_cs(ex, st, this, a, node):
    v = rvs(ex, st, a)
    cs = CSYS(use(ex, st, v[1], "proj_crs_get_coordinate_system"))
    st.assume(z3.Implies(cs != 0, NAX(cs) >= 1))          # a coordinate system has at least one axis
    return handle(ex, st, cs)


def p_type(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return V(INT32, [KIND(use(ex, st, v[0], "proj_get_type"))])


def p_source(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, BASE(use(ex, st, v[1], "proj_get_source_crs")))


def p_sub(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, SUB(use(ex, st, v[1], "proj_crs_get_sub_crs"), v[2].x))


def p_norm(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, NORM(use(ex, st, v[1], "proj_normalize_for_visualization")))


def p_wkt(ex, st, this, a, node):
    v = rvs(ex, st, a)
    w = WKT(use(ex, st, v[1], "proj_as_wkt"))
    st.assume(z3.And(w > 0, CRSOBJ(w) == WHAT(v[1].x)))           # the WKT of an object describes that object
    return V(STR, [w])


def p_destroy(ex, st, this, a, node):
    v = rvs(ex, st, a)[0]
    live = st.ghost["live"]
    if v.ty.k == "null":
        return V(VOID, [])
    ex.oblige(st, "pre", z3.Or(v.x == 0, z3.Select(live.t[0], v.x)), "proj_destroy is given an existing object or none")
    st.ghost["live"] = V(live.ty, [z3.Store(live.t[0], v.x, z3.BoolVal(False))])
    st.ghost["open"] = V(SIZE, [simp(st.ghost["open"].x - z3.If(v.x != 0, 1, 0))])
    return V(VOID, [])


def p_naxes(ex, st, this, a, node):
    v = rvs(ex, st, a)
    n = NAX(use(ex, st, v[1], "proj_cs_get_axis_count"))
    st.assume(n >= 1)
    return V(INT32, [n])


def p_axis(ex, st, this, a, node):
    v = rvs(ex, st, a[:3])
    cs = use(ex, st, v[1], "proj_cs_get_axis_info")
    ex.oblige(st, "pre", z3.And(v[2].x >= 0, v[2].x < NAX(cs)), "the axis exists")
    p = ex.rv(a[7], st)
    if not isinstance(p, PV):
        raise Unsupported("proj_cs_get_axis_info: unit name %r" % (p,))
    ex.write(st, p.lv, V(STR, [UNIT(cs, v[2].x)]))
    st.assume(UNIT(cs, v[2].x) > 0)
    for i in (3, 4, 5, 6, 8, 9):
        q = ex.rv(a[i], st)
        if not (q.ty.k == "null" or q.t is not None and z3.is_int_value(simp(q.t[0]))):
            raise Unsupported("proj_cs_get_axis_info: argument %d" % i)
    return V(INT32, [ival(1)])


def p_crs2crs(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, TR(v[1].x, v[2].x))


def p_crs2crs_pj(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return handle(ex, st, TRPJ(use(ex, st, v[1], "proj_create_crs_to_crs_from_pj"), use(ex, st, v[2], "proj_create_crs_to_crs_from_pj")))


COORDT = Ty("class", name="PJ_COORD")
XYZT = Ty("class", name="PJ_XYZT")


def part(ex, st, c, a):
    """member xyzt.a of the coordinate c, as the code reads it"""
    xyzt = ex.read(st, Field(c, ex.hkey("PJ_COORD", "xyzt", XYZT), XYZT))
    return ex.read(st, Field(xyzt.x, ex.hkey("PJ_XYZT", a, REAL), REAL)).x


def coord(ex, st, xyzt):
    c = fresh("coord", I)
    for a, t in zip("xyzt", xyzt):
        st.assume(part(ex, st, c, a) == t)
    return V(COORDT, [c])


def p_coord(ex, st, this, a, node):
    v = rvs(ex, st, a)
    return coord(ex, st, [x.x for x in v])


def p_trans(ex, st, this, a, node):
    v = rvs(ex, st, a)
    w = use(ex, st, v[0], "proj_trans")
    c = v[2].x
    d = simp(v[1].x)
    x, y, z, t = [part(ex, st, c, k) for k in "xyzt"]
    fwd, inv = z3.Int("E:PJ_FWD"), z3.Int("E:PJ_INV")
    st.assume(fwd != inv)
    ex.oblige(st, "pre", z3.Or(d == fwd, d == inv), "a direction is given")
    return coord(ex, st, [z3.If(d == fwd, f(w, x, y, z), g(w, x, y, z)) for f, g in zip(FWD, INV)] + [t])


def p_errno(ex, st, this, a, node):
    v = ex.rv(a[0], st)
    if v.ty.k != "null":
        ex.oblige(st, "pre", z3.Or(v.x == 0, z3.Select(st.ghost["live"].t[0], v.x)), "proj_errno is given an existing object or none")
    return V(INT32, [fresh("errno", I)])


CON = {"::proj_create": p_create, "::proj_crs_get_coordinate_system": p_cs, "::proj_get_type": p_type, "::proj_get_source_crs": p_source, "::proj_as_wkt": p_wkt, "::proj_destroy": p_destroy,
       "::proj_cs_get_axis_count": p_naxes, "::proj_cs_get_axis_info": p_axis, "::proj_create_crs_to_crs": p_crs2crs, "::proj_create_crs_to_crs_from_pj": p_crs2crs_pj, "::proj_coord": p_coord, "::proj_trans": p_trans,
       "::proj_errno": p_errno, "::proj_errno_string": lambda ex, st, this, a, node: V(STR, [fresh("errmsg", I)]), "::proj_crs_get_sub_crs": p_sub, "::proj_normalize_for_visualization": p_norm}


def init(ex, st):
    st.ghost["handle"] = V(SIZE, [ival(100)])
    st.ghost["open"] = V(SIZE, [ival(0)])
    st.ghost["live"] = V(Ty("ghost"), [z3.K(I, z3.BoolVal(False))])
    # what PROJ guarantees: 0 stands for nothing
    for f in (CSYS, KIND, BASE):
        st.assume(f(ival(0)) == 0)
    st.assume(z3.Distinct(BOUND, COMPOUND, ival(0)))


def spell(u):
    same = lambda t: lib.lower(u) == lib.lower(strlit(t))
    return z3.If(z3.Or(same("metre"), same("meter")), strlit("meter"), z3.If(same("kilometre"), strlit("kilometer"), u))


def t_axis():
    def setup(ex, st):
        init(ex, st)
        st.loc["unit"] = V(STR, [z3.Int("old_unit")])
        cs = handle(ex, st, z3.Int("coordinate_system"))
        n = z3.Int("axis_index")
        st.assume(z3.And(z3.Int("coordinate_system") > 0, n >= 0, n < NAX(z3.Int("coordinate_system"))))
        return dict(this=None, args=[PV(ptr(STR), Local("unit", STR)), cs, V(INT32, [n])], inputs={"axis": n})
    return Task(_CT + "::getAxisUnit", setup, lambda ex, st, o, ret: [("the unit of the axis asked for", st.loc["unit"].x == spell(UNIT(z3.Int("coordinate_system"), z3.Int("axis_index"))))], None, name="getAxisUnit", contracts=CON)


def t_units(which):
    """which: the outputs that are asked for"""
    def setup(ex, st):
        init(ex, st)
        for k in "xyz":
            st.loc[k] = V(STR, [z3.Int("old_" + k)])
        args = [PV(ptr(STR), Local(k, STR)) if k in which else V(ptr(STR), [ival(0), ival(0)]) if False else (PV(ptr(STR), Local(k, STR)) if k in which else V(Ty("null"), [ival(0)])) for k in "xyz"]
        crs = z3.Int("crs_text")
        return dict(this=None, args=args + [V(STR, [crs])], inputs={"crs": crs})

    def post(ex, st, o, ret):
        crs = z3.Int("crs_text")
        p = z3.If(z3.Or(crs == 0, crs == strlit("")), ival(0), CRSOBJ(crs))
        single = CSYS(p)
        base = z3.If(KIND(p) == BOUND, CSYS(BASE(p)), ival(0))
        one = z3.If(single != 0, single, base)
        cpd = z3.And(p != 0, single == 0, KIND(p) == COMPOUND)
        h = z3.If(cpd, CSYS(SUB(p, 0)), one)
        v = z3.If(cpd, CSYS(SUB(p, 1)), ival(0))
        unk, assumed = strlit("unknown"), strlit("meter (assumed)")
        want = {"x": z3.If(h != 0, spell(UNIT(h, 0)), unk), "y": z3.If(z3.And(h != 0, NAX(h) >= 2), spell(UNIT(h, 1)), unk),
                "z": z3.If(cpd, z3.If(v != 0, spell(UNIT(v, 0)), assumed), z3.If(z3.And(h != 0, NAX(h) >= 3), spell(UNIT(h, 2)), assumed))}
        return [("the %s unit is that of its axis" % k, st.loc[k].x == want[k]) for k in which] + [("nothing else changes", z3.And([st.loc[k].x == z3.Int("old_" + k) for k in "xyz" if k not in which])),
                ("every PROJ object is released", st.ghost["open"].x == 0)]
    return Task(CT + "::getCRSUnits", setup, post, None, name="getCRSUnits(%s)" % (which or "none"), contracts=CON, budget=60)


def t_init():
    def setup(ex, st):
        init(ex, st)
        t = this_obj(ex, st, CT, CREF)
        old = handle(ex, st, z3.Int("old_transform"))
        st.assume(z3.Int("old_transform") >= 0)
        setf(ex, st, CREF, CT, "_proj", [old.x])
        return dict(this=t, args=[])

    def post(ex, st, o, ret):
        s, d = [getf(ex, st, CREF, CT, f).x for f in ("_srcString", "_destString")]
        p = getf(ex, st, CREF, CT, "_proj").x
        return [("the transform goes from the source to the destination CRS", z3.And(p != 0, WHAT(p) == TR(s, d), z3.Select(st.ghost["live"].t[0], p))), ("the old transform is released", st.ghost["open"].x == 1)]

    def exc(ex, st, o, e):
        s, d = [getf(ex, st, CREF, CT, f).x for f in ("_srcString", "_destString")]
        return [("an error only if there is no such transform", TR(s, d) == 0), ("no transform is left", z3.And(getf(ex, st, CREF, CT, "_proj").x == 0, st.ghost["open"].x == 0))]
    return Task(CT + "::initialize", setup, post, exc, name="CRSTransformer::initialize", contracts=CON)


def t_set(m, field):
    def setup(ex, st):
        init(ex, st)
        return dict(this=this_obj(ex, st, CT, CREF), args=[V(STR, [z3.Int("text")])], old=st.fork())

    def post(ex, st, o, ret):
        other = {"_srcString": "_destString", "_destString": "_srcString"}[field]
        return [("%s sets %s" % (m, field), getf(ex, st, CREF, CT, field).x == z3.Int("text")), ("and nothing else", z3.And(getf(ex, st, CREF, CT, other).x == getf(ex, o["old"], CREF, CT, other).x, getf(ex, st, CREF, CT, "_proj").x == getf(ex, o["old"], CREF, CT, "_proj").x))]
    return Task(CT + "::" + m, setup, post, None, name="CRSTransformer::" + m, contracts=CON)


def t_trans(m, F, withz):
    def setup(ex, st):
        init(ex, st)
        t = this_obj(ex, st, CT, CREF)
        p = handle(ex, st, z3.Int("the_transform"))
        st.assume(z3.Int("the_transform") > 0)
        setf(ex, st, CREF, CT, "_proj", [p.x])
        for k in "xyz":
            st.loc[k] = V(REAL, [z3.Real("old_" + k)])
        xyz = z3.Reals("x y z")
        args = [PV(PREAL, Local(k, REAL)) for k in "xy"] + [PV(PREAL, Local("z", REAL)) if withz else V(Ty("null"), [ival(0)])]
        return dict(this=t, args=args + [V(REAL, [a]) for a in xyz], xyz=xyz, inputs=dict(zip("xyz", xyz)))

    def post(ex, st, o, ret):
        w = z3.Int("the_transform")
        return [("%s: %s of the point" % (m, k), st.loc[k].x == f(w, *o["xyz"])) for k, f in zip("xyz", F) if withz or k != "z"] + [("the transform is kept", getf(ex, st, CREF, CT, "_proj").x == 100)]
    return Task(CT + "::" + m, setup, post, None, name="CRSTransformer::%s%s" % (m, "" if withz else ", no z"), contracts=CON)


def t_xyorder():
    def setup(ex, st):
        init(ex, st)
        return dict(this=None, args=[V(STR, [z3.Int("crs_text")])])

    def want():
        p = CRSOBJ(z3.Int("crs_text"))
        return p, NORM(p), TRPJ(p, NORM(p))

    def post(ex, st, o, ret):
        p, n, t = want()
        pr = getf(ex, st, ret.x, CT, "_proj").x
        return [("a transform from the CRS's own axis order to x/y order", z3.And(p != 0, n != 0, t != 0, pr != 0, WHAT(pr) == t, z3.Select(st.ghost["live"].t[0], pr))), ("nothing else is left open", st.ghost["open"].x == 1)]

    def exc(ex, st, o, e):
        p, n, t = want()
        return [("an error only if PROJ cannot provide it", z3.Or(p == 0, n == 0, t == 0)), ("nothing is left open", st.ghost["open"].x == 0)]
    return Task(CT + "::createGeoToXYAxisOrder", setup, post, exc, name="createGeoToXYAxisOrder", contracts=CON)


def t_dtor():
    def setup(ex, st):
        init(ex, st)
        t = this_obj(ex, st, CT, CREF)
        p = handle(ex, st, z3.Int("the_transform"))
        st.assume(z3.Int("the_transform") >= 0)
        setf(ex, st, CREF, CT, "_proj", [p.x])
        return dict(this=t, args=[])
    return Task(CT + "::~CRSTransformer", setup, lambda ex, st, o, ret: [("the transform is released", st.ghost["open"].x == 0)], None, name="~CRSTransformer", contracts=CON)


def tasks():
    return [t_axis()] + [t_units(w) for w in ("xyz", "xy", "z", "")] + [t_init(), t_dtor(), t_set("setSrc", "_srcString"), t_set("setDest", "_destString"),
            t_trans("transform", FWD, True), t_trans("transform", FWD, False), t_trans("inverse_transform", INV, True), t_trans("inverse_transform", INV, False), t_xyorder()]
