"""Contracts of geomodelgrids::serial::Query / _Query."""
from ..spec import *
from .hyperslab import NODATA
from .model import CONTAINS, MO

QU, QH, EH = S + "Query", S + "_Query", U + "ErrorHandler"
QREF, EREF = 61, 62
B_OUT = 601
MVAL = z3.Function("MVAL", I, R, R, R, I, R)          # Model::query: value v at a point
NVALS = z3.Function("NVALS", I, I)                    # number of values of a model
TOPEL = z3.Function("TOPELEV", I, R, R, R)
TBEL = z3.Function("TBELEV", I, R, R, R)
OK_, WARN, ERR = 0, 1, 2


def c_contains(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "contains: model exists")
    return V(BOOL, [CONTAINS(this.x, *[a.x for a in args])])


def c_model_query(ex, st, this, args, fn):
    """contract of Model::query (C01, C05, C06): the values of the model at a contained point"""
    x = [a.x for a in args]
    ex.oblige(st, "null", this.x != 0, "query: model exists")
    ex.oblige(st, "pre", CONTAINS(this.x, *x), "query: the model contains the point")
    b = ex.new_base(st)
    k = ex.mkey(REAL)
    m = ex.cellof(st, "mem", k)[0]
    j = z3.Int(fresh_name("j"))
    st.mem[k] = [z3.Store(m, b, z3.Lambda([j], MVAL(this.x, *(x + [j]))))]
    st.assume(ex.LEN(b) == NVALS(this.x))
    return V(PREAL, [b, ival(0)])


def c_el(f):
    def g(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, "elevation: model exists")
        return V(REAL, [f(this.x, args[0].x, args[1].x)])
    return g


def c_seterror(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "error handler exists")
    st.ghost["errors"] = V(INT32, [ival(1)])
    return V(VOID, [])


CON = {MO + "::contains": c_contains, MO + "::query": c_model_query, MO + "::queryTopElevation": c_el(TOPEL), MO + "::queryTopoBathyElevation": c_el(TBEL), EH + "::setError": c_seterror}


def models(ex, st, n):
    rw = z3.Const("models", z3.ArraySort(I, I))
    i = z3.Int("mi")
    st.assume(n >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(rw, i) > 0), patterns=[z3.Select(rw, i)]))
    setf(ex, st, QREF, QU, "_models", [n, rw])
    return rw


def query_obj(ex, st, nq=None):
    t = this_obj(ex, st, QU, QREF)
    n = z3.Int("nmodels")
    nq = z3.Int("nvalues") if nq is None else nq
    o = dict(this=t, n=n, nq=nq, squash=z3.Int("squash"), m=z3.Real("minelev"), x=z3.Real("x"), y=z3.Real("y"), z=z3.Real("z"))
    o["mods"] = models(ex, st, n)
    st.assume(nq >= 0)
    st.assume(z3.And(o["squash"] >= 0, o["squash"] <= 2))
    setf(ex, st, QREF, QU, "_squash", o["squash"])
    setf(ex, st, QREF, QU, "_squashMinElev", o["m"])
    setf(ex, st, QREF, QU, "_errorHandler", [ival(EREF)])
    setf(ex, st, QREF, QU, "_valuesLowercase", [nq, z3.Const("names", z3.ArraySort(I, I))])
    AI, AB = z3.ArraySort(I, I), z3.ArraySort(I, B)
    siz, has, val = z3.Const("vi_size", AI), z3.Const("vi_has", z3.ArraySort(I, AB)), z3.Const("vi_val", z3.ArraySort(I, AI))
    setf(ex, st, QREF, QU, "_valuesIndex", [n, siz, has, val])
    o.update(has=has, val=val, siz=siz)
    i, j = z3.Ints("vi vj")
    v = z3.Select(z3.Select(val, i), j)
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < nq), z3.And(z3.Select(z3.Select(has, i), j), v >= 0, v < NVALS(z3.Select(o["mods"], i)))), patterns=[v, z3.Select(z3.Select(has, i), j)]))
    st.assume(z3.Implies(o["squash"] != 0, o["m"] != 0))
    o["inputs"] = {k: o[k] for k in ("x", "y", "z", "squash", "m", "n", "nq")}
    return o


def zq(o, mod):
    """the elevation at which model mod is asked (documented squashing)"""
    z, m = o["z"], o["m"]
    s = z3.If(o["squash"] == 1, TOPEL(mod, o["x"], o["y"]), TBEL(mod, o["x"], o["y"]))
    return z3.If(z3.And(o["squash"] != 0, z > m), s + z * (m - s) / m, z)


def contained(o, i):
    mod = z3.Select(o["mods"], i)
    return CONTAINS(mod, o["x"], o["y"], zq(o, mod))


def first_model(o, k):
    j = z3.Int("fm")
    return z3.And(k >= 0, k < o["n"], contained(o, k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(contained(o, j))), patterns=[z3.Select(o["mods"], j)]))


def t_query(case):
    """case: first (some model contains the point; k is the first), none, null, empty"""
    def setup(ex, st):
        o = query_obj(ex, st, ival(0) if case == "empty" else None)
        out, orow = symarr(ex, st, B_OUT, z3.Int("outlen"), REAL, "out0")
        st.assume(z3.Int("outlen") >= o["nq"])
        if case == "null":
            out = V(PREAL, [ival(0), ival(0)])
        elif case == "empty":
            st.assume(o["nq"] == 0)
        else:
            st.assume(o["nq"] >= 1)
        if case == "first":
            st.assume(first_model(o, z3.Int("k")))
        elif case == "none":
            j = z3.Int("fm")
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o["n"]), z3.Not(contained(o, j))), patterns=[z3.Select(o["mods"], j)]))
        st.ghost["errors"] = V(INT32, [ival(0)])
        o.update(args=[out] + [V(REAL, [o[a]]) for a in "xyz"], out=out, orow=orow)
        return o

    def post(ex, st, o, ret):
        k, v = z3.Ints("k v")
        if case in ("null", "empty"):
            return [("reported as an error", z3.And(ret.x == ERR, st.ghost["errors"].x == 1)), ("frame: nothing is written", same_row_outside(ex, ex.pre, st, None, "real", []))]
        new = z3.Select(row(ex, st, o["out"]), v)
        inr = z3.And(v >= 0, v < o["nq"])
        mod = z3.Select(o["mods"], k)
        g = [("nothing beyond the requested values is written", z3.Implies(z3.Or(v < 0, v >= o["nq"]), new == z3.Select(o["orow"], v)))]
        if case == "first":
            g += [("status OK", ret.x == OK_),
                  ("every value is the first containing model's value of that name", z3.Implies(inr, new == MVAL(mod, o["x"], o["y"], zq(o, mod), z3.Select(z3.Select(o["val"], k), v))))]
        else:
            g += [("status WARNING", ret.x == WARN), ("every value is NODATA", z3.Implies(inr, new == NODATA))]
        return g
    return Task(QU + "::query", setup, post, name="Query::query, %s" % {"first": "some model contains the point", "none": "no model contains it", "null": "null array", "empty": "not initialized"}[case],
                contracts=CON)


# ------------------------------------------------------------------------------------------ elevations
def t_elev(which, case):
    F = TOPEL if which == "Top" else TBEL

    def hit(o, i):
        mod = z3.Select(o["mods"], i)
        return CONTAINS(mod, o["x"], o["y"], F(mod, o["x"], o["y"]) - z3.Q(1, 1000))

    def setup(ex, st):
        o = query_obj(ex, st)
        j = z3.Int("fm")
        k = z3.Int("k")
        if case == "first":
            st.assume(z3.And(k >= 0, k < o["n"], hit(o, k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(hit(o, j))), patterns=[z3.Select(o["mods"], j)])))
        else:
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o["n"]), z3.Not(hit(o, j))), patterns=[z3.Select(o["mods"], j)]))
        o["args"] = [V(REAL, [o[a]]) for a in "xy"]
        return o

    def post(ex, st, o, ret):
        if case == "first":
            return [("the elevation of the first model containing the point just below it", ret.x == F(z3.Select(o["mods"], z3.Int("k")), o["x"], o["y"]))]
        return [("NODATA when no model qualifies", ret.x == NODATA)]
    return Task(QU + "::query%sElevation" % which, setup, post, name="Query::query%sElevation, %s" % (which, case), contracts=CON)


# ------------------------------------------------------------------------------------------ squashing configuration
def t_minelev():
    def setup(ex, st):
        o = query_obj(ex, st)
        o["v"] = z3.Real("value")
        o["args"] = [V(REAL, [o["v"]])]
        return o

    def post(ex, st, o, ret):
        s = getf(ex, st, QREF, QU, "_squash").x
        return [("the minimum elevation is kept", getf(ex, st, QREF, QU, "_squashMinElev").x == o["v"]),
                ("squashing is turned on to the top surface unless a surface was chosen", s == z3.If(o["squash"] == 0, 1, o["squash"]))]
    return Task(QU + "::setSquashMinElev", setup, post, name="Query::setSquashMinElev")


def t_setsquash():
    def setup(ex, st):
        o = query_obj(ex, st)
        o["v"] = z3.Int("value")
        st.assume(z3.And(o["v"] >= 0, o["v"] <= 2))
        o["args"] = [V(INT32, [o["v"]])]
        return o

    def post(ex, st, o, ret):
        return [("the surface is kept", getf(ex, st, QREF, QU, "_squash").x == o["v"]), ("frame: the minimum elevation is unchanged", getf(ex, st, QREF, QU, "_squashMinElev").x == o["m"])]
    return Task(QU + "::setSquashing", setup, post, name="Query::setSquashing")


# ------------------------------------------------------------------------------------------ names and units
STRS = Ty("tmpl", (STR,), None, "vector")


def strvec(name, n):
    return V(STRS, [n, z3.Const(name, z3.ArraySort(I, I))])


def lower(x):
    from ..core import lower as lw
    return lw(x)


def c_tolower(ex, st, this, args, fn):
    """contract of _Query::toLower (proved): element-wise ASCII lower case"""
    v = args[0]
    if isinstance(v, Alias):
        v = ex.read(st, v.lv)
    j = z3.Int(fresh_name("j"))
    return V(STRS, [v.t[0], z3.Lambda([j], lower(z3.Select(v.t[1], j)))])


def t_tolower():
    def setup(ex, st):
        n = z3.Int("n")
        st.assume(n >= 0)
        v = strvec("strings", n)
        return dict(this=None, args=[Alias(Temp(v))], v=v, n=n, inputs={"n": n})

    def post(ex, st, o, ret):
        i = z3.Int("i")
        return [("one string per string", ret.t[0] == o["n"]), ("each is the lower-case form", z3.Implies(z3.And(i >= 0, i < o["n"]), z3.Select(ret.t[1], i) == lower(z3.Select(o["v"].t[1], i))))]
    return Task(QH + "::toLower", setup, post, name="_Query::toLower")


MODREF, INFOREF = 63, 64


def t_createindex():
    def setup(ex, st):
        m = this_obj(ex, st, MO, MODREF)
        n, nq = z3.Ints("nmodelnames nq")
        st.assume(z3.And(n >= 0, nq >= 0))
        names, q = strvec("modelNames", n), strvec("queryLower", nq)
        setf(ex, st, MODREF, MO, "_valueNames", names.t)
        setf(ex, st, MODREF, MO, "_info", [ival(INFOREF)])
        i = z3.Int("si")
        return dict(this=None, args=[Alias(Obj(ival(MODREF), cls(MO))), Alias(Temp(q))], names=names, q=q, n=n, nq=nq, inputs={"n": n, "nq": nq})

    def match(o, i, j):
        return lower(z3.Select(o["names"].t[1], j)) == z3.Select(o["q"].t[1], i)

    def post(ex, st, o, ret):
        i = z3.Int("i")
        v = z3.Select(ret.t[2], i)
        inr = z3.And(i >= 0, i < o["nq"])
        return [("every requested name is mapped", z3.Implies(inr, z3.Select(ret.t[1], i))),
                ("to a model value of that name, ignoring case", z3.Implies(inr, z3.And(v >= 0, v < o["n"], match(o, i, v)))),
                ("and nothing else is mapped", ret.t[0] == o["nq"])]

    def exc(ex, st, o, x):
        from ..core import str_contains
        i, j = z3.Ints("i j")
        return [("fails only when some requested name is missing", z3.Exists([i], z3.And(i >= 0, i < o["nq"], z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o["n"]), z3.Not(match(o, i, j))))))),
                ("by an invalid-argument error", z3.BoolVal(x.cls == "std::invalid_argument"))]
    return Task(QH + "::createModelValuesIndex", setup, post, exc, name="_Query::createModelValuesIndex",
                contracts={QH + "::toLower": c_tolower, S + "ModelInfo::getTitle": lambda ex, st, this, args, fn: V(STR, [fresh("title", I)])})


def t_checkunits():
    MAPS = Ty("tmpl", (SIZE, STR), None, "map")
    MAPI = Ty("tmpl", (SIZE, SIZE), None, "map")

    def setup(ex, st):
        nq, n = z3.Ints("nq n")
        st.assume(z3.And(nq >= 0, n >= 0))
        has, val = z3.Const("u_has", z3.ArraySort(I, B)), z3.Const("u_val", z3.ArraySort(I, I))
        ih, iv = z3.Const("i_has", z3.ArraySort(I, B)), z3.Const("i_val", z3.ArraySort(I, I))
        un = V(MAPS, [z3.Int("u_n"), has, val])
        ix = V(MAPI, [nq, ih, iv])
        j = z3.Int("uj")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nq), z3.And(z3.Select(ih, j), z3.Select(iv, j) >= 0, z3.Select(iv, j) < n)), patterns=[z3.Select(iv, j), z3.Select(ih, j)]))
        names, units = strvec("names", n), strvec("units", n)
        cell = Field(ival(65), ex.hkey("*" + repr(MAPS), "val", MAPS), MAPS)
        ex.write(st, cell, un)
        icell = Field(ival(66), ex.hkey("*" + repr(MAPI), "val", MAPI), MAPI)
        ex.write(st, icell, ix)
        return dict(this=None, args=[V(ptr(MAPS), [ival(65)]), Alias(icell), Alias(Temp(names)), Alias(Temp(units))], has=has, val=val, ix=ix, iv=iv, units=units, nq=nq, cell=cell, inputs={"nq": nq})

    def unit(o, i):
        return z3.Select(o["units"].t[1], z3.Select(o["iv"], i))

    def post(ex, st, o, ret):
        i = z3.Int("i")
        u = ex.read(st, o["cell"])
        inr = z3.And(i >= 0, i < o["nq"])
        return [("every requested value has recorded units: this model's", z3.Implies(inr, z3.And(z3.Select(u.t[1], i), z3.Select(u.t[2], i) == unit(o, i)))),
                ("recorded units agree with this model's", z3.Implies(z3.And(inr, z3.Select(o["has"], i)), z3.Select(o["val"], i) == unit(o, i))),
                ("recorded units are kept", z3.Implies(z3.Select(o["has"], i), z3.And(z3.Select(u.t[1], i), z3.Select(u.t[2], i) == z3.Select(o["val"], i)))),
                ("nothing else is recorded", z3.Implies(z3.And(z3.Not(inr), z3.Not(z3.Select(o["has"], i))), z3.Not(z3.Select(u.t[1], i))))]

    def exc(ex, st, o, x):
        i = z3.Int("i")
        return [("fails only when a requested value has different units", z3.Exists([i], z3.And(i >= 0, i < o["nq"], z3.Select(o["has"], i), z3.Select(o["val"], i) != unit(o, i)))),
                ("by a runtime error", z3.BoolVal(x.cls == "std::runtime_error"))]
    return Task(QH + "::checkUnits", setup, post, exc, name="_Query::checkUnits")

# ------------------------------------------------------------------------------------------ initialization
# what was done to a model object: learnt only by executing the call (each is done once per object)
FILEIN, CRSIN = z3.Function("OPENED_FILE", I, I), z3.Function("INPUT_CRS", I, I)
META, INITED = z3.Function("METADATA_LOADED", I, B), z3.Function("MODEL_INITIALIZED", I, B)
IDX = z3.Function("VALUE_INDEX", I, I, I)              # model, requested value -> index of the model's value (createModelValuesIndex)
UNITS = z3.Function("MODEL_UNITS", I, I, I)            # model, value -> units
NUNITS = z3.Function("MODEL_NUNITS", I, I)
NAMESOF = z3.Function("MODEL_NAMES", I, I, I)
BADF, BADM, BADC, BADN = z3.Function("CANNOT_OPEN", I, B), z3.Function("BAD_METADATA", I, B), z3.Function("CANNOT_INITIALIZE", I, I, B), z3.Function("LACKS_NAME", I, B)
MSG = z3.Int("model_message")
MAPS = Ty("tmpl", (SIZE, STR), None, "map")
MAPI = Ty("tmpl", (SIZE, SIZE), None, "map")


def c_new(ex, st, this, args, fn):
    return V(VOID, [])


def sarg(ex, st, a):
    return (ex.read(st, a.lv) if isinstance(a, Alias) else a).x


def c_crs(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "setInputCRS: model exists")
    st.assume(CRSIN(this.x) == sarg(ex, st, args[0]))
    return V(VOID, [])


def c_open(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "open: model exists")
    ex.oblige(st, "pre", args[1].x == 0, "open: the model is opened for reading")
    f = sarg(ex, st, args[0])
    ex.throw(st, ExV("std::runtime_error", MSG), BADF(f))
    st.assume(FILEIN(this.x) == f)
    return V(VOID, [])


def c_meta(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "loadMetadata: model exists")
    f = z3.Int(fresh_name("f"))
    ex.throw(st, ExV("std::runtime_error", MSG), BADM(FILEIN(this.x)))
    st.assume(META(this.x))
    return V(VOID, [])


def c_inimodel(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "initialize: model exists")
    ex.oblige(st, "pre", META(this.x), "initialize: the metadata was loaded")
    ex.throw(st, ExV("std::runtime_error", MSG), BADC(FILEIN(this.x), CRSIN(this.x)))
    st.assume(INITED(this.x))
    return V(VOID, [])


def c_index(ex, st, this, args, fn):
    """contract of createModelValuesIndex (proved): maps every requested name, or fails"""
    m = args[0]
    ref = m.lv.ref if isinstance(m, Alias) and isinstance(m.lv, Obj) else m.x
    q = ex.read(st, args[1].lv) if isinstance(args[1], Alias) else args[1]
    ex.oblige(st, "pre", META(ref), "createModelValuesIndex: the metadata was loaded")
    own = getf(ex, st, QREF, QU, "_valuesLowercase")
    i = z3.Int(fresh_name("ci"))
    ex.oblige(st, "pre", z3.And(q.t[0] == own.t[0], z3.Implies(z3.And(i >= 0, i < own.t[0]), z3.Select(q.t[1], i) == z3.Select(own.t[1], i))), "createModelValuesIndex: the requested names")
    ex.throw(st, ExV("std::invalid_argument", MSG), BADN(ref))
    j = z3.Int(fresh_name("j"))
    return V(MAPI, [q.t[0], z3.Lambda([j], z3.And(j >= 0, j < q.t[0])), z3.Lambda([j], IDX(ref, j))])


def c_strs(F):
    def f(ex, st, this, args, fn):
        j = z3.Int(fresh_name("j"))
        st.assume(NUNITS(this.x) >= 0)
        return V(STRS, [NUNITS(this.x), z3.Lambda([j], F(this.x, j))])
    return f


def c_checkunits(ex, st, this, args, fn):
    """contract of checkUnits (proved): records this model's units of every requested value, or fails when recorded units differ"""
    lv = ex.deref(st, args[0])
    u = ex.read(st, lv)
    rd = lambda a: ex.read(st, a.lv) if isinstance(a, Alias) else a
    ix, un = rd(args[1]), rd(args[3])
    i = z3.Int(fresh_name("cu"))
    nq = ix.t[0]
    inr = z3.And(i >= 0, i < nq)
    unit = z3.Select(un.t[1], z3.Select(ix.t[2], i))
    ex.throw(st, ExV("std::runtime_error", MSG), z3.Exists([i], z3.And(inr, z3.Select(u.t[1], i), z3.Select(u.t[2], i) != unit)))
    nh, nv = z3.Const(fresh_name("u_has"), z3.ArraySort(I, B)), z3.Const(fresh_name("u_val"), z3.ArraySort(I, I))
    st.assume(z3.ForAll([i], z3.And(z3.Implies(inr, z3.And(z3.Select(nh, i), z3.Select(nv, i) == unit)), z3.Implies(z3.Select(u.t[1], i), z3.And(z3.Select(nh, i), z3.Select(nv, i) == z3.Select(u.t[2], i)))),
                        patterns=[z3.Select(nv, i), z3.Select(nh, i)]))
    ex.write(st, lv, V(u.ty, [fresh("u_n", I), nh, nv]))
    return V(VOID, [])


def t_initialize():
    def setup(ex, st):
        o = query_obj(ex, st)
        nf, nv = z3.Ints("nfiles nrequested")
        st.assume(z3.And(nf >= 0, nv >= 0))
        files, vals = strvec("files", nf), strvec("requested", nv)
        o.update(args=[Alias(Temp(files)), Alias(Temp(vals)), Alias(Temp(V(STR, [z3.Int("crs")])))], files=files, vals=vals, nf=nf, nv=nv, inputs={"nfiles": nf, "nrequested": nv})
        return o

    def frame(ex, st, o):
        return [("frame: the squashing surface is unchanged", getf(ex, st, QREF, QU, "_squash").x == o["squash"]),
                ("frame: the minimum elevation is unchanged", getf(ex, st, QREF, QU, "_squashMinElev").x == o["m"])]

    def post(ex, st, o, ret):
        i, j, k = z3.Ints("i j k")
        mods, vi, lows = [getf(ex, st, QREF, QU, n) for n in ("_models", "_valuesIndex", "_valuesLowercase")]
        m = z3.Select(mods.t[1], i)
        inm, inv = z3.And(i >= 0, i < o["nf"]), z3.And(j >= 0, j < o["nv"])
        m2 = z3.Select(mods.t[1], k)
        low = lower(z3.Select(o["units"].t[1], 0)) if "units" in o else None
        un = lambda mm: lower(UNITS(mm, IDX(mm, j)))
        return frame(ex, st, o) + [
            ("as many models as files", z3.And(mods.t[0] == o["nf"], vi.t[0] == o["nf"])),
            ("model i holds file i, opened, loaded and initialized with the input CRS", z3.Implies(inm, z3.And(m != 0, FILEIN(m) == z3.Select(o["files"].t[1], i), CRSIN(m) == z3.Int("crs"), META(m), INITED(m)))),
            ("the requested names are kept in lower case, in order", z3.And(lows.t[0] == o["nv"], z3.Implies(inv, z3.Select(lows.t[1], j) == lower(z3.Select(o["vals"].t[1], j))))),
            ("the value map of model i is that of its own names", z3.Implies(z3.And(inm, inv), z3.And(z3.Select(z3.Select(vi.t[2], i), j), z3.Select(z3.Select(vi.t[3], i), j) == IDX(m, j)))),
            ("all models give the same units for every requested value", z3.Implies(z3.And(inm, inv, k >= 0, k < o["nf"]), un(m) == un(m2))),
        ]

    def exc(ex, st, o, x):
        return frame(ex, st, o)

    def inv(ex, s, start, K):
        # for the arbitrary model i (and k) and requested value j of the postcondition
        try:
            u = [v for k, v in s.loc.items() if isinstance(v, V) and v.ty.k == "tmpl" and v.ty.name == "map"][0]
        except IndexError:
            return None
        mods = getf(ex, s, QREF, QU, "_models")
        j, nv = z3.Ints("j nrequested")
        out = []
        for w in ("i", "k"):
            n = z3.Int(w)
            m = z3.Select(mods.t[1], n)
            out.append(("recorded units are those of every model so far (%s)" % w, z3.Implies(z3.And(n >= 0, n < K, j >= 0, j < nv), z3.And(z3.Select(u.t[1], j), z3.Select(u.t[2], j) == lower(UNITS(m, IDX(m, j)))))))
        return out
    con = {QH + "::toLower": c_tolower, MO + "::Model": c_new, MO + "::~Model": c_new, MO + "::setInputCRS": c_crs, MO + "::open": c_open, MO + "::loadMetadata": c_meta, MO + "::initialize": c_inimodel,
           QH + "::createModelValuesIndex": c_index, QH + "::checkUnits": c_checkunits, MO + "::getValueNames": c_strs(NAMESOF), MO + "::getValueUnits": c_strs(UNITS)}
    return Task(QU + "::initialize", setup, post, exc, name="Query::initialize", contracts=con, hooks={"inv": [("Query::initialize", inv)]}, budget=150)


def tasks_init():
    return [t_initialize()]


def tasks_query():
    return [t_query(c) for c in ("first", "none", "null", "empty")]


def tasks_elev():
    return [t_elev(w, c) for w in ("Top", "TopoBathy") for c in ("first", "none")]


def tasks_config():
    return [t_minelev(), t_setsquash()]


def tasks_names():
    return [t_tolower(), t_createindex()]


def tasks_units():
    return [t_tolower(), t_checkunits()]
