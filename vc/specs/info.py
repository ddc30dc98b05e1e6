"""Contracts of geomodelgrids_info --verify (C20)."""
import re
from ..spec import *
from .apps import str_of


MO, BL, SU, CT, INF, IP = S + "Model", S + "Block", S + "Surface", U + "CRSTransformer", A + "_Info", A + "Info"
MREF, TOPREF, TBREF, IREF = 51, 53, 54, 55
RES = {a: z3.Function("RES" + a, I, R) for a in "XY"}
NPT = {a: z3.Function("NPT" + a, I, I) for a in "XY"}
VARAX = {a: z3.Function("VARIABLE" + a, I, B) for a in "XY"}
COORD = {a: z3.Function("COORD" + a, I, I, R) for a in "XY"}
DIMS = [z3.Real("dim_" + a) for a in "xyz"]
ZTOP, ZBOT = z3.Function("ZTOP", I, R), z3.Function("ZBOT", I, R)
UX, UY = z3.Ints("unit_x unit_y")
TOL, ZTOL = z3.Q(1, 1000000), z3.Q(1, 10000)
GAPS = z3.Function("GAPS_ABOVE", I, I)      # joins among the first k+1 blocks that do not meet
COUNTERS = ("lines", "oks", "fails")


def zabs(x):
    return z3.If(x >= 0, x, -x)


def extent(ref, a):
    n = NPT[a](ref)
    return z3.If(VARAX[a](ref), COORD[a](ref, n - 1) - COORD[a](ref, 0), RES[a](ref) * z3.ToReal(n - 1))


def nospan(ref, i):
    return zabs(1 - extent(ref, "XY"[i]) / DIMS[i]) > TOL


def out(ex, st, o, txt):
    if "stringstream" in (o.ty.name or "") or not z3.is_int_value(txt):
        return
    t = str_of(txt)
    if not t:
        return
    for k, n in (("lines", t.count("\n")), ("oks", len(re.findall(r"\bOK\b", t))), ("fails", len(re.findall(r"\bFAIL\b", t)))):
        if n:
            st.ghost[k] = V(SIZE, [simp(st.ghost[k].x + n)])


def init(ex, st):
    for k in COUNTERS + ("verified", "surfaces", "joins", "crs", "meta", "opened"):
        st.ghost[k] = V(SIZE, [ival(0)])


def get(f, ty=REAL):
    return lambda ex, st, this, args, fn: V(ty, [f(this.x)])


def coords(a):
    def f(ex, st, this, args, fn):
        base = z3.Function("COORDBASE" + a, I, I)(this.x)
        k = ex.mkey(REAL)
        st.assume(z3.And(base > 0, ex.LEN(base) == NPT[a](this.x), NPT[a](this.x) >= 2))
        m = ex.cellof(st, "mem", k)[0]
        st.assume(z3.And(z3.Select(z3.Select(m, base), 0) == COORD[a](this.x, 0), z3.Select(z3.Select(m, base), NPT[a](this.x) - 1) == COORD[a](this.x, NPT[a](this.x) - 1)))
        return V(PREAL, [z3.If(VARAX[a](this.x), base, ival(0)), ival(0)])
    return f


def dims_of(ex, st, this, args, fn):
    base = z3.Function("DIMBASE", I, I)(this.x)
    k = ex.mkey(SIZE)
    m = ex.cellof(st, "mem", k)[0]
    st.assume(z3.And(base > 0, ex.LEN(base) >= 2, NPT["X"](this.x) >= 1, NPT["Y"](this.x) >= 1))
    st.assume(z3.And(z3.Select(z3.Select(m, base), 0) == NPT["X"](this.x), z3.Select(z3.Select(m, base), 1) == NPT["Y"](this.x)))
    return V(PSIZE, [base, ival(0)])


def model_dims(ex, st, this, args, fn):
    p = arr(ex, st, 900, DIMS, REAL, "dims")
    st.assume(z3.And([d > 0 for d in DIMS]))
    return p


def units(ex, st, this, args, fn):
    for p, u in zip(args[:2], (UX, UY)):
        if not (p.ty.k == "null"):
            ex.write(st, ex.deref(st, p), V(STR, [u]))
    ex.oblige(st, "pre", args[3].x == z3.Int("crs_string"), "the units of the model's coordinate system")
    return V(VOID, [])


def shared(t, ref):
    return V(Ty("tmpl", (cls(t),), None, "shared_ptr"), [ref])


GETTERS = {}
for c_ in (BL, SU):
    for a_ in "XY":
        GETTERS[c_ + "::getResolution" + a_] = get(RES[a_])
        GETTERS[c_ + "::getCoordinates" + a_] = coords(a_)
    GETTERS[c_ + "::getDims"] = dims_of
GETTERS[BL + "::getName"] = lambda ex, st, this, args, fn: V(STR, [z3.Function("BLOCKNAME", I, I)(this.x)])
GETTERS[BL + "::getZTop"] = get(ZTOP)
GETTERS[BL + "::getZBottom"] = get(ZBOT)
GETTERS[MO + "::getDims"] = model_dims
GETTERS[MO + "::getCRSString"] = lambda ex, st, this, args, fn: V(STR, [z3.Int("crs_string")])
GETTERS[CT + "::getCRSUnits"] = units
HASTOP, HASTB = z3.Bools("has_top_surface has_topography")
GETTERS[MO + "::getTopSurface"] = lambda ex, st, this, args, fn: shared(SU, z3.If(HASTOP, ival(TOPREF), ival(0)))
GETTERS[MO + "::getTopoBathy"] = lambda ex, st, this, args, fn: shared(SU, z3.If(HASTB, ival(TBREF), ival(0)))
HOOKS = {"out": out}


def verdict(st, start, failing):
    """OK if nothing fails, otherwise FAIL; and one line for every check that fails"""
    g = lambda k: st.ghost[k].x - start.ghost[k].x
    n = z3.Sum([z3.If(f, 1, 0) if f.sort() == B else f for f in failing])
    return [("OK exactly when nothing fails", g("oks") == z3.If(n == 0, 1, 0)), ("FAIL exactly when something fails", g("fails") == z3.If(n == 0, 0, 1)),
            ("every check that fails is reported", g("lines") == 1 + n)]


def t_surface():
    def setup(ex, st):
        init(ex, st)
        m = this_obj(ex, st, MO, MREF)
        s = this_obj(ex, st, SU, TOPREF)
        o = dict(this=None, args=[s, m, V(STR, [z3.Int("surface_name")])], start=st.fork())
        st.assume(z3.Int("surface_name") > 0)
        o["inputs"] = {"resolution x": RES["X"](TOPREF), "points x": NPT["X"](TOPREF), "variable x": VARAX["X"](TOPREF), "dim x": DIMS[0]}
        return o

    def post(ex, st, o, ret):
        return verdict(st, o["start"], [nospan(ival(TOPREF), 0), nospan(ival(TOPREF), 1)])
    return Task(INF + "::verifySurface", setup, post, None, name="verifySurface", contracts=GETTERS, hooks=HOOKS)


def notmultiple(ref, i):
    a = "XY"[i]
    r, t = RES[a](ref), RES[a](TOPREF)
    k = z3.ToInt(z3.Q(1, 100) + r / t)
    return z3.And(HASTOP, t > 0, zabs(z3.ToReal(k) * t - r) > TOL)


def t_block():
    ref = ival(61)

    def setup(ex, st):
        init(ex, st)
        m = this_obj(ex, st, MO, MREF)
        s = this_obj(ex, st, BL, 61)
        st.assume(lib.CLSTAG(ival(TOPREF)) == lib.clstag(ex.prog.cls(SU)))
        for a in "XY":
            st.assume(z3.And(RES[a](ref) >= 0, RES[a](TOPREF) >= 0))
        o = dict(this=None, args=[s, m], start=st.fork())
        o["inputs"] = {"resolution x": RES["X"](ref), "points x": NPT["X"](ref), "variable x": VARAX["X"](ref), "dim x": DIMS[0], "surface resolution": RES["X"](TOPREF), "top surface": HASTOP}
        return o

    def post(ex, st, o, ret):
        return verdict(st, o["start"], [nospan(ref, 0), nospan(ref, 1), notmultiple(ref, 0), notmultiple(ref, 1)])
    return Task(INF + "::verifyBlock", setup, post, None, name="verifyBlock", contracts=GETTERS, hooks=HOOKS, budget=100)


def blocks_vec(ex, st):
    """the model's blocks, top to bottom"""
    nb, refs = z3.Int("numBlocks"), z3.Const("blocks", z3.ArraySort(I, I))
    i = z3.Int("bi")
    st.assume(nb >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nb), z3.Select(refs, i) > 0)))
    return V(Ty("tmpl", (Ty("tmpl", (cls(BL),), None, "shared_ptr"),), None, "vector"), [nb, refs]), nb, refs


def gap(refs, i):
    return zabs(ZBOT(z3.Select(refs, i - 1)) - ZTOP(z3.Select(refs, i))) > ZTOL


def t_blocksz():
    def setup(ex, st):
        init(ex, st)
        v, nb, refs = blocks_vec(ex, st)
        bot = z3.Real("z_bottom")
        st.loc["arg:blocks"] = v
        st.assume(GAPS(0) == 0)
        o = dict(this=None, args=[Alias(Local("arg:blocks", v.ty)), V(REAL, [bot])], start=st.fork(), nb=nb, refs=refs, bot=bot)
        o["inputs"] = {"blocks": nb, "z bottom": bot}
        return o

    def post(ex, st, o, ret):
        nb, refs = o["nb"], o["refs"]
        return verdict(st, o["start"], [nb == 0, z3.And(nb > 0, zabs(ZTOP(z3.Select(refs, 0))) > ZTOL), z3.If(nb > 0, GAPS(nb - 1), ival(0)),
                                        z3.And(nb > 0, zabs(ZBOT(z3.Select(refs, nb - 1)) - o["bot"]) > ZTOL)])

    def inv(ex, s, start, K):
        g = lambda k: s.ghost[k].x
        refs = z3.Const("blocks", z3.ArraySort(I, I))
        # the definition of the number of gaps, at this iteration
        s.pc.append(z3.And(GAPS(K) >= 0, GAPS(K + 1) == GAPS(K) + z3.If(gap(refs, K + 1), 1, 0)))
        s.pc.append(z3.Implies(K >= 1, GAPS(K) == GAPS(K - 1) + z3.If(gap(refs, K), 1, 0)))
        d = g("lines") - g("fails")
        d0 = start.ghost["lines"].x - start.ghost["fails"].x
        return [("every gap so far has its line", d == d0 + GAPS(K)), ("FAIL is printed with the first", g("fails") == z3.If(d > 0, 1, 0)), ("no verdict yet", g("oks") == 0)] + flags(ex, s, start, d)

    def flags(ex, s, start, d):
        """a boolean local that is true exactly while nothing failed"""
        out = []
        for k, v in s.loc.items():
            v0 = start.loc.get(k)
            if isinstance(v, V) and not isinstance(v, (PV, ItV, LamV, ExV)) and v.ty == BOOL and v0 is not None and v0.t is not None and len(v.t) == 1:
                d0 = start.ghost["lines"].x - start.ghost["fails"].x
                if ex.valid(start, v0.x == (d0 == 0)):
                    out.append(("local flag %s" % (k if isinstance(k, str) else "",), v.x == (d == 0)))
        return out
    return Task(INF + "::verifyBlocksZ", setup, post, None, name="verifyBlocksZ", contracts=GETTERS, hooks=dict(HOOKS, inv=[("verifyBlocksZ", inv)]), budget=100)


def t_crs():
    def setup(ex, st):
        init(ex, st)
        return dict(this=None, args=[this_obj(ex, st, MO, MREF)], start=st.fork())
    return Task(INF + "::verifyCoordSys", setup, lambda ex, st, o, ret: verdict(st, o["start"], [UX != UY]), None, name="verifyCoordSys", contracts=GETTERS, hooks=HOOKS)


def bump(st, k):
    st.ghost[k] = V(SIZE, [simp(st.ghost[k].x + 1)])


def t_verify(incomplete):
    """every part of the model is verified, whatever the other parts are like"""
    def ref(args, i):
        return args[i].x

    def c_surface(ex, st, this, args, fn):
        n = st.ghost["surfaces"].x
        r = ref(args, 0)
        want = z3.If(z3.And(HASTOP, n == 0), ival(TOPREF), ival(TBREF))
        ex.oblige(st, "pre", z3.And(r == want, ref(args, 1) == MREF, st.ghost["meta"].x == 1), "each surface of this model is verified")
        bump(st, "surfaces")
        return V(VOID, [])

    def c_block(ex, st, this, args, fn):
        n = st.ghost["verified"].x
        refs = z3.Const("blocks", z3.ArraySort(I, I))
        ex.oblige(st, "pre", z3.And(ref(args, 0) == z3.Select(refs, n), ref(args, 1) == MREF, st.ghost["meta"].x == 1), "each block of this model is verified")
        bump(st, "verified")
        return V(VOID, [])

    def c_z(ex, st, this, args, fn):
        v = ex.read(st, args[0].lv) if isinstance(args[0], Alias) else args[0]
        refs = z3.Const("blocks", z3.ArraySort(I, I))
        ex.oblige(st, "pre", z3.And(v.t[0] == z3.Int("numBlocks"), v.t[1] == refs, args[1].x == -DIMS[2], st.ghost["meta"].x == 1), "the joins of this model's blocks are verified down to its bottom")
        bump(st, "joins")
        return V(VOID, [])

    def c_crs(ex, st, this, args, fn):
        bump(st, "crs")
        return V(VOID, [])

    def c_load(ex, st, this, args, fn):
        bump(st, "meta")
        ex.throw(st, ExV("std::runtime_error", z3.Int("missing_metadata")), z3.Bool("metadata_incomplete"))
        return V(VOID, [])

    con = dict(GETTERS)
    con.update({INF + "::verifySurface": c_surface, INF + "::verifyBlock": c_block, INF + "::verifyBlocksZ": c_z, INF + "::verifyCoordSys": c_crs, MO + "::loadMetadata": c_load,
                MO + "::getBlocks": lambda ex, st, this, args, fn: blocks_vec(ex, st)[0]})

    def setup(ex, st):
        init(ex, st)
        t = this_obj(ex, st, IP, IREF)
        m = this_obj(ex, st, MO, MREF)
        for r in (TOPREF, TBREF):
            st.assume(lib.CLSTAG(ival(r)) == lib.clstag(ex.prog.cls(SU)))
        st.assume(z3.Bool("metadata_incomplete") == z3.BoolVal(incomplete))
        for a in "XY":
            for r in (TOPREF, TBREF):
                if not incomplete:
                    st.assume(z3.Implies(z3.Not(VARAX[a](ival(r))), RES[a](ival(r)) > 0))     # C14: what complete metadata guarantees
        return dict(this=t, args=[m], start=st.fork())

    def post(ex, st, o, ret):
        g = lambda k: st.ghost[k].x
        bad = z3.Bool("metadata_incomplete")
        diff = z3.And(HASTOP, HASTB, z3.Or([z3.And(z3.Not(VARAX[a](ival(TOPREF))), z3.Not(VARAX[a](ival(TBREF))), zabs(1 - RES[a](TBREF) / RES[a](TOPREF)) > ZTOL) for a in "XY"]))
        return [("metadata is verified", g("meta") == 1), ("the coordinate system is verified", g("crs") == 1),
                ("each surface is verified", g("surfaces") == z3.If(HASTOP, 1, 0) + z3.If(HASTB, 1, 0)),
                ("each block is verified", g("verified") == z3.Int("numBlocks")), ("joins are verified", g("joins") == 1),
                ("incomplete metadata and differing surfaces are reported", g("fails") == z3.If(bad, 1, 0) + z3.If(diff, 1, 0)),
                ("complete metadata is OK", g("oks") == z3.If(bad, 0, 1) + z3.If(z3.And(HASTOP, HASTB, z3.Not(diff)), 1, 0))]
    # resolutions missing from incomplete metadata are 0; a quotient is then whatever IEEE division gives, and the verdict is FAIL because of the metadata
    return Task(IP + "::_verify", setup, post, None, name="Info::_verify, %s metadata" % ("incomplete" if incomplete else "complete"), contracts=con, hooks=HOOKS, budget=100,
                kinds=("assert", "bounds", "null", "post", "pre", "ub", "exc", "inv", "sort") if incomplete else None)


def t_run(flag):
    def c_open(ex, st, this, args, fn):
        names = getf(ex, st, IREF, IP, "_modelFilenames")
        ex.oblige(st, "pre", args[0].x == z3.Select(names.t[1], st.ghost["opened"].x), "the models are verified in the order given")
        bump(st, "opened")
        return V(VOID, [])

    def c_verify(ex, st, this, args, fn):
        ex.oblige(st, "pre", st.ghost["opened"].x == st.ghost["verified"].x + 1, "an open model is verified")
        bump(st, "verified")
        return V(VOID, [])
    noop = lambda ex, st, this, args, fn: V(VOID, [])
    con = {MO + "::Model": noop, MO + "::~Model": noop, MO + "::open": c_open, MO + "::close": noop, MO + "::loadMetadata": noop, IP + "::_verify": c_verify, IP + "::_parseArgs": noop, IP + "::_printHelp": noop,
           IP + "::_printDescription": noop, IP + "::_printCoordSys": noop, IP + "::_printValues": noop, IP + "::_printBlocks": noop}

    def setup(ex, st):
        init(ex, st)
        t = this_obj(ex, st, IP, IREF)
        setf(ex, st, IREF, IP, flag, z3.BoolVal(True))
        return dict(this=t, args=[V(INT32, [z3.Int("argc")]), V(ptr(STR), [z3.Int("argv"), ival(0)])])

    def post(ex, st, o, ret):
        f = lambda n: getf(ex, st, IREF, IP, n).x
        n = getf(ex, st, IREF, IP, "_modelFilenames").t[0]
        return [("every model is verified when asked to", z3.Implies(z3.Not(f("_showHelp")), st.ghost["verified"].x == n))]
    return Task(IP + "::run", setup, post, None, name="Info::run with %s" % flag, contracts=con, hooks=HOOKS, budget=60)


def tasks():
    return [t_surface(), t_block(), t_blocksz(), t_crs(), t_verify(False), t_verify(True), t_run("_doVerification"), t_run("_showAll")] + option_tasks()


def option_tasks():
    from .apps import t_option, names, OPTARG
    T = z3.BoolVal(True)
    return [t_option("Info", "q", lambda ex, old, g: {"_doVerification": T}), t_option("Info", "a", lambda ex, old, g: {"_showAll": T}), t_option("Info", "m", lambda ex, old, g: {"_modelFilenames": lambda v: [(n, z3.Implies(OPTARG != strlit(""), g)) for n, g in names(v)], "_showHelp": T})]
