"""Contracts of geomodelgrids::serial::HDF5 over (assumed) contracts of the HDF5 C library: results, errors, handle balance."""
from ..spec import *
from ..core import ExV, TXT, cat, str_contains
from ..front import INT

H5, ACC = S + "HDF5", S + "_HDF5Access"
HREF = 71
AI = z3.ArraySort(I, I)
OBJ, GRP, DSET, SPACE, ATTR, TYPE, PLIST, FILE = range(1, 9)
KIND = {OBJ: "object", GRP: "group", DSET: "dataset", SPACE: "dataspace", ATTR: "attribute", TYPE: "datatype", PLIST: "property list", FILE: "file"}
F = z3.Int("file_handle")
# the contents of the file; objects are named by path, attributes by the pair (path, name)
LINK, RESOLVES = z3.Function("LINK", I, B), z3.Function("RESOLVES", I, B)
OTYPE = z3.Function("OBJECT_TYPE", I, I)
ATT = z3.Function("ATTRIBUTE", I, I, I)          # identity of the attribute
HASA = z3.Function("HAS_ATTRIBUTE", I, I, B)
RANK, EXT = z3.Function("RANK", I, I), z3.Function("EXTENT", I, AI)
NLINKS, LNAME, LNAMELEN = z3.Function("NLINKS", I, I), z3.Function("LINK_NAME", I, I, I), z3.Function("LINK_NAME_LENGTH", I, I, I)
ISVAR, TSIZE, ATYPE = z3.Function("IS_VARIABLE_STRING", I, B), z3.Function("TYPE_SIZE", I, I), z3.Function("ATTRIBUTE_TYPE", I, I)
SATTR, LATTR = z3.Function("STRING_VALUE", I, I), z3.Function("STRING_VALUES", I, AI)
J = z3.Int("any_dimension")                       # an arbitrary axis: shapes are compared axis by axis


def g(st, k):
    return st.ghost[k].t[0]


def sg(st, k, v):
    st.ghost[k] = V(Ty("arr"), [v])


def kind_ok(ex, st, h, ks, what):
    ks = ks if isinstance(ks, tuple) else (ks,)
    ex.oblige(st, "pre", z3.Or([z3.Select(g(st, "hk"), h) == k for k in ks]), "%s: the handle is an open %s" % (what, " or ".join(KIND[k] for k in ks)))


def opened(ex, st, ok, kind, src, what):
    """a new handle, or a negative number when the call fails"""
    h = fresh("h_" + what, I)
    bad = fresh("fails_" + what, B)
    good = z3.And(ok, z3.Not(bad))
    st.assume((h >= 0) == good)
    st.assume(z3.Implies(good, z3.And(h > 0, z3.Select(g(st, "hk"), h) == 0)))
    sg(st, "hk", z3.If(good, z3.Store(g(st, "hk"), h, ival(kind)), g(st, "hk")))
    sg(st, "hp", z3.If(good, z3.Store(g(st, "hp"), h, src), g(st, "hp")))
    sg(st, "failed", z3.Or(g(st, "failed"), bad))
    return V(INT(64, 1), [h])


def status(st, what):
    e = fresh("err_" + what, I)
    sg(st, "failed", z3.Or(g(st, "failed"), e < 0))
    return V(INT32, [e])


LIB = {}


def libc(*names):
    def deco(fn):
        def w(ex, st, this, args, node):
            vs = [a if not isinstance(a, dict) else ex.rv(a, st) for a in args]
            vs = [ex.read(st, v.lv) if isinstance(v, Alias) else v for v in vs]
            return fn(ex, st, vs)
        for n in names:
            LIB[n] = w
            LIB["::" + n] = w
        return fn
    return deco


def src(st, h):
    return z3.Select(g(st, "hp"), h)


def _closer(name, kinds):
    @libc(name)
    def f(ex, st, a):
        kind_ok(ex, st, a[0].x, kinds, name)
        sg(st, "hk", z3.Store(g(st, "hk"), a[0].x, ival(0)))
        return status(st, "close")


for nm, ks in (("H5Oclose", (OBJ, GRP, DSET)), ("H5Gclose", GRP), ("H5Dclose", DSET), ("H5Sclose", SPACE), ("H5Aclose", ATTR), ("H5Tclose", TYPE), ("H5Pclose", PLIST)):
    _closer(nm, ks)


@libc("H5Fclose")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Fclose")
    e = status(st, "close")
    sg(st, "hk", z3.If(e.x < 0, g(st, "hk"), z3.Store(g(st, "hk"), a[0].x, ival(0))))
    return e


@libc("H5Pcreate")
def _(ex, st, a):
    return opened(ex, st, z3.BoolVal(True), PLIST, ival(0), "plist")


@libc("H5Pset_cache")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, PLIST, "H5Pset_cache")
    return status(st, "set_cache")


def fileopen(create):
    def f(ex, st, a):
        ex.oblige(st, "null", a[0].x != 0, "file name is not null")
        h = opened(ex, st, z3.BoolVal(True) if create else z3.Function("OPENABLE", I, I, B)(a[0].x, a[1].x), FILE, a[0].x, "file")
        sg(st, "fmode", z3.Store(g(st, "fmode"), h.x, a[1].x))
        sg(st, "fnew", z3.Store(g(st, "fnew"), h.x, ival(1 if create else 0)))
        pl = a[-1].x
        kind_ok(ex, st, pl, PLIST, "opening a file")
        return h
    return f


libc("H5Fcreate")(fileopen(True))
libc("H5Fopen")(fileopen(False))


@libc("H5Lexists")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Lexists")
    r = fresh("link", I)
    st.assume((r > 0) == LINK(a[1].x))
    return V(INT32, [r])


@libc("H5Oopen")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Oopen")
    h = fresh("h_object", I)
    st.assume((h >= 0) == RESOLVES(a[1].x))
    st.assume(z3.Implies(h >= 0, z3.And(h > 0, z3.Select(g(st, "hk"), h) == 0)))
    sg(st, "hk", z3.If(h >= 0, z3.Store(g(st, "hk"), h, ival(OBJ)), g(st, "hk")))
    sg(st, "hp", z3.If(h >= 0, z3.Store(g(st, "hp"), h, a[1].x), g(st, "hp")))
    return V(INT(64, 1), [h])


@libc("H5Oget_info", "H5Oget_info1", "H5Oget_info2")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, (OBJ, GRP, DSET), "H5Oget_info")
    setstruct(ex, st, a[1], "type", OTYPE(src(st, a[0].x)))
    return V(INT32, [ival(0)])


def setstruct(ex, st, p, name, v):
    l = ex.deref(st, p)
    o = ex.read(st, l)
    c = o.ty.name
    k = (c, name)
    if k not in ex.hsorts:
        ex.hsorts[k] = [I]
    cells = ex.cellof(st, "heap", k)
    st.heap[k] = [z3.Store(cells[0], o.x, v)]


@libc("H5Dopen2")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Dopen2")
    return opened(ex, st, RESOLVES(a[1].x), DSET, a[1].x, "dataset")


@libc("H5Gopen2")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Gopen2")
    return opened(ex, st, RESOLVES(a[1].x), GRP, a[1].x, "group")


@libc("H5Gget_info")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, (GRP, FILE), "H5Gget_info")
    n = NLINKS(src(st, a[0].x))
    st.assume(n >= 0)
    setstruct(ex, st, a[1], "nlinks", n)
    return status(st, "group_info")


@libc("H5Lget_name_by_idx")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, GRP, "H5Lget_name_by_idx")
    p, i, buf, size = src(st, a[0].x), a[4].x, a[5], a[6].x
    ex.oblige(st, "pre", z3.And(i >= 0, i < NLINKS(p)), "H5Lget_name_by_idx: index below the number of links")
    n = LNAMELEN(p, i)
    st.assume(n > 0)
    if buf.ty.k == "str" and buf.x.decl().eq(TXT):
        ex.oblige(st, "bounds", size <= ex.LEN(buf.x.arg(0)), "H5Lget_name_by_idx: the buffer has the stated size")
        st.assume(z3.Implies(size > n, buf.x == LNAME(p, i)))
    else:
        ex.oblige(st, "pre", z3.And(buf.x == 0, size == 0), "H5Lget_name_by_idx: a known buffer")
    return V(INT(64, 1), [n])


@libc("H5Dget_space")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, DSET, "H5Dget_space")
    return opened(ex, st, z3.BoolVal(True), SPACE, src(st, a[0].x), "space")


@libc("H5Aget_space")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, ATTR, "H5Aget_space")
    return opened(ex, st, z3.BoolVal(True), SPACE, src(st, a[0].x), "space")


@libc("H5Aget_type")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, ATTR, "H5Aget_type")
    return opened(ex, st, z3.BoolVal(True), TYPE, ATYPE(src(st, a[0].x)), "type")


@libc("H5Tget_size")
def _(ex, st, a):
    # predefined types are not handles of the call: their identity is the type itself
    t = z3.If(z3.Select(g(st, "hk"), a[0].x) == TYPE, src(st, a[0].x), a[0].x)
    st.assume(TSIZE(t) >= 1)
    return V(SIZE, [TSIZE(t)])


@libc("H5Tis_variable_str")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, TYPE, "H5Tis_variable_str")
    r = fresh("isvar", I)
    v = ISVAR(src(st, a[0].x))
    if ex.valid(st, v):
        return V(INT32, [ival(1)])
    st.assume((r != 0) == v)
    return V(INT32, [r])


@libc("H5Sget_simple_extent_ndims")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, SPACE, "H5Sget_simple_extent_ndims")
    r = RANK(src(st, a[0].x))
    st.assume(z3.And(r >= 0, r <= 32))
    return V(INT32, [r])


@libc("H5Sget_simple_extent_dims")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, SPACE, "H5Sget_simple_extent_dims")
    s = src(st, a[0].x)
    r, row_ = RANK(s), EXT(s)
    st.assume(z3.And(r >= 0, r <= 32))
    ex.oblige(st, "pre", z3.BoolVal(a[2].t is not None and z3.is_int_value(simp(a[2].x)) and simp(a[2].x).as_long() == 0), "H5Sget_simple_extent_dims: maximum extents not asked for")
    p = a[1]
    if isinstance(p, PV) and isinstance(p.lv, Elem):
        at = p.lv.par.ty
        ex.oblige(st, "bounds", r <= (at.n or 0), "H5Sget_simple_extent_dims: the array has room for every extent")
        for i in range(at.n or 0):
            st.assume(z3.Select(row_, ival(i)) >= 0)
        v = ex.read(st, p.lv.par)
        arr_ = v.t[0]
        for i in range(at.n or 0):
            arr_ = z3.Store(arr_, ival(i), z3.Select(row_, ival(i)))
        ex.write(st, p.lv.par, V(v.ty, [arr_]))
    else:
        ex.oblige(st, "bounds", z3.Or(z3.And(p.t[0] == 0, r == 0), z3.And(p.t[0] != 0, p.t[1] == 0, ex.LEN(p.t[0]) >= r)), "H5Sget_simple_extent_dims: the array has room for every extent")
        st.assume(z3.Select(row_, J) >= 0)
        k = ex.mkey(SIZE)
        m = ex.cellof(st, "mem", k)[0]
        st.mem[k] = [z3.If(p.t[0] == 0, m, z3.Store(m, p.t[0], row_))]
    return V(INT32, [r])


@libc("H5Aexists_by_name")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Aexists_by_name")
    r = fresh("exists", I)
    st.assume((r > 0) == HASA(a[1].x, a[2].x))
    return V(INT32, [r])


@libc("H5Aopen_by_name")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, FILE, "H5Aopen_by_name")
    return opened(ex, st, HASA(a[1].x, a[2].x), ATTR, ATT(a[1].x, a[2].x), "attribute")


@libc("H5Aread")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, ATTR, "H5Aread")
    at, ty, p = src(st, a[0].x), a[1].x, a[2]
    e = status(st, "read")
    own = z3.And(z3.Select(g(st, "hk"), ty) == TYPE, src(st, ty) == ATYPE(at))
    T = ATYPE(at)
    if isinstance(p, PV) and ex.read(st, p.lv).ty.k == "str":        # address of one char*: a variable-length string
        ex.oblige(st, "pre", z3.And(own, ISVAR(T), RANK(at) == 0), "H5Aread: one variable-length string, in its own type")
        old = ex.read(st, p.lv)
        st.assume(SATTR(at) > 0)
        ex.write(st, p.lv, V(old.ty, [z3.If(e.x >= 0, SATTR(at), old.x)]))
    elif len(p.t or ()) == 2 and p.ty.k == "ptr" and (p.ty.a.k == "str"):   # array of char*: variable-length strings
        ex.oblige(st, "pre", z3.And(own, ISVAR(T), RANK(at) == 1), "H5Aread: variable-length strings, in their own type")
        ex.oblige(st, "bounds", z3.And(p.t[0] != 0, p.t[1] == 0, ex.LEN(p.t[0]) >= z3.Select(EXT(at), ival(0))), "H5Aread: the array holds every string")
        k = ex.mkey(STR)
        m = ex.cellof(st, "mem", k)[0]
        i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Select(LATTR(at), i) > 0))
        st.mem[k] = [z3.If(e.x >= 0, z3.Store(m, p.t[0], LATTR(at)), m)]
    else:                                                              # raw storage
        if p.t is None or len(p.t) != 1:
            raise Unsupported("H5Aread into %r" % (p,))
        ex.oblige(st, "null", p.x != 0, "H5Aread: buffer is not null")
        if simp(p.x).decl().eq(TXT):
            b = simp(p.x).arg(0)
            n = z3.If(RANK(at) == 0, ival(1), z3.Select(EXT(at), ival(0)))
            ex.oblige(st, "bounds", ex.LEN(b) >= n * TSIZE(z3.If(own, T, ty)), "H5Aread: the buffer holds every value")
            # a fixed-length string is complete once a terminator follows its last byte
            k = ex.mkey(INT(8, True))
            nul = z3.And(ex.LEN(b) > TSIZE(T), z3.Select(z3.Select(ex.cellof(st, "mem", k)[0], b), TSIZE(T)) == 0)
            st.assume(z3.Implies(z3.And(e.x >= 0, own, RANK(at) == 0, z3.Not(ISVAR(T)), nul), p.x == SATTR(at)))
        sg(st, "got", z3.If(e.x >= 0, p.x, g(st, "got")))
        sg(st, "got_src", z3.If(e.x >= 0, at, g(st, "got_src")))
        sg(st, "got_type", z3.If(e.x >= 0, ty, g(st, "got_type")))
    return e


@libc("H5Dvlen_reclaim")
def _(ex, st, a):
    kind_ok(ex, st, a[0].x, TYPE, "H5Dvlen_reclaim")
    kind_ok(ex, st, a[1].x, SPACE, "H5Dvlen_reclaim")
    ex.oblige(st, "pre", src(st, a[0].x) == ATYPE(src(st, a[1].x)), "H5Dvlen_reclaim: type and dataspace belong to the same attribute")
    return status(st, "reclaim")


def at_j(ex, st, p, what, room=None):
    """element J of an array argument"""
    if p.t is None:
        raise Unsupported("%s: array argument" % what)
    return z3.Select(z3.Select(ex.cellof(st, "mem", ex.mkey(SIZE))[0], p.t[0]), p.t[1] + J)


@libc("H5Screate_simple")
def _(ex, st, a):
    n, p = a[0].x, a[1]
    ex.oblige(st, "bounds", z3.Or(n == 0, z3.And(p.t[0] != 0, ex.LEN(p.t[0]) >= p.t[1] + n)), "H5Screate_simple: an extent for every axis")
    ex.oblige(st, "pre", z3.Or(a[2].t[0] == 0, at_j(ex, st, a[2], "max") >= at_j(ex, st, p, "dims")), "H5Screate_simple: maximum extents at least the extents")
    sp = fresh("memory_shape", I)
    st.assume(z3.And(RANK(sp) == n, z3.Select(EXT(sp), J) == at_j(ex, st, p, "dims")))
    return opened(ex, st, z3.BoolVal(True), SPACE, sp, "memspace")


@libc("H5Sselect_hyperslab")
def _(ex, st, a):
    sp, o, s, c, b = a[0].x, a[2], a[3], a[4], a[5]
    kind_ok(ex, st, sp, SPACE, "H5Sselect_hyperslab")
    r = RANK(src(st, sp))
    inr = z3.And(J >= 0, J < r)
    for p, nm in ((o, "start"), (c, "count")):
        ex.oblige(st, "bounds", z3.Or(r == 0, z3.And(p.t[0] != 0, ex.LEN(p.t[0]) >= p.t[1] + r)), "H5Sselect_hyperslab: %s for every axis" % nm)
    for p, nm in ((s, "stride"), (b, "block")):
        ex.oblige(st, "bounds", z3.Or(r == 0, p.t[0] == 0, ex.LEN(p.t[0]) >= p.t[1] + r), "H5Sselect_hyperslab: %s for every axis" % nm)
    one = ival(1)
    oj, cj = at_j(ex, st, o, "start"), at_j(ex, st, c, "count")
    sj = z3.If(s.t[0] == 0, one, at_j(ex, st, s, "stride"))
    bj = z3.If(b.t[0] == 0, one, at_j(ex, st, b, "block"))
    e = status(st, "select")
    ok = e.x >= 0
    # count blocks every stride: one contiguous run of count*block points when count is 1 or the stride is the block
    solid = z3.Or(cj == 1, sj == bj)
    sg(st, "sel", z3.If(ok, z3.Store(g(st, "sel"), sp, one), g(st, "sel")))
    sg(st, "sel_solid", z3.If(ok, z3.Store(g(st, "sel_solid"), sp, z3.If(solid, one, ival(0))), g(st, "sel_solid")))
    sg(st, "sel_o", z3.If(ok, z3.Store(g(st, "sel_o"), sp, oj), g(st, "sel_o")))
    sg(st, "sel_n", z3.If(ok, z3.Store(g(st, "sel_n"), sp, z3.If(cj == 1, bj, cj * bj)), g(st, "sel_n")))
    return e


@libc("H5Dread")
def _(ex, st, a):
    d, ty, ms, fs, buf = a[0].x, a[1].x, a[2].x, a[3].x, a[5]
    kind_ok(ex, st, d, DSET, "H5Dread")
    path = src(st, d)
    r = RANK(path)
    inr = z3.And(J >= 0, J < r)
    whole = fs == 0
    ex.oblige(st, "pre", z3.Or(whole, z3.And(z3.Select(g(st, "hk"), fs) == SPACE, src(st, fs) == path)), "H5Dread: the file dataspace is the dataset's")
    issel = z3.And(z3.Not(whole), z3.Select(g(st, "sel"), fs) == 1)
    o = z3.If(issel, z3.Select(g(st, "sel_o"), fs), ival(0))
    n = z3.If(issel, z3.Select(g(st, "sel_n"), fs), z3.Select(EXT(path), J))
    ex.oblige(st, "pre", z3.Implies(z3.And(issel, inr), z3.Select(g(st, "sel_solid"), fs) == 1), "H5Dread: the selection is one contiguous window")
    ex.oblige(st, "pre", z3.Or(ms == 0, z3.And(z3.Select(g(st, "hk"), ms) == SPACE, RANK(src(st, ms)) == r, z3.Implies(inr, z3.Select(EXT(src(st, ms)), J) == n))),
              "H5Dread: the memory layout is the window's shape, row by row")
    e = status(st, "dread")
    ok = e.x >= 0
    for k, v in (("got", buf.x), ("got_src", path), ("got_type", ty), ("got_o", o), ("got_n", n)):
        sg(st, k, z3.If(ok, v, g(st, k)))
    return e


# ------------------------------------------------------------------------------------------ tasks
def base(ex, st, open_=True):
    t = this_obj(ex, st, H5, HREF)
    hk = z3.Const("handles", AI)
    for k, v in (("hk", hk), ("hp", z3.Const("handle_of", AI)), ("fmode", z3.K(I, ival(0))), ("fnew", z3.K(I, ival(-1))), ("sel", z3.K(I, ival(0))), ("sel_solid", z3.K(I, ival(0))),
                 ("sel_o", z3.K(I, ival(0))), ("sel_n", z3.K(I, ival(0))), ("got", ival(0)), ("got_src", ival(0)), ("got_type", ival(0)), ("got_o", ival(0)), ("got_n", ival(0))):
        sg(st, k, v)
    sg(st, "failed", z3.BoolVal(False))
    setf(ex, st, HREF, H5, "_file", F)
    h = z3.Int("h")
    st.assume(z3.ForAll([h], z3.Implies(h <= 0, z3.Select(hk, h) == 0)))
    if open_:
        st.assume(z3.And(F > 0, z3.Select(hk, F) == FILE))
    return dict(this=t, hk=hk)


def balance(ex, st, o):
    x = z3.Int("any_handle")
    return ("no handle opened by the call outlives it, and no other handle is closed", z3.Select(g(st, "hk"), x) == z3.Select(o["hk"], x))


def outvar(st, name, v):
    """a variable of the caller"""
    k = ("caller", name)
    st.loc[k] = v
    return Local(k, v.ty)


CON = LIB
HOOKS = {"dtor": {ACC}}
MSG = lambda x: x.x


def wrap(func, setup, post, exc, name, nparams=None, budget=60):
    def s(ex, st):
        o = base(ex, st)
        a = setup(ex, st, o)
        o["args"] = a
        return o

    def p(ex, st, o, ret):
        return post(ex, st, o, ret) + [balance(ex, st, o)]

    def e(ex, st, o, x):
        return (exc(ex, st, o, x) if exc else [("no exception escapes (%s)" % x.cls, z3.BoolVal(False))]) + [balance(ex, st, o)]
    return Task(func, s, p, e, name=name, contracts=dict(CON), nparams=nparams, hooks=dict(HOOKS), budget=budget)


P, N = z3.Int("path"), z3.Int("name")
GROUP_T, DSET_T = ival(0), ival(1)


def named(ex, st, o, *vs):
    st.assume(z3.And(P > 0, N > 0))
    return list(vs)


def has_contains(x, t):
    return z3.Function("mentions", I, I, B)(x, t)


def mentions(x, t):
    """the message contains the text t"""
    from ..core import _flat
    if any(p.eq(t) for p in _flat(x)):
        return z3.BoolVal(True)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), mentions(x.arg(1), t), mentions(x.arg(2), t))
    return z3.BoolVal(False)


def t_has(what):
    code = z3.Int("E:H5O_TYPE_" + what.upper())

    def setup(ex, st, o):
        st.assume(z3.Implies(RESOLVES(P), LINK(P)))
        st.assume(z3.Distinct([z3.Int("E:H5O_TYPE_" + x) for x in ("GROUP", "DATASET", "NAMED_DATATYPE", "UNKNOWN")]))
        o["inputs"] = {"link": LINK(P), "resolves": RESOLVES(P), "type": OTYPE(P)}
        return named(ex, st, o, V(STR, [P]))

    def post(ex, st, o, ret):
        return [("true exactly when the path leads to a %s" % what.lower(), ret.x == z3.And(RESOLVES(P), OTYPE(P) == code))]
    return wrap(H5 + "::has" + what, setup, post, None, "has" + what)


def t_hasattr():
    def setup(ex, st, o):
        return named(ex, st, o, V(STR, [P]), V(STR, [N]))
    return wrap(H5 + "::hasAttribute", setup, lambda ex, st, o, r: [("true exactly when the object has the attribute", r.x == HASA(P, N))], None, "hasAttribute")


def fails(ex, st, o, x, why):
    return [("fails with a runtime error", z3.BoolVal(x.cls == "std::runtime_error")), ("fails only when absent, not as asked, or unreadable", z3.Or(g(st, "failed"), why)),
            ("the error names the object", mentions(x.x, P))]


def t_dims():
    def setup(ex, st, o):
        dl, nl = outvar(st, "dims", V(PSIZE, [ival(301), ival(0)])), outvar(st, "rank", V(INT32, [z3.Int("old_rank")]))
        o.update(dl=dl, nl=nl)
        return named(ex, st, o, PV(ptr(PSIZE), dl), PV(ptr(INT32), nl), V(STR, [P]))

    def post(ex, st, o, ret):
        d, n = ex.read(st, o["dl"]), ex.read(st, o["nl"])
        return [("succeeds only for a dataset", RESOLVES(P)), ("rank", n.x == RANK(P)),
                ("extents", z3.Implies(z3.And(J >= 0, J < RANK(P)), z3.And(d.t[1] == 0, z3.Select(row(ex, st, d), J) == z3.Select(EXT(P), J), ex.LEN(d.t[0]) >= RANK(P)))),
                ("no extents for a scalar", z3.Implies(RANK(P) == 0, d.t[0] == 0))]
    return wrap(H5 + "::getDatasetDims", setup, post, lambda ex, st, o, x: fails(ex, st, o, x, z3.Not(RESOLVES(P))), "getDatasetDims")


STRS = Ty("tmpl", (STR,), None, "vector")


def vecarg(ex, st, o):
    v = ex.lay.const("old_names", STRS)
    st.assume(v.t[0] >= 0)
    o["vl"] = outvar(st, "values", v)
    return PV(ptr(STRS), o["vl"])


def t_names():
    def setup(ex, st, o):
        i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.And(LNAME(P, i) > 0, LNAMELEN(P, i) > 0)))
        return named(ex, st, o, vecarg(ex, st, o), V(STR, [P]))

    def post(ex, st, o, ret):
        v = ex.read(st, o["vl"])
        j = z3.Int("any_link")
        return [("succeeds only for a group", RESOLVES(P)), ("one name per link", v.t[0] == NLINKS(P)),
                ("name j is the complete name of link j", z3.Implies(z3.And(j >= 0, j < v.t[0]), z3.Select(v.t[1], j) == LNAME(P, j)))]
    return wrap(H5 + "::getGroupDatasets", setup, post, lambda ex, st, o, x: fails(ex, st, o, x, z3.Not(RESOLVES(P))), "getGroupDatasets")


def afail(extra=z3.BoolVal(False)):
    def f(ex, st, o, x):
        return fails(ex, st, o, x, z3.Or(z3.Not(HASA(P, N)), extra)) + [("the error names the attribute", mentions(x.x, N))]
    return f


AT = ATT(P, N)
VOIDP = ptr(VOID)


def t_attr_scalar():
    val, ty = z3.Int("value"), z3.Int("datatype")

    def setup(ex, st, o):
        st.assume(z3.And(val > 0, RANK(AT) == 0))
        return named(ex, st, o, V(STR, [P]), V(STR, [N]), V(INT(64, 1), [ty]), V(VOIDP, [val]))

    def post(ex, st, o, ret):
        return [("succeeds only for an existing attribute", HASA(P, N)), ("the value is the stored one, in the type asked for", z3.And(g(st, "got") == val, g(st, "got_src") == AT, g(st, "got_type") == ty))]
    return wrap(H5 + "::readAttribute", setup, post, afail(), "readAttribute (scalar)", nparams=4)


def t_attr_vector():
    ty = z3.Int("datatype")

    def setup(ex, st, o):
        o["vl"], o["nl"] = outvar(st, "values", V(VOIDP, [z3.Int("old_values")])), outvar(st, "size", V(SIZE, [z3.Int("old_size")]))
        st.assume(z3.Select(z3.Const("handles", AI), ty) == 0)
        st.assume(z3.Select(EXT(AT), ival(0)) >= 0)
        return named(ex, st, o, V(STR, [P]), V(STR, [N]), V(INT(64, 1), [ty]), PV(ptr(VOIDP), o["vl"]), PV(PSIZE, o["nl"]))

    def post(ex, st, o, ret):
        v, n = ex.read(st, o["vl"]), ex.read(st, o["nl"])
        return [("succeeds only for an existing one-dimensional attribute", z3.And(HASA(P, N), RANK(AT) == 1)), ("number of values", n.x == z3.Select(EXT(AT), ival(0))),
                ("the values are the stored ones, in the type asked for", z3.And(v.x == g(st, "got"), g(st, "got_src") == AT, g(st, "got_type") == ty))]
    return wrap(H5 + "::readAttribute", setup, post, afail(RANK(AT) != 1), "readAttribute (values)", nparams=5)


def t_attr_string():
    def setup(ex, st, o):
        st.assume(RANK(AT) == 0)
        return named(ex, st, o, V(STR, [P]), V(STR, [N]))

    def post(ex, st, o, ret):
        return [("succeeds only for an existing attribute", HASA(P, N)), ("the string is the stored one", ret.x == SATTR(AT))]
    return wrap(H5 + "::readAttribute", setup, post, afail(), "readAttribute (string)", nparams=2)


def t_attr_strings():
    def setup(ex, st, o):
        st.assume(z3.And(ISVAR(ATYPE(AT)), z3.Select(EXT(AT), ival(0)) >= 0))
        return named(ex, st, o, V(STR, [P]), V(STR, [N]), vecarg(ex, st, o))

    def post(ex, st, o, ret):
        v = ex.read(st, o["vl"])
        j = z3.Int("any_string")
        return [("succeeds only for an existing one-dimensional attribute", z3.And(HASA(P, N), RANK(AT) == 1)), ("number of strings", v.t[0] == z3.Select(EXT(AT), ival(0))),
                ("string j is stored string j", z3.Implies(z3.And(j >= 0, j < v.t[0]), z3.Select(v.t[1], j) == z3.Select(LATTR(AT), j)))]
    return wrap(H5 + "::readAttribute", setup, post, afail(RANK(AT) != 1), "readAttribute (variable-length strings)", nparams=3)


def t_slab():
    ty, buf, nd = z3.Int("datatype"), z3.Int("buffer"), z3.Int("rank")
    k = z3.Int("k")

    def setup(ex, st, o):
        st.assume(z3.And(buf > 0, nd >= 1, nd <= 32, RANK(P) >= 1))
        op, orow = symarr(ex, st, 401, nd, SIZE, "origin")
        dp, drow = symarr(ex, st, 402, nd, SIZE, "dims")
        o.update(orow=orow, drow=drow)
        st.assume(z3.ForAll([k], z3.And(z3.Select(orow, k) >= 0, z3.Select(drow, k) >= 0, z3.Select(EXT(P), k) >= 0)))
        return named(ex, st, o, V(VOIDP, [buf]), V(STR, [P]), op, dp, V(INT32, [nd]), V(INT(64, 1), [ty]))

    def post(ex, st, o, ret):
        inr = z3.And(J >= 0, J < nd)
        oj, dj, ej = [z3.Select(x, J) for x in (o["orow"], o["drow"], EXT(P))]
        return [("succeeds only when the ranks agree", z3.And(RESOLVES(P), RANK(P) == nd)), ("succeeds only when the window lies in the dataset", z3.Implies(inr, oj + dj <= ej)),
                ("the buffer holds the dataset's values, in the type asked for", z3.And(g(st, "got") == buf, g(st, "got_src") == P, g(st, "got_type") == ty)),
                ("read from the origin asked for", z3.Implies(inr, g(st, "got_o") == oj)), ("over the extent asked for", z3.Implies(inr, g(st, "got_n") == dj))]

    def exc(ex, st, o, x):
        out = z3.And(k >= 0, k < nd, z3.Select(o["orow"], k) + z3.Select(o["drow"], k) > z3.Select(EXT(P), k))
        return fails(ex, st, o, x, z3.Or(z3.Not(RESOLVES(P)), RANK(P) != nd, z3.Exists([k], out))) + \
            [("no data is delivered", g(st, "got") == 0)]
    return wrap(H5 + "::readDatasetHyperslab", setup, post, exc, "readDatasetHyperslab")


def t_open():
    fn, mode = z3.Int("filename"), z3.Int("mode")

    def setup(ex, st):
        o = base(ex, st, False)
        st.assume(z3.And(fn > 0, mode >= 0, mode < 65536, z3.Or(F == -1, z3.And(F > 0, z3.Select(o["hk"], F) == FILE))))
        o["args"] = [V(STR, [fn]), V(INT(64, 1), [mode])]
        return o

    def post(ex, st, o, ret):
        f = getf(ex, st, HREF, H5, "_file").x
        x = z3.Int("any_handle")
        return [("succeeds only when no file was open", F < 0), ("the file asked for is open", z3.And(f > 0, z3.Select(g(st, "hk"), f) == FILE, src(st, f) == fn)),
                ("in the mode asked for", z3.Select(g(st, "fmode"), f) == mode), ("created anew only when truncation is asked for", (z3.Select(g(st, "fnew"), f) == 1) == (mode == 2)),
                ("the only new handle is the file's", z3.Implies(x != f, z3.Select(g(st, "hk"), x) == z3.Select(o["hk"], x)))]

    def exc(ex, st, o, x):
        f = getf(ex, st, HREF, H5, "_file").x
        return [("fails with a runtime error", z3.BoolVal(x.cls == "std::runtime_error")),
                ("fails only when a file is open or this one cannot be opened", z3.Or(F >= 0, g(st, "failed"), z3.Not(z3.Function("OPENABLE", I, I, B)(fn, mode)))),
                ("an open file stays open, a failed open leaves none", z3.If(F >= 0, f == F, f < 0)), balance(ex, st, o)]
    return Task(H5 + "::open", setup, post, exc, name="open", contracts=dict(CON), hooks=dict(HOOKS))


def t_close():
    def setup(ex, st):
        o = base(ex, st, False)
        st.assume(z3.Or(F == -1, z3.And(F > 0, z3.Select(o["hk"], F) == FILE)))
        o["args"] = []
        return o

    def post(ex, st, o, ret):
        x = z3.Int("any_handle")
        return [("the file is closed", z3.And(getf(ex, st, HREF, H5, "_file").x == -1, z3.Implies(F > 0, z3.Select(g(st, "hk"), F) == 0))),
                ("no other handle changes", z3.Implies(x != F, z3.Select(g(st, "hk"), x) == z3.Select(o["hk"], x)))]
    return Task(H5 + "::close", setup, post, lambda ex, st, o, x: [("fails only when the library cannot close the file", g(st, "failed")), balance(ex, st, o)],
                name="close", contracts=dict(CON), hooks=dict(HOOKS))


def tasks():
    return [t_open(), t_close(), t_has("Group"), t_has("Dataset"), t_hasattr(), t_dims(), t_names(), t_attr_scalar(), t_attr_vector(), t_attr_string(), t_attr_strings(), t_slab()]
