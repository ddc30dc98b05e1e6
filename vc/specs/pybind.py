"""Contracts of the Python bindings (modulesrc): the array methods call the C++ method for every point, in order (C25)."""
import re
from ..spec import *
from ..front import Program, node_type

PQ, PM = NS + "PyQuery", NS + "PyModel"
QU, MO, EH = S + "Query", S + "Model", U + "ErrorHandler"
SELF = 70
PTS = 701                                            # storage of the array of points
NDIM, N, D, NV = z3.Ints("ndim num_points point_dim num_values")
SHAPE = z3.Const("points_shape", z3.ArraySort(I, I))
FEL = {k: z3.Function(k, I, R, R, R) for k in ("queryTopElevation", "queryTopoBathyElevation")}
FCON = z3.Function("contains", I, R, R, R, B)
QVAL = z3.Function("QVALUE", I, R, R, R, I, R)
QST = z3.Function("QSTATUS", I, R, R, R, I)
DIMS = z3.Const("model_dims", z3.ArraySort(I, R))
ORIG = z3.Const("model_origin", z3.ArraySort(I, R))
HANDLE = z3.Function("HANDLE", I, I)                 # array object over storage b
STORAGE = z3.Function("STORAGE", I, I)


def program(repo):
    return Program([repo + "/modulesrc/Query_wrap.cc", repo + "/modulesrc/Model_wrap.cc"], extra=["-I/usr/include/python3.12", "-I/usr/lib/python3/dist-packages/pybind11/include"])


def elemty(ty):
    n = ty.name or ""
    for t, v in (("double", REAL), ("bool", BOOL), ("int", INT32)):
        if "array_t<%s" % t in n:
            return v
    raise Unsupported("array type %s" % n)


def isarray(ty):
    return ty.k == "class" and "array_t<" in (ty.name or "")


def buf(ex, st, h, name, v):
    """field of the buffer description of array h"""
    t = {"ptr": Ty("ptr", VOID), "ndim": INT(64, True), "shape": Ty("tmpl", (INT(64, True),), None, "vector")}[name]
    ex.write(st, Field(h, ex.hkey("pybind11::buffer_info", name, t), t), V(t, v))


def new_array(ex, st, ty, shape):
    """contract: array_t<T>(shape): a new array with one cell per element, row major"""
    b = ex.new_base(st)
    size = shape[0] if len(shape) == 1 else shape[0] * shape[1]
    for x in shape:
        ex.oblige(st, "pre", x >= 0, "the size of an array is not negative")
    st.assume(ex.LEN(b) == size)
    h = fresh("array", I)
    st.assume(z3.And(STORAGE(h) == b, h != 0, h != z3.Int("points_array")))
    st.ghost["ndim:%s" % h] = V(SIZE, [ival(len(shape))])
    st.ghost["shape:%s" % h] = V(SIZE, list(shape))
    st.ghost["base:%s" % h] = V(SIZE, [b])
    return V(ty, [h])


def sizes(ex, st, args, node):
    """sizes given to an array constructor: a number, or a braced list"""
    out = []
    for a in args:
        v = lib.asv(ex, st, a)
        if v.ty.k == "int":
            out.append(v.x)
        elif v.ty.k == "tmpl" and v.ty.name in ("initializer_list", "vector"):
            n = simp(v.t[0])
            if not z3.is_int_value(n):
                raise Unsupported("array of symbolic rank")
            out += [simp(z3.Select(v.t[1], ival(i))) for i in range(n.as_long())]
    return out


def h_construct(ex, st, ty, args, node):
    nm = ty.name or ""
    if isarray(ty):
        args = [a for a in args if not (isinstance(a, V) and a.ty.k == "class" and ("handle" in (a.ty.name or "") or "object" in (a.ty.name or "")) )]
        v = lib.asv(ex, st, args[0]) if args else None
        if v is None:
            return new_array(ex, st, ty, [ival(0)])
        if isarray(v.ty):
            if elemty(v.ty) == elemty(ty):
                return V(ty, v.t)
            return convert(ex, st, v, ty)
        sz = sizes(ex, st, args, node)
        if len(sz) in (1, 2):
            return new_array(ex, st, ty, sz)
        raise Unsupported("construction of an array")
    if "ShapeContainer" in nm or "any_container" in nm or "StridesContainer" in nm:
        sz = sizes(ex, st, args, node)
        a = z3.K(I, ival(0))
        for i, x in enumerate(sz):
            a = z3.Store(a, ival(i), x)
        return V(Ty("tmpl", (INT(64, True),), None, "vector"), [ival(len(sz)), a])
    return NotImplemented


def convert(ex, st, v, ty):
    """contract: an array converted to another element type holds the converted values"""
    h = v.x
    key = "base:%s" % h
    if key not in st.ghost:
        raise Unsupported("conversion of an unknown array")
    b0, b1 = st.ghost[key].x, ex.new_base(st)
    k0, k1 = ex.mkey(elemty(v.ty)), ex.mkey(elemty(ty))
    r0 = z3.Select(ex.cellof(st, "mem", k0)[0], b0)
    j = z3.Int(fresh_name("j"))
    if elemty(v.ty) == BOOL and elemty(ty) == REAL:
        row_ = z3.Lambda([j], z3.If(z3.Select(r0, j), z3.RealVal(1), z3.RealVal(0)))
    elif elemty(v.ty).k == "int" and elemty(ty) == REAL:
        row_ = z3.Lambda([j], z3.ToReal(z3.Select(r0, j)))
    else:
        raise Unsupported("conversion of an array of %r to %r" % (elemty(v.ty), elemty(ty)))
    m = ex.cellof(st, "mem", k1)[0]
    st.mem[k1] = [z3.Store(m, b1, row_)]
    st.assume(ex.LEN(b1) == ex.LEN(b0))
    n = fresh("array", I)
    for s in ("ndim", "shape"):
        st.ghost["%s:%s" % (s, n)] = st.ghost["%s:%s" % (s, h)]
    st.ghost["base:%s" % n] = V(SIZE, [b1])
    st.assume(z3.And(STORAGE(n) == b1, n != 0))
    return V(ty, [n])


def h_method(ex, st, o, name, argnodes, node):
    if not isarray(o.ty):
        return NotImplemented
    h = o.ref if isinstance(o, Obj) else ex.read(st, o).x
    if name == "request":
        r = fresh("info", I)
        st.assume(r != 0)
        if h.eq(z3.Int("points_array")):
            nd, shape, b = NDIM, SHAPE, ival(PTS)
        else:
            if "base:%s" % h not in st.ghost:
                raise Unsupported("request on an unknown array")
            sh = st.ghost["shape:%s" % h].t
            nd, b = ival(len(sh)), st.ghost["base:%s" % h].x
            shape = z3.K(I, ival(0))
            for i, x in enumerate(sh):
                shape = z3.Store(shape, ival(i), x)
        buf(ex, st, r, "ptr", [b]), buf(ex, st, r, "ndim", [nd]), buf(ex, st, r, "shape", [nd, shape])
        return V(Ty("class", name="pybind11::buffer_info"), [r])
    return NotImplemented


def pure(f, ty, n):
    def c(ex, st, this, args, fn):
        ex.oblige(st, "pre", this.x == SELF, "the call is for this object")
        return V(ty, [f(this.x, *[a.x for a in args[:n]])])
    return c


def c_names(ex, st, this, args, fn):
    t = Ty("tmpl", (STR,), None, "vector")
    return V(t, [NV, z3.Const("value_names", z3.ArraySort(I, I))])


def c_qquery(ex, st, this, args, fn):
    """contract of Query::query (C06-C11): writes the values of the point, returns its status"""
    p, x = args[0], [a.x for a in args[1:4]]
    ex.oblige(st, "pre", this.x == SELF, "the call is for this object")
    ex.oblige(st, "bounds", z3.And(p.t[1] >= 0, p.t[1] + NV <= ex.LEN(p.t[0])), "room for the values of the point")
    k = ex.mkey(REAL)
    m = ex.cellof(st, "mem", k)[0]
    j = z3.Int(fresh_name("j"))
    r0 = z3.Select(m, p.t[0])
    off = p.t[1]
    st.mem[k] = [z3.Store(m, p.t[0], z3.Lambda([j], z3.If(z3.And(j >= off, j < off + NV), QVAL(this.x, *(x + [j - off])), z3.Select(r0, j))))]
    return V(INT32, [QST(this.x, *x)])


def c_mquery(ex, st, this, args, fn):
    """contract of Model::query: a pointer to the values of the point"""
    x = [a.x for a in args]
    ex.oblige(st, "pre", this.x == SELF, "the call is for this object")
    b = ival(705)                                    # the buffer of the model, reused by the next query
    k = ex.mkey(REAL)
    m = ex.cellof(st, "mem", k)[0]
    j = z3.Int(fresh_name("j"))
    st.mem[k] = [z3.Store(m, b, z3.Lambda([j], QVAL(this.x, *(x + [j]))))]
    st.assume(ex.LEN(b) == NV)
    return V(PREAL, [b, ival(0)])


def c_arr(a, n, base):
    def c(ex, st, this, args, fn):
        k = ex.mkey(REAL)
        m = ex.cellof(st, "mem", k)[0]
        st.mem[k] = [z3.Store(m, ival(base), a)]
        st.assume(ex.LEN(ival(base)) == n)
        return V(PREAL, [ival(base), ival(0)])
    return c


def c_handler(ex, st, this, args, fn):
    return V(Ty("tmpl", (cls(EH),), None, "shared_ptr"), [ival(62)])


def c_message(ex, st, this, args, fn):
    return V(STR, [z3.Int("message")])


def h_call(ex, st, name, args, node):
    if name != "make_tuple":
        return NotImplemented
    v = [ex.rv(a, st) for a in args]
    return V(Ty("class", name="std::tuple"), [t for x in v for t in x.t])


def contracts():
    c = {}
    for C in (QU, MO):
        for k, f in FEL.items():
            c[C + "::" + k] = pure(f, REAL, 2)
        c[C + "::getValueNames"] = c_names
    c[MO + "::contains"] = pure(FCON, BOOL, 3)
    c[QU + "::query"] = c_qquery
    c[MO + "::query"] = c_mquery
    c[QU + "::getErrorHandler"] = c_handler
    c[EH + "::getMessage"] = c_message
    c[MO + "::getDims"] = c_arr(DIMS, 3, 703)
    c[MO + "::getOrigin"] = c_arr(ORIG, 2, 704)
    return c


HOOKS = {"construct": h_construct, "method": h_method, "void_is_base": True, "call": h_call}


def row_major(ex, func):
    """the declared type of the parameter makes pybind11 pass a row major array of doubles (flags c_style, forcecast)"""
    t = node_type(ex.prog.func(func).params[0]).name or ""
    m = re.match(r"pybind11::array_t<double,\s*(\d+)>$", t)
    return bool(m and int(m.group(1)) & 1)


def base(ex, st, C, method=None):
    t = this_obj(ex, st, C, SELF)
    size = z3.Int("points_size")
    _, P = symarr(ex, st, PTS, size, REAL, "points")
    # an accepted array is row major and holds shape[0]*shape[1] doubles (forcecast + c_style)
    st.assume(z3.And(NDIM >= 0, NV >= 0, N >= 0, D >= 0, N < 2**40, D < 2**20, NV < 2**20))
    st.assume(z3.And(z3.Select(SHAPE, 0) == N, z3.Select(SHAPE, 1) == D))
    if method and row_major(ex, C + "::" + method):
        st.assume(z3.Implies(NDIM == 2, size == N * D))
    o = dict(this=t, P=P, args=[V(cls("pybind11::array_t<double, 17>"), [z3.Int("points_array")])])
    o["inputs"] = dict(ndim=NDIM, num_points=N, point_dim=D, num_values=NV)
    return o


def result(ex, st, ret, ty=REAL):
    h = ret.x
    return st.ghost["shape:%s" % h].t, z3.Select(ex.cellof(st, "mem", ex.mkey(ty))[0], st.ghost["base:%s" % h].x)


def pt(o, i, d):
    return [z3.Select(o["P"], i * d + k) for k in range(d)]


def shape_ok(d):
    return z3.And(NDIM == 2, D == d)


def t_elev(C, method, callee, d=2, conv=None):
    F = FEL.get(callee, FCON)

    def setup(ex, st):
        return base(ex, st, C, method)

    def post(ex, st, o, ret):
        sh, row_ = result(ex, st, ret)
        i = z3.Int("i")
        v = F(ival(SELF), *pt(o, i, d))
        if F is FCON:
            v = z3.If(v, z3.RealVal(1), z3.RealVal(0))
        out = [("only an array of points of %d coordinates is accepted" % d, shape_ok(d)),
               ("one result per point", z3.And(z3.BoolVal(len(sh) == 1), sh[0] == N)),
               ("result i is %s of point i" % callee, z3.Implies(z3.And(i >= 0, i < N), z3.Select(row_, i) == v))]
        return out

    def exc(ex, st, o, e):
        return [("an error is raised only for a wrong shape", z3.Not(shape_ok(d)))]
    return Task(C + "::" + method, setup, post, exc, name=C.split("::")[1] + "::" + method, contracts=contracts(), hooks=HOOKS)


PI, VI = z3.Ints("i v")                              # an arbitrary point and value


def rowstart(a, b, n):
    """rows of n cells do not overlap: justified by `rows_lemma`"""
    return z3.Implies(z3.And(a < b, n >= 0), a * n + n <= b * n)


def rows_lemma():
    a, b, n = z3.Ints("a b n")
    d = z3.Int("d")
    return [("rows do not overlap", [b == a + 1 + d, d >= 0, n >= 0, z3.Implies(z3.And(d >= 0, n >= 0), d * n >= 0)], a * n + n <= b * n),
            ("product of sizes", [d >= 0, n >= 0], d * n >= 0)]


def t_query(C):
    isq = C == PQ

    def setup(ex, st):
        o = base(ex, st, C, "query")
        st.assume(N * NV >= 0)
        return o

    def val(o, i, v):
        return QVAL(ival(SELF), *(pt(o, i, 3) + [v]))

    def stat(o, i):
        return QST(ival(SELF), *pt(o, i, 3))

    def buffers(s):
        """the arrays made so far: (storage, number of cells per point)"""
        out = []
        for k, v in s.ghost.items():
            if k.startswith("base:"):
                out.append((v.x, s.ghost["shape:" + k[5:]].t))
        return out

    def inv(ex, s, start, K):
        o = dict(P=z3.Const("points", z3.ArraySort(I, R)))
        d = ex.insum
        env["K%d" % d] = K
        inr = z3.And(PI >= 0, PI < N, VI >= 0, VI < NV)
        out = []
        outer = K if d == 1 else env.get("K1")
        if outer is None:
            return []
        for a, b in ((PI, outer), (outer, PI), (PI, simp(outer - 1)), (simp(outer - 1), PI), (outer, N), (PI, N)):
            s.pc.append(rowstart(a, b, NV))
        s.pc.append(z3.Implies(outer >= 0, outer * NV >= 0))
        for b, sh in buffers(s):
            if len(sh) == 2:
                r = z3.Select(ex.cellof(s, "mem", ex.mkey(REAL))[0], b)
                done = PI < K if d == 1 else z3.Or(PI < outer, z3.And(PI == outer, VI < K))
                out.append(("the rows written so far are final", z3.Implies(z3.And(inr, done), z3.Select(r, PI * NV + VI) == val(o, PI, VI))))
            elif isq:
                r = z3.Select(ex.cellof(s, "mem", ex.mkey(INT32))[0], b)
                out.append(("the statuses written so far are final", z3.Implies(z3.And(PI >= 0, PI < K), z3.Select(r, PI) == stat(o, PI))))
        if isq:
            out.append(("no point so far is in error", z3.Implies(z3.And(PI >= 0, PI < K), stat(o, PI) != 2)))
        return out
    env = {}

    def post(ex, st, o, ret):
        inr = z3.And(PI >= 0, PI < N, VI >= 0, VI < NV)
        if isq:
            a, b = [V(cls("pybind11::array_t<%s>" % t), [x]) for t, x in zip(("double", "int"), ret.t)]
            she, rowe = result(ex, st, b, INT32)
        else:
            a = ret
        sh, row_ = result(ex, st, a)
        out = [("only an array of points of 3 coordinates is accepted", shape_ok(3)),
               ("one row per point, one column per value", z3.And(z3.BoolVal(len(sh) == 2), sh[0] == N, sh[-1] == NV)),
               ("row i holds the values at point i", z3.Implies(inr, z3.Select(row_, PI * NV + VI) == val(o, PI, VI)))]
        if isq:
            out += [("one status per point", z3.And(z3.BoolVal(len(she) == 1), she[0] == N)),
                    ("status i is that of point i", z3.Implies(z3.And(PI >= 0, PI < N), z3.Select(rowe, PI) == stat(o, PI))),
                    ("an error at a point is not returned as a result", z3.Implies(z3.And(PI >= 0, PI < N), stat(o, PI) != 2))]
        return out

    def exc(ex, st, o, e):
        k = z3.Int("k")
        err = z3.Exists([k], z3.And(k >= 0, k < N, stat(o, k) == 2)) if isq else z3.BoolVal(False)
        return [("an error is raised only for a wrong shape or a failed query", z3.Or(z3.Not(shape_ok(3)), err))]
    return Task(C + "::query", setup, post, exc, name=C.split("::")[1] + "::query", contracts=contracts(), hooks=dict(HOOKS, inv=[("::query", inv)]))


def t_vec(method, a, n):
    def setup(ex, st):
        return base(ex, st, PM)

    def post(ex, st, o, ret):
        return [("%d components" % n, ret.t[0] == n)] + [("component %d" % i, z3.Select(ret.t[1], i) == z3.Select(a, i)) for i in range(n)]
    return Task(PM + "::" + method, setup, post, name="PyModel::" + method, contracts=contracts(), hooks=HOOKS)


def tasks():
    return [t_elev(PQ, "query_top_elevation", "queryTopElevation"), t_elev(PQ, "query_topobathy_elevation", "queryTopoBathyElevation"),
            t_elev(PM, "query_top_elevation", "queryTopElevation"), t_elev(PM, "query_topobathy_elevation", "queryTopoBathyElevation"),
            t_elev(PM, "contains", "contains", 3), t_query(PQ), t_query(PM), t_vec("get_dims", DIMS, 3), t_vec("get_origin", ORIG, 2), Lemma("rows lemma", rows_lemma)]
