"""Trusted contracts of the C and C++ library functions the sources use (listed in the evidence as assumptions)."""
from fractions import Fraction
import z3
from .core import *
from .front import node_type, parse_type, Ty, BOOL, REAL, STR, INT, SIZE, INT32, VOID

CLSTAG = z3.Function("clstag", I, I)
_tags = {}


def clstag(q):
    if q not in _tags:
        _tags[q] = len(_tags) + 1
    return ival(_tags[q])


def exact(s):
    """exact rational value of the double a literal denotes; small decimal literals keep their decimal meaning, which
    is the reading 'double arithmetic is real arithmetic' asks for"""
    f = Fraction(repr(float(s)))
    return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else f.numerator


def trunc(x):
    x = simp(x)
    if z3.is_rational_value(x):
        f = x.as_fraction()
        n = f.numerator // f.denominator if f >= 0 else -((-f.numerator) // f.denominator)
        return ival(n)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return z3.If(x.arg(0), trunc(x.arg(1)), trunc(x.arg(2)))
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


EXC_BASES = {
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"], "std::length_error": ["std::logic_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"], "std::domain_error": ["std::logic_error", "std::exception"],
    "std::bad_alloc": ["std::exception"], "std::overflow_error": ["std::runtime_error", "std::exception"],
    "std::range_error": ["std::runtime_error", "std::exception"], "std::exception": [],
}


def exc_is_a(cls, handler):
    return cls == handler or handler in EXC_BASES.get(cls, ["std::exception"])


def is_assert(n):
    def find(x, d):
        if not isinstance(x, dict) or d > 8:
            return False
        if x.get("kind") == "DeclRefExpr" and (x.get("referencedDecl") or {}).get("name") == "__assert_fail":
            return True
        return any(find(c, d + 1) for c in x.get("inner", []) or [])
    k = [c for c in n.get("inner", []) if isinstance(c, dict)]
    return len(k) == 3 and find(k[2], 0)


KNOWN_FUNCS = {
    "max", "min", "fabs", "abs", "floor", "ceil", "round", "sqrt", "cos", "sin", "log", "fill", "copy", "sort", "transform", "find", "make_pair",
    "move", "make_shared", "make_unique", "strcasecmp", "strlen", "tolower", "toupper", "setw", "setprecision", "setiosflags",
    "resetiosflags", "getline", "atof", "atoi", "stod", "stoi", "__assert_fail", "H5open", "H5check_version", "to_string", "swap",
    "__builtin_huge_val", "pow", "strcmp", "fmax", "fmin", "count", "accumulate", "any_of", "all_of", "find_if", "forward", "get",
}


def is_stream(ty):
    return ty.k == "class" and "stream" in (ty.name or "") and "std::" in ty.name


def asv(ex, st, a):
    return ex.read(st, a) if isinstance(a, LV) else a


# --------------------------------------------------------------------------------------------- construction
def construct(ex, st, ty, args, node):
    k = ty.k
    n = len(args)
    if k == "class":
        h = ex.hooks.get("construct")
        if h:
            r = h(ex, st, ty, args, node)
            if r is not NotImplemented:
                return r
    if k == "str":
        args = [a for a in args if not (isinstance(a, V) and a.ty.k == "class" and "allocator" in (a.ty.name or ""))]
        n = len(args)
        if n == 0:
            return V(ty, [strlit("")])
        v = asv(ex, st, args[0])
        if n == 1 and v.t is not None and v.ty.k in ("str", "null"):
            kk = (node or {}).get("inner") or []
            if kk and "char *" in ((kk[0].get("type") or {}).get("qualType") or "") and not (z3.is_int_value(simp(v.x)) and simp(v.x).as_long() < 0):
                nul = simp(v.x == 0)
                if ex.check(st, [nul]) != z3.unsat:
                    ex.throw(st, ExV("std::logic_error", strlit("basic_string: construction from null")), nul)
            return V(ty, v.t)
        if n == 2 and v.ty.k == "int":
            return V(ty, [fresh("str", I)])
        raise Unsupported("string construction")
    if k == "class":
        nm = ty.name
        if nm in EXC_BASES:
            if n and isinstance(args[0], ExV):
                return args[0]
            v = asv(ex, st, args[0]) if n else V(STR, [strlit("")])
            if isinstance(v, ExV):
                return v
            return ExV(nm, v.x)
        if is_stream(ty):
            if n == 0:
                return V(ty, [strlit("")])
            v = asv(ex, st, args[0])
            h = ex.hooks.get("sctor")
            if h:
                r = h(ex, st, nm, v)
                if r is not NotImplemented:
                    return r
            if "istringstream" in nm and v.ty.k == "str":
                return V(ty, [v.x])
            return V(ty, [fresh("stream", I)])
        if "allocator" in nm or nm.startswith("std::_"):
            return V(ty, [ival(0)])
        if n == 1:
            v = asv(ex, st, args[0])
            if v.t is not None and len(v.t) == 1:
                return v
        return V(ty, [fresh("obj", I)])
    if k == "tmpl":
        nm = ty.name
        args = [a for a in args if not (isinstance(a, V) and a.t is not None and a.ty.k == "class" and "allocator" in (a.ty.name or ""))]
        n = len(args)
        if n == 0:
            return ex.lay.default(ty)
        v = asv(ex, st, args[0])
        if nm in ("shared_ptr", "unique_ptr"):
            if v.t is None or len(v.t) != 1:
                raise Unsupported("smart pointer from a pointer to a local")
            return V(ty, v.t)
        if nm == "vector":
            if v.ty.k == "tmpl" and v.ty.name in ("vector", "initializer_list"):
                return V(ty, v.t)
            if v.ty.k == "int":
                es = ex.lay.sorts(ty.a[0])
                ex.oblige(st, "ub", v.x >= 0, "vector size non-negative")
                if n == 1:
                    d = ex.lay.default(ty.a[0])
                else:
                    d = ex.conv(st, asv(ex, st, args[1]), ty.a[0])
                return V(ty, [v.x] + [z3.K(I, x) for x in d.t])
            if isinstance(v, (PV, ItV)) and n == 2:
                return range_vec(ex, st, ty, v, asv(ex, st, args[1]))
            if v.ty.k == "ptr" and n == 2 and len(v.t) == 2:
                w = asv(ex, st, args[1])
                if w.ty == v.ty and w.t is not None and len(w.t) == 2 and w.t[0].eq(v.t[0]) and v.ty.a.k in ("real", "int", "bool", "str"):
                    b, lo, hi = v.t[0], v.t[1], w.t[1]
                    ex.oblige(st, "bounds", z3.And(lo >= 0, lo <= hi, hi <= ex.LEN(b)), "range given to a vector inside its array")
                    r0 = z3.Select(ex.cellof(st, "mem", ex.mkey(v.ty.a))[0], b)
                    j = z3.Int(fresh_name("j"))
                    return V(ty, [simp(hi - lo), ex.simp_row(r0) if z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0 else z3.Lambda([j], z3.Select(r0, lo + j))])
            raise Unsupported("vector construction")
        if nm == "pair":
            if n == 2:
                a, b = [ex.conv(st, asv(ex, st, x), t) for x, t in zip(args, ty.a)]
                return V(ty, list(a.t) + list(b.t))
            return V(ty, v.t)
        if nm == "map":
            return V(ty, v.t)
        if nm == "__normal_iterator" or "iterator" in nm:
            return v
        if nm == "function":
            return v
        return V(ty, v.t) if v.t is not None else v
    if n == 1:
        return ex.conv(st, asv(ex, st, args[0]), ty)
    raise Unsupported("construction of %r" % (ty,))


def range_vec(ex, st, ty, a, b):
    """vector(first, last)"""
    if isinstance(a, PV) and isinstance(b, PV) and isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
        lo, hi, par, sk = a.lv.idx, b.lv.idx, a.lv.par, a.lv.skip
    elif isinstance(a, ItV) and isinstance(b, ItV) and a.lv.same(b.lv):
        lo, hi, par, sk = a.idx, b.idx, a.lv, 1
    else:
        raise Unsupported("vector from a range")
    p = ex.read(st, par)
    j = z3.Int(fresh_name("j"))
    return V(ty, [simp(hi - lo)] + [z3.Lambda([j], z3.Select(x, lo + j)) if not (z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0) else x for x in p.t[sk:]])


def construct_library_object(ex, st, ty, r, args):
    ex.externals.add("construction of %r" % (ty,))


def on_delete(ex, st, p, n):
    """delete: the effect on the program is that the object may no longer be used (not tracked; destructors of
    repository classes are run through their own contracts when listed)"""
    if p.t is not None and p.ty.k == "ptr" and len(p.t) == 1 and p.ty.a.k == "class":
        cls = ex.prog.cls(p.ty.a.name)
        h = ex.hooks.get("delete")
        if h:
            h(ex, st, p, cls)


# --------------------------------------------------------------------------------------------- free functions
def _num(ex, st, v):
    x = v.x
    return z3.ToReal(x) if x.sort() == I else x


def zfloor(x, ex=None, st=None):
    x = simp(x)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
        return x
    t = z3.ToInt(x)
    if ex is not None:
        t = ex.named(st, t, "fl")
    return z3.ToReal(t)


def has_rounding(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x) or z3.is_quantifier(x):
            return False
        if z3.is_app_of(x, z3.Z3_OP_TO_INT) or z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        st.extend(x.children())
    return False


def call(ex, st, name, argnodes, node, rd):
    c = ex.contracts.get("::" + name)
    if c is not None:
        ex.used_contracts.add("::" + name)
        return c(ex, st, None, argnodes, node)
    ty = node_type(node) if node is not None else None
    if name in ("max", "min", "fmax", "fmin"):
        a, b = [ex.rv(x, st) for x in argnodes]
        x, y = a.x, b.x
        if x.sort() != y.sort():
            x, y = _num(ex, st, a), _num(ex, st, b)
        lt = (lambda p, q: p < q)
        r = ite(x < y, y, x) if name.endswith("max") else ite(y < x, y, x)
        return V(a.ty, [r])
    if name in ("fabs", "abs"):
        a = ex.rv(argnodes[0], st)
        return V(a.ty if name == "abs" else REAL, [z3.If(a.x >= 0, a.x, -a.x)])
    if name == "floor":
        return V(REAL, [zfloor(_num(ex, st, ex.rv(argnodes[0], st)), ex, st)])
    if name == "ceil":
        return V(REAL, [-zfloor(-_num(ex, st, ex.rv(argnodes[0], st)), ex, st)])
    if name == "round":
        x = _num(ex, st, ex.rv(argnodes[0], st))
        return V(REAL, [z3.If(x >= 0, zfloor(x + z3.Q(1, 2), ex, st), -zfloor(-x + z3.Q(1, 2), ex, st))])
    if name == "trunc":
        return V(REAL, [z3.ToReal(trunc(_num(ex, st, ex.rv(argnodes[0], st))))])
    if name in ("cos", "sin"):
        x = _num(ex, st, ex.rv(argnodes[0], st))
        ex.notes.add("sin/cos: any functions with sin^2+cos^2=1")
        s, c_ = SIN(x), COS(x)
        st.assume(s * s + c_ * c_ == 1)
        return V(REAL, [c_ if name == "cos" else s])
    if name in ("sqrt", "log", "exp", "atof", "stod", "pow", "hypot"):
        vs = [ex.rv(a, st) for a in argnodes]
        vs = [v for v in vs if v.t is not None]
        ex.externals.add(name)
        f = z3.Function("fn_" + name, *([v.x.sort() for v in vs[:1]] + [R])) if name != "pow" else z3.Function("fn_pow", R, R, R)
        if name == "pow":
            return V(REAL, [f(_num(ex, st, vs[0]), _num(ex, st, vs[1]))])
        if name in ("stod",):
            ex.throw(st.fork(), ExV("std::invalid_argument", fresh("msg", I)), z3.Function("fn_stod_bad", I, B)(vs[0].x))
        if name in ("sqrt", "log", "exp"):
            r = f(vs[0].x if vs[0].x.sort() == R else z3.ToReal(vs[0].x)) if vs[0].x.sort() == R else z3.Function("fn_" + name, R, R)(z3.ToReal(vs[0].x))
            if name == "sqrt":
                st.assume(z3.Implies(vs[0].x >= 0, z3.And(r >= 0, r * r == vs[0].x)))
            return V(REAL, [r])
        return V(REAL, [f(vs[0].x)])
    if name in ("atoi", "stoi"):
        v = ex.rv(argnodes[0], st)
        ex.externals.add(name)
        return V(INT32, [z3.Function("fn_atoi", I, I)(v.x)])
    if name == "__builtin_huge_val":
        return V(REAL, [z3.Real("HUGE_VAL")])
    if name in ("setw", "setprecision", "setiosflags", "resetiosflags"):
        for a in argnodes:
            ex.rv(a, st)
        return V(ty, [strlit("")])
    if name == "strlen":
        v = ex.rv(argnodes[0], st)
        r = strlen_term(v.x)
        st.assume(r >= 0)
        if not z3.is_int_value(r):
            st.assume((r == 0) == (v.x == strlit("")))        # only the empty text has length 0
        return V(SIZE, [r])
    if name in ("strcasecmp", "strcmp"):
        a, b = ex.rv(argnodes[0], st), ex.rv(argnodes[1], st)
        ex.oblige(st, "null", z3.And(a.x != 0, b.x != 0), "non-null C string")
        r = fresh("cmp", I)
        eq = (lower(a.x) == lower(b.x)) if name == "strcasecmp" else a.x == b.x
        st.assume((r == 0) == eq)
        return V(INT32, [r])
    if name in ("tolower", "toupper"):
        v = ex.rv(argnodes[0], st)
        if name == "toupper":
            return V(INT32, [z3.Function("UPPERC", I, I)(v.x)])
        return V(INT32, [LOWERC(v.x)])
    if name == "to_string":
        v = ex.rv(argnodes[0], st)
        return V(STR, [NUMSTR(v.x) if v.x.sort() == I else REALSTR(v.x)])
    if name in ("move", "forward"):
        a = ex.anyv(argnodes[0], st)
        return a
    if name == "make_pair":
        a, b = [ex.conv(st, asv(ex, st, ex.anyv(x, st)), t) for x, t in zip(argnodes, ty.a)]
        return V(ty, list(a.t) + list(b.t))
    if name == "swap":
        a, b = ex.resolve(st, ex.lv(argnodes[0], st)), ex.resolve(st, ex.lv(argnodes[1], st))
        x, y = ex.read(st, a), ex.read(st, b)
        ex.write(st, a, y)
        ex.write(st, b, x)
        return V(VOID, [])
    if name in ("make_shared", "make_unique"):
        return make_obj(ex, st, ty, argnodes, node)
    if name == "fill":
        return fill(ex, st, argnodes)
    if name == "copy":
        return copy(ex, st, argnodes)
    if name == "sort":
        return sort(ex, st, argnodes)
    if name == "transform":
        return transform(ex, st, argnodes)
    if name == "find":
        return find(ex, st, argnodes)
    if name in ("H5open", "H5check_version"):
        for a in argnodes:
            pass
        return V(INT32, [ival(0)])
    h = ex.hooks.get("call")
    if h:
        r = h(ex, st, name, argnodes, node)
        if r is not NotImplemented:
            return r
    if name == "__assert_fail":
        ex.oblige(st, "assert", z3.BoolVal(False), "assertion holds")
        st.dead = True
        return V(VOID, [])
    raise Unsupported("library function %s" % name)


def strlen_term(x):
    if z3.is_int_value(x) and x.as_long() in _strs_rev_():
        return ival(len(_strs_rev_()[x.as_long()]))
    return STRLEN(x)


def _strs_rev_():
    from . import core
    return core._strs_rev


def make_obj(ex, st, ty, argnodes, node):
    cty = ty.a[0]
    cls = ex.prog.cls(cty.name)
    if not ex.lay.is_repo_class(cty):
        raise Unsupported("make_shared of %r" % (cty,))
    r = ex.new_ref(st)
    st.assume(r > 0)
    st.assume(CLSTAG(r) == clstag(cls))
    cands = [f for f in ex.prog.by_q.get(cls + "::" + cls.split("::")[-1], []) if len(f.params) >= len(argnodes)]
    exact_ = [f for f in cands if len(f.params) == len(argnodes)]
    f = (exact_ or cands or [None])[0]
    this = V(Ty("ptr", cty), [r])
    c = ex.contracts.get((cls + "::" + cls.split("::")[-1], len(argnodes))) or ex.contracts.get(cls + "::" + cls.split("::")[-1])
    args = ex.eval_args(f, argnodes, st) if f is not None else [ex.rv(a, st) for a in argnodes]
    if c is not None:
        ex.used_contracts.add(cls + "::" + cls.split("::")[-1])
        c(ex, st, this, args, f)
    elif f is not None:
        ex.call_function(f, st, this, args)
    elif not argnodes:
        for nme, t, d in ex.prog.classes[cls]["fields"]:
            if t.k in ("str", "tmpl"):
                ex.write(st, ex.field(st, r, cls, nme), ex.lay.default(t))
    else:
        raise Unsupported("constructor of %s" % cls)
    return V(ty, [r])


def span(ex, st, a, b):
    """(kind, container, lo, hi) of an iterator/pointer range"""
    if isinstance(a, ItV) and isinstance(b, ItV) and a.lv.same(b.lv):
        return ("lv", a.lv, a.idx, b.idx, 1)
    if isinstance(a, PV) and isinstance(b, PV) and isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
        return ("lv", a.lv.par, a.lv.idx, b.lv.idx, a.lv.skip)
    if isinstance(a, PV) and isinstance(b, PV) and isinstance(a.lv, Mem) and isinstance(b.lv, Mem):
        return ("mem", a.lv.base, a.lv.off, b.lv.off, a.lv.ty)
    if a.t is not None and b.t is not None and len(a.t) == 2 and len(b.t) == 2 and a.t[0].eq(b.t[0]):
        return ("mem", a.t[0], a.t[1], b.t[1], a.ty.a)
    raise Unsupported("iterator range")


def map_range(ex, st, sp, fn):
    """replace elements lo<=j<hi of every component array by fn(component, j, old)"""
    kind, c, lo, hi, x = sp
    j = z3.Int(fresh_name("j"))
    if kind == "lv":
        p = ex.read(st, c)
        arrs = [z3.Lambda([j], z3.If(z3.And(j >= lo, j < hi), fn(i, j, a), z3.Select(a, j))) for i, a in enumerate(p.t[x:])]
        if p.ty.k == "arr" and p.ty.n is not None:
            ex.oblige(st, "bounds", z3.Implies(lo < hi, z3.And(lo >= 0, hi <= p.ty.n)), "range inside the array")
        elif p.ty.k == "tmpl":
            ex.oblige(st, "bounds", z3.Implies(lo < hi, z3.And(lo >= 0, hi <= p.x)), "range inside the vector")
        ex.write(st, c, V(p.ty, list(p.t[:x]) + arrs))
        return
    k = ex.mkey(x)
    m = ex.cellof(st, "mem", k)[0]
    row = ex.simp_row(z3.Select(m, c))
    ex.oblige(st, "bounds", z3.Implies(lo < hi, z3.And(lo >= 0, hi <= ex.LEN(c))), "range inside the array")
    new = z3.Lambda([j], z3.If(z3.And(j >= lo, j < hi), fn(0, j, row), z3.Select(row, j)))
    st.mem[k] = [z3.Store(m, c, new)]


def fill(ex, st, argnodes):
    a, b = ex.rv(argnodes[0], st), ex.rv(argnodes[1], st)
    v = ex.rv(argnodes[2], st)
    sp = span(ex, st, a, b)
    et = sp[4] if sp[0] == "mem" else sp[1].ty.a[0] if sp[1].ty.k == "tmpl" else sp[1].ty.a
    v = ex.conv(st, v, et)
    map_range(ex, st, sp, lambda i, j, old: v.t[i])
    return V(VOID, [])


def copy(ex, st, argnodes):
    a, b, d = [ex.rv(x, st) for x in argnodes[:3]]
    s1 = span(ex, st, a, b)
    n = simp(s1[3] - s1[2])
    if s1[0] == "lv":
        p = ex.read(st, s1[1])
        src = p.t[s1[4]:]
    else:
        src = [ex.simp_row(z3.Select(ex.cellof(st, "mem", ex.mkey(s1[4]))[0], s1[1]))]
    lo = s1[2]
    if isinstance(d, (ItV,)) or isinstance(d, PV) and isinstance(d.lv, Elem):
        dl, di, sk = (d.lv, d.idx, 1) if isinstance(d, ItV) else (d.lv.par, d.lv.idx, d.lv.skip)
        sp = ("lv", dl, di, simp(di + n), sk)
        r = ItV(d.ty, d.lv, simp(di + n)) if isinstance(d, ItV) else PV(d.ty, Elem(dl, simp(di + n), d.lv.ty, sk))
    else:
        base, off, t = (d.lv.base, d.lv.off, d.lv.ty) if isinstance(d, PV) else (d.t[0], d.t[1], d.ty.a)
        sp = ("mem", base, off, simp(off + n), t)
        r = V(Ty("ptr", t), [base, simp(off + n)])
    dlo = sp[2]
    tot = sp[4] if sp[0] == "mem" else elem_ty(sp[1].ty)
    fromt = s1[4] if s1[0] == "mem" else elem_ty(s1[1].ty)
    if tot.k in ("int", "real", "bool") and fromt.k in ("int", "real", "bool") and tot.k != fromt.k:
        if not z3.is_int_value(n) or n.as_long() > 64:
            raise Unsupported("std::copy converts a symbolic number of elements")
        vals = [ex.conv(st, V(fromt, [simp(z3.Select(src[0], lo + i))]), tot).x for i in range(n.as_long())]
        for i, x in enumerate(vals):
            e = Elem(sp[1], simp(dlo + i), tot, sp[4]) if sp[0] == "lv" else Mem(sp[1], simp(dlo + i), tot)
            ex.write(st, e, V(tot, [x]))
        map_range(ex, st, sp, lambda i, j, old: z3.Select(old, j))
        return r
    map_range(ex, st, sp, lambda i, j, old: z3.Select(src[i], j - dlo + lo))
    return r


def elem_ty(lv_ty):
    return lv_ty.a[0] if lv_ty.k == "tmpl" else lv_ty.a


def sort(ex, st, argnodes):
    a, b = ex.rv(argnodes[0], st), ex.rv(argnodes[1], st)
    sp = span(ex, st, a, b)
    et = sp[4] if sp[0] == "mem" else elem_ty(sp[1].ty)
    lo, hi = sp[2], sp[3]
    if sp[0] == "lv":
        p = ex.read(st, sp[1])
        old = list(p.t[sp[4]:])
    else:
        old = [ex.simp_row(z3.Select(ex.cellof(st, "mem", ex.mkey(et))[0], sp[1]))]
    x, y = ex.lay.fresh("sx", et), ex.lay.fresh("sy", et)
    fx = z3.Function(fresh_name("perm"), I, I)
    if len(argnodes) > 2:
        cv = ex.rv(argnodes[2], st)
        s2 = st.fork()
        n0 = len(s2.pc)
        ex.quiet += 1
        try:
            if et.k == "tmpl" or et.k == "ptr":
                s2.assume(x.x > 0)
                s2.assume(y.x > 0)
                s2.assume(x.x < ex.N0 + s2.nalloc)
                s2.assume(y.x < ex.N0 + s2.nalloc)
            n0 = len(s2.pc)
            r = call_value(ex, s2, cv, [x, y], node=argnodes[2])
        finally:
            ex.quiet -= 1
        comp = ex.as_bool(s2, r)
    else:
        comp = x.x < y.x
    lt = lambda p, q: z3.substitute(comp, *([(u, v) for u, v in zip(x.t, p)] + [(u, v) for u, v in zip(y.t, q)]))
    # precondition of std::sort: a strict weak ordering; irreflexivity and asymmetry are what a wrong comparator breaks
    sx = [z3.Select(o, lo + z3.Int("sort_i")) for o in old]
    rng = z3.And(z3.Int("sort_i") >= 0, lo + z3.Int("sort_i") < hi)
    ex.oblige(st, "sort", z3.Implies(rng, z3.Not(lt(sx, sx))), "sort comparator is irreflexive", assume=False)
    new = [fresh("sorted", o.sort()) for o in old]
    i, j = z3.Ints("%s %s" % (fresh_name("i"), fresh_name("j")))
    inr = lambda v: z3.And(v >= lo, v < hi)
    inv = z3.Function(fresh_name("perminv"), I, I)
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(fx(i)), inv(fx(i)) == i, *[z3.Select(n_, i) == z3.Select(o, fx(i)) for n_, o in zip(new, old)])), patterns=[fx(i)]))
    st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), fx(inv(i)) == i)), patterns=[inv(i)]))
    for n_, o in zip(new, old):
        st.assume(z3.ForAll([i], z3.Implies(z3.Not(inr(i)), z3.Select(n_, i) == z3.Select(o, i)), patterns=[z3.Select(n_, i)]))
        st.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(fx(i)), z3.Select(n_, i) == z3.Select(o, fx(i)))), patterns=[z3.Select(n_, i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(lt([z3.Select(n_, j) for n_ in new], [z3.Select(n_, i) for n_ in new]))),
                        patterns=[z3.MultiPattern(z3.Select(new[0], i), z3.Select(new[0], j))]))
    if sp[0] == "lv":
        ex.write(st, sp[1], V(p.ty, list(p.t[:sp[4]]) + new))
    else:
        k = ex.mkey(et)
        st.mem[k] = [z3.Store(ex.cellof(st, "mem", k)[0], sp[1], new[0])]
    ex.externals.add("std::sort")
    return V(VOID, [])


def call_value(ex, st, fv, args, node=None):
    if isinstance(fv, LamV):
        return ex.call_function(fv.func, st, fv.this, bind(ex, fv.func, args))
    code = simp(fv.x)
    if not z3.is_int_value(code):
        raise Unsupported("unknown comparator")
    f = ex.fcode_rev.get(code.as_long())
    if f is None or isinstance(f, tuple):
        raise Unsupported("library comparator")
    return ex.call_function(f, st, None, bind(ex, f, args))


def bind(ex, f, args):
    out = []
    for p, a in zip(f.params, args):
        q = p["type"]["qualType"].rstrip()
        out.append(Alias(Temp(a)) if q.endswith("&") else a)
    return out


def transform(ex, st, argnodes):
    a, b, d = [ex.rv(x, st) for x in argnodes[:3]]
    fv = ex.rv(argnodes[3], st)
    if isinstance(a, ItV) and a.lv.ty.k == "str":
        code = ex.fcode_rev.get(simp(fv.x).as_long()) if fv.t is not None and z3.is_int_value(simp(fv.x)) else None
        islower = code == ("ext", "tolower")
        if code is not None and not isinstance(code, tuple) and len(code.params) == 1:
            ch = fresh("ch", I)
            s2 = st.fork()
            r = ex.call_function(code, s2, None, [V(INT32, [ch])])
            if r is not None and r.t is not None:
                sv = z3.Solver()
                sv.add(ch >= 0, ch < 256, LOWERC(ch) >= 0, LOWERC(ch) < 256, r.x != LOWERC(ch))
                islower = sv.check() == z3.unsat
        if islower:
            s = ex.read(st, a.lv)
            old = ex.read(st, d.lv)
            ls, ld = strlen_term(s.x), strlen_term(old.x)
            ex.oblige(st, "bounds", ld >= ls, "transform: destination long enough")
            st.assume(STRLEN(lower(s.x)) == ls)
            new = lower(s.x) if ex.decide(st, ld == ls) is True else z3.If(ld == ls, lower(s.x), fresh("str", I))
            ex.write(st, d.lv, V(s.ty, [new]))
            return d
        raise Unsupported("std::transform over a string")
    raise Unsupported("std::transform")


def find(ex, st, argnodes):
    a, b = ex.rv(argnodes[0], st), ex.rv(argnodes[1], st)
    v = ex.rv(argnodes[2], st)
    sp = span(ex, st, a, b)
    if sp[0] != "lv":
        raise Unsupported("std::find over dynamic memory")
    p = ex.read(st, sp[1])
    arrs = p.t[sp[4]:]
    lo, hi = sp[2], sp[3]
    v = ex.conv(st, v, elem_ty(sp[1].ty))
    r = fresh("found", I)
    eqv = lambda j: z3.And([z3.Select(x, j) == y for x, y in zip(arrs, v.t)])
    j = z3.Int(fresh_name("j"))
    st.assume(z3.And(r >= lo, z3.Or(r <= hi, lo > hi)))
    body = z3.Implies(z3.And(j >= lo, j < r), z3.Not(eqv(j)))
    st.assume(z3.ForAll([j], body, patterns=[z3.Select(arrs[0], j)]) if not z3.is_quantifier(arrs[0]) else z3.ForAll([j], simp(body)))
    st.assume(z3.Implies(r < hi, simp(eqv(r))))
    if isinstance(a, ItV):
        return ItV(a.ty, a.lv, r)
    return PV(a.ty, Elem(sp[1], r, a.lv.ty, sp[4]))


# --------------------------------------------------------------------------------------------- methods
def method(ex, st, o, name, argnodes, node):
    ty = o.ty
    if isinstance(o, Obj) and not (ty.k in ("str", "tmpl")):
        h = ex.hooks.get("method")
        if h:
            r = h(ex, st, o, name, argnodes, node)
            if r is not NotImplemented:
                return r
        c = ex.contracts.get("%s::%s" % (ty.name, name))
        if c is not None:
            ex.used_contracts.add("%s::%s" % (ty.name, name))
            return c(ex, st, V(Ty("ptr", ty), [o.ref]), [ex.rv(a, st) for a in argnodes], None)
    if isinstance(o, Obj) and ty.k == "tmpl":
        # pointer to a container (out-parameter): containers reached through pointers are modelled by reference cells
        o = Field(o.ref, ex.hkey("*" + repr(ty), "val", ty), ty)
    v = ex.read(st, o)
    if isinstance(v, ExV):
        if name == "what":
            return V(STR, [v.x])
        raise Unsupported("exception method %s" % name)
    if ty.k == "str":
        return str_method(ex, st, o, v, name, argnodes, node)
    if ty.k == "class" and is_stream(ty) or ty.k == "class" and ty.name in ("std::basic_ios<char>", "std::ios_base"):
        return stream_method(ex, st, o, v, name, argnodes, node)
    if ty.k == "tmpl":
        n = ty.name
        if n in ("shared_ptr", "unique_ptr", "__shared_ptr", "__shared_ptr_access"):
            if name == "operator bool":
                return V(BOOL, [v.x != 0])
            if name == "get":
                return V(Ty("ptr", ty.a[0]), [v.x])
            if name == "reset":
                if argnodes and argnodes[0].get("kind") != "CXXDefaultArgExpr":
                    p = ex.rv(argnodes[0], st)
                    ex.write(st, o, V(ty, [p.x]))
                else:
                    ex.write(st, o, V(ty, [ival(0)]))
                return V(VOID, [])
            if name == "use_count":
                return V(INT(64, True), [fresh("uc", I)])
        if n in ("vector", "initializer_list"):
            return vec_method(ex, st, o, v, name, argnodes, node)
        if n == "map":
            return map_method(ex, st, o, v, name, argnodes, node)
    h = ex.hooks.get("method")
    if h:
        r = h(ex, st, o, name, argnodes, node)
        if r is not NotImplemented:
            return r
    raise Unsupported("method %s of %r" % (name, ty))


def str_method(ex, st, o, v, name, argnodes, node):
    if name in ("c_str", "data", "str"):
        st.assume(v.x != 0)
        return V(STR, v.t)
    if name == "empty":
        return V(BOOL, [v.x == strlit("")])
    if name in ("size", "length"):
        r = strlen_term(v.x)
        st.assume(z3.And(r >= 0, (r == 0) == (v.x == strlit(""))))
        return V(SIZE, [r])
    if name in ("begin", "end"):
        return ItV(Ty("class", name="striter"), o, ival(0) if name == "begin" else STRLEN(v.x))
    if name == "compare":
        a = ex.rv(argnodes[0], st)
        if len(argnodes) == 1:
            r = fresh("cmp", I)
            st.assume((r == 0) == (v.x == a.x))
            return V(INT32, [r])
        vs = [ex.rv(x, st) for x in argnodes]
        f = z3.Function("str_compare", I, I, I, I, I)
        return V(INT32, [f(v.x, vs[0].x, vs[1].x, vs[2].x)])
    if name == "find":
        a = ex.rv(argnodes[0], st)
        f = z3.Function("str_find", I, I, I)
        return V(SIZE, [f(v.x, a.x)])
    if name == "resize":
        n_ = ex.rv(argnodes[0], st)
        r = fresh("str", I)
        st.assume(z3.And(STRLEN(r) == n_.x, r > 0))
        ex.write(st, o, V(o.ty, [r]))
        return V(VOID, [])
    if name in ("clear", "assign"):
        ex.write(st, o, V(o.ty, [strlit("") if name == "clear" else fresh("str", I)]))
        return V(VOID, [])
    if name in ("append", "operator+="):
        a = ex.rv(argnodes[0], st)
        ex.write(st, o, V(o.ty, [cat(v.x, a.x)]))
        return o
    raise Unsupported("string method %s" % name)


def stream_method(ex, st, o, v, name, argnodes, node):
    if name == "str":
        if argnodes:
            a = ex.rv(argnodes[0], st)
            ex.write(st, o, V(o.ty, [a.x]))
            return V(VOID, [])
        return V(STR, [v.x])
    h = ex.hooks.get("stream")
    if h:
        r = h(ex, st, o, name, argnodes, node)
        if r is not NotImplemented:
            return r
    if name in ("operator bool", "good", "eof", "is_open", "fail", "operator!"):
        return V(BOOL, [fresh("stream_" + name.replace(" ", "_"), B)])
    if name in ("open", "close", "clear", "flush"):
        for a in argnodes:
            ex.rv(a, st)
        return V(VOID, [])
    raise Unsupported("stream method %s" % name)


def vec_method(ex, st, o, v, name, argnodes, node):
    ty = v.ty
    et = ty.a[0]
    if name == "size":
        return V(SIZE, [v.x])
    if name == "empty":
        return V(BOOL, [v.x == 0])
    if name == "clear":
        ex.write(st, o, V(ty, [ival(0)] + list(v.t[1:])))
        return V(VOID, [])
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back" and et.k not in ("str", "int", "real", "tmpl", "bool"):
            raise Unsupported("emplace_back")
        a = ex.conv(st, ex.rv(argnodes[0], st), et)
        if a.t is None:
            a = ex.flatten_ptr(st, a)
        ex.write(st, o, V(ty, [simp(v.x + 1)] + [z3.Store(x, v.x, y) for x, y in zip(v.t[1:], a.t)]))
        return V(VOID, [])
    if name in ("resize", "assign"):
        n = ex.rv(argnodes[0], st)
        ex.oblige(st, "ub", n.x >= 0, "vector size non-negative")
        d = ex.conv(st, ex.rv(argnodes[1], st), et) if len(argnodes) > 1 and argnodes[1].get("kind") != "CXXDefaultArgExpr" else ex.lay.default(et)
        j = z3.Int(fresh_name("j"))
        if name == "assign":
            arrs = [z3.K(I, x) for x in d.t]
        elif z3.is_int_value(simp(v.x)) and simp(v.x).as_long() == 0:
            arrs = [z3.K(I, x) for x in d.t]
        else:
            arrs = [z3.Lambda([j], z3.If(j < v.x, z3.Select(x, j), y)) for x, y in zip(v.t[1:], d.t)]
        ex.write(st, o, V(ty, [n.x] + arrs))
        return V(VOID, [])
    if name in ("begin", "cbegin"):
        return ItV(Ty("tmpl", (et,), None, "__normal_iterator"), o, ival(0))
    if name in ("end", "cend"):
        return ItV(Ty("tmpl", (et,), None, "__normal_iterator"), o, v.x)
    if name in ("at", "operator[]"):
        i = ex.rv(argnodes[0], st)
        if name == "at":
            ex.throw(st, ExV("std::out_of_range", fresh("msg", I)), z3.Or(i.x < 0, i.x >= v.x))
        else:
            ex.oblige(st, "bounds", z3.And(i.x >= 0, i.x < v.x), "vector access in bounds")
        return Elem(o, i.x, et, 1)
    if name in ("front", "back"):
        ex.oblige(st, "bounds", v.x > 0, "vector not empty")
        return Elem(o, ival(0) if name == "front" else simp(v.x - 1), et, 1)
    if name == "pop_back":
        ex.oblige(st, "bounds", v.x > 0, "vector not empty")
        ex.write(st, o, V(ty, [simp(v.x - 1)] + list(v.t[1:])))
        return V(VOID, [])
    if name == "data":
        return PV(Ty("ptr", et), Elem(o, ival(0), et, 1))
    if name == "reserve":
        ex.rv(argnodes[0], st)
        return V(VOID, [])
    if name == "shrink_to_fit":
        return V(VOID, [])
    raise Unsupported("vector method %s" % name)


def map_method(ex, st, o, v, name, argnodes, node):
    ty = v.ty
    if name == "size":
        return V(SIZE, [v.x])
    if name == "empty":
        return V(BOOL, [v.x == 0])
    if name == "clear":
        ex.write(st, o, V(ty, ex.lay.default(ty).t))
        return V(VOID, [])
    if name == "count":
        k = ex.conv(st, ex.rv(argnodes[0], st), ty.a[0])
        return V(SIZE, [z3.If(z3.Select(v.t[1], k.x), ival(1), ival(0))])
    if name == "at":
        k = ex.conv(st, ex.rv(argnodes[0], st), ty.a[0])
        ex.throw(st, ExV("std::out_of_range", fresh("msg", I)), z3.Not(z3.Select(v.t[1], k.x)))
        return Elem(o, k.x, ty.a[1], 2)
    if name == "operator[]":
        return map_index(ex, st, o, v, ex.conv(st, ex.rv(argnodes[0], st), ty.a[0]))
    if name in ("find", "end", "cend"):
        # an iterator is the key of the entry it refers to; MAP_END is past the end (and is no key)
        if name == "find":
            k = ex.conv(st, ex.rv(argnodes[0], st), ty.a[0])
            if k.x.sort() != I:
                raise Unsupported("map key sort")
            st.assume(k.x != MAP_END)
            r = simp(z3.If(z3.Select(v.t[1], k.x), k.x, MAP_END))
        else:
            r = MAP_END
        return ItV(Ty("tmpl", (ty,), None, "__normal_iterator"), o, r)
    if name in ("insert", "emplace"):
        if name == "insert":
            if len(argnodes) != 1:
                raise Unsupported("map insert of a range")
            p = asv(ex, st, ex.anyv(argnodes[0], st))
            if p.t is None or p.ty.k != "tmpl" or p.ty.name != "pair":
                raise Unsupported("map insert")
            n1 = len(ex.lay.sorts(p.ty.a[0]))
            k, d = V(p.ty.a[0], p.t[:n1]), V(p.ty.a[1], p.t[n1:])
        else:
            k, d = [asv(ex, st, ex.anyv(x, st)) for x in argnodes[:2]]
        k, d = ex.conv(st, k, ty.a[0]), ex.conv(st, d, ty.a[1])
        has = z3.Select(v.t[1], k.x)
        arrs = [z3.Store(a, k.x, ite(has, z3.Select(a, k.x), x)) for a, x in zip(v.t[2:], d.t)]
        ex.write(st, o, V(ty, [simp(ite(has, v.x, v.x + 1)), z3.Store(v.t[1], k.x, z3.BoolVal(True))] + arrs))
        return V(VOID, [])
    raise Unsupported("map method %s" % name)


MAP_END = z3.Int("map_end")


def map_index(ex, st, o, v, k):
    ty = v.ty
    has = z3.Select(v.t[1], k.x)
    d = ex.lay.default(ty.a[1])
    if ex.decide(st, has, 500) is not True:
        arrs = [z3.Store(a, k.x, ite(has, z3.Select(a, k.x), x)) for a, x in zip(v.t[2:], d.t)]
        ex.write(st, o, V(ty, [simp(ite(has, v.x, v.x + 1)), z3.Store(v.t[1], k.x, z3.BoolVal(True))] + arrs))
    return Elem(o, k.x, ty.a[1], 2)


# --------------------------------------------------------------------------------------------- operators
def text_of(ex, st, v):
    if v is None or v.t is None:
        return strlit("")
    if v.ty.k in ("str",):
        return v.x
    if v.ty.k == "int":
        return NUMSTR(v.x)
    if v.ty.k == "real":
        return REALSTR(v.x)
    if v.ty.k == "bool":
        return NUMSTR(z3.If(v.x, ival(1), ival(0)))
    if v.ty.k == "class" and (v.ty.name or "").startswith("std::_"):
        return strlit("")
    return strlit("")


def operator(ex, st, op, argnodes, node):
    if op in ("|", "&") and "openmode" in ((node.get("type") or {}).get("qualType") or "").lower():
        a, b = [simp(ex.rv(x, st).x) for x in argnodes]
        if z3.is_int_value(a) and z3.is_int_value(b):
            a, b = a.as_long(), b.as_long()
            return V(INT32, [ival(a | b if op == "|" else a & b)])
        return V(INT32, [fresh("openmode", I)])
    a0 = ex.anyv(argnodes[0], st)
    o = ex.resolve(st, a0) if isinstance(a0, LV) else Temp(a0)
    ty = o.ty
    if op == "<<":
        v0 = ex.read(st, o) if not isinstance(o, Obj) else None
        q = argnodes[1]
        # manipulators (std::endl, std::ios flags)
        if q.get("kind") in ("ImplicitCastExpr",) and q.get("castKind") == "FunctionToPointerDecay" or node_type(q).k in ("fptr", "func"):
            d = q
            while d.get("inner") and d.get("kind") != "DeclRefExpr":
                d = d["inner"][0]
            txt = strlit("\n" if (d.get("referencedDecl") or {}).get("name") == "endl" else "")
        else:
            txt = text_of(ex, st, ex.rv(q, st))
        h = ex.hooks.get("out")
        if h:
            h(ex, st, o, txt)
        if v0 is not None and v0.t is not None and "stringstream" in (ty.name or "") and not (isinstance(o, Temp)):
            ex.write(st, o, V(v0.ty, [cat(v0.x, txt)]))
        return o
    if op == ">>":
        h = ex.hooks.get("in")
        if h:
            r = h(ex, st, o, argnodes[1])
            if r is not NotImplemented:
                return r
        raise Unsupported("stream extraction")
    if op == "=":
        if isinstance(o, Obj):
            raise Unsupported("assignment of objects")
        v = ex.rv(argnodes[1], st)
        if v.t is None:
            ex.write(st, o, v)
            return o
        v = ex.conv(st, v, ty)
        if ty.k in ("str",) and v.ty.k != "str":
            raise Unsupported("string assignment from %r" % (v.ty,))
        ex.write(st, o, V(ty, v.t))
        if ty.k == "tmpl" and ty.name == "unique_ptr":
            src = ex.anyv(argnodes[1], st.fork()) if False else None
        return o
    if op == "->":
        v = ex.read(st, o)
        if isinstance(v, ItV):
            l = ex.it_elem(st, v)
            return V(Ty("ptr", l.ty), [ex.read(st, l).x]) if l.ty.k in ("class",) else PV(Ty("ptr", l.ty), l)
        return V(Ty("ptr", v.ty.a[0]), [v.x])
    if op == "*":
        v = ex.read(st, o)
        return ex.deref(st, v)
    if op == "[]":
        if isinstance(o, Obj) and ty.k == "tmpl":
            o = Field(o.ref, ex.hkey("*" + repr(ty), "val", ty), ty)
        v = ex.read(st, o)
        i = ex.rv(argnodes[1], st)
        if ty.k == "tmpl" and ty.name == "vector":
            ex.oblige(st, "bounds", z3.And(i.x >= 0, i.x < v.x), "vector access in bounds")
            return Elem(o, i.x, ty.a[0], 1)
        if ty.k == "tmpl" and ty.name == "map":
            return map_index(ex, st, o, v, ex.conv(st, i, ty.a[0]))
        if ty.k == "tmpl" and ty.name == "array":
            return Elem(o, i.x, ty.a[0], 0)
        if ty.k == "tmpl" and ty.name == "unique_ptr":
            raise Unsupported("unique_ptr array")
        raise Unsupported("operator[] on %r" % (ty,))
    if op in ("==", "!=", "<", ">", "<=", ">="):
        a = ex.read(st, o)
        b = ex.rv(argnodes[1], st)
        if isinstance(a, ItV):
            return ex.ptrop(st, op, a, b, BOOL)
        if a.ty.k == "str" or b.ty.k == "str":
            if op in ("==", "!="):
                r = a.x == b.x
                return V(BOOL, [r if op == "==" else z3.Not(r)])
            r = z3.Function("str_less", I, I, B)
            return V(BOOL, [{"<": r(a.x, b.x), ">": r(b.x, a.x), "<=": z3.Not(r(b.x, a.x)), ">=": z3.Not(r(a.x, b.x))}[op]])
        if a.ty.k == "tmpl" and a.ty.name in ("shared_ptr", "unique_ptr"):
            r = a.x == b.x
            return V(BOOL, [r if op == "==" else z3.Not(r)])
        return ex.binop(st, op, a, b, BOOL)
    if op in ("+", "-"):
        a = ex.read(st, o)
        b = ex.rv(argnodes[1], st)
        if isinstance(a, ItV) or isinstance(b, ItV):
            return ex.ptrop(st, op, a, b, node_type(node))
        if a.ty.k == "str" and op == "+":
            return V(STR, [cat(a.x, b.x)])
        raise Unsupported("operator %s" % op)
    if op == "+=":
        a = ex.read(st, o)
        b = ex.rv(argnodes[1], st)
        if a.ty.k == "str":
            ex.write(st, o, V(a.ty, [cat(a.x, b.x)]))
            return o
        if isinstance(a, ItV):
            ex.write(st, o, ItV(a.ty, a.lv, simp(a.idx + b.x)))
            return o
        raise Unsupported("operator +=")
    if op in ("++", "--"):
        a = ex.read(st, o)
        if isinstance(a, ItV):
            r = ItV(a.ty, a.lv, simp(a.idx + (1 if op == "++" else -1)))
            ex.write(st, o, r)
            return a if len(argnodes) > 1 else o
        raise Unsupported("operator %s" % op)
    if op == "bool":
        v = ex.read(st, o)
        return V(BOOL, [ex.as_bool(st, v)])
    if op == "|":
        return V(ty if ty.k == "class" else INT32, [fresh("flags", I)])
    if op == "()":
        v = ex.read(st, o)
        raise Unsupported("operator()")
    raise Unsupported("operator %s on %r" % (op, ty))
