"""Symbolic values, states and obligations shared by the C++ executor and the library semantics."""
import z3
from .front import Ty, VOID, BOOL, REAL, STR, NULLT, INT, SIZE, INT32, parse_type

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
z3.set_param("timeout", 20000)


class Unsupported(Exception):
    """A construct the verifier does not model: the function is not proved (never a violation)."""


_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])


def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)


def ival(n):
    return z3.IntVal(n)


def simp(t):
    return z3.simplify(t)


class Layouts:
    """flat list of SMT sorts for every C++ type"""

    def __init__(self, prog=None):
        self.prog = prog
        self.enums = set()
        if prog:
            for tu in prog.tus.values():
                for i, n in tu.decl.items():
                    pass
                for i, q in tu.qn.items():
                    d = tu.decl.get(i)
                    if d is not None and d.get("kind") == "EnumDecl":
                        self.enums.add(q)
        self.cache = {}

    def is_repo_class(self, ty):
        return ty.k == "class" and self.prog is not None and self.prog.cls(ty.name) in self.prog.classes

    def sorts(self, ty):
        r = self.cache.get(ty)
        if r is None:
            r = self._sorts(ty)
            self.cache[ty] = r
        return r

    def _sorts(self, ty):
        k = ty.k
        if k == "bool":
            return [B]
        if k == "int":
            return [I]
        if k == "real":
            return [R]
        if k in ("str", "null", "fptr", "memptr", "func"):
            return [I]
        if k == "void":
            return []
        if k == "ptr":
            return [I] if self.is_obj_ptr(ty) else [I, I]
        if k == "arr":
            return [z3.ArraySort(I, s) for s in self.sorts(ty.a)]
        if k == "class":
            return [I]
        if k == "tmpl":
            if ty.name in ("shared_ptr", "unique_ptr"):
                return [I]
            if ty.name in ("vector", "initializer_list"):
                return [I] + [z3.ArraySort(I, s) for s in self.sorts(ty.a[0])]
            if ty.name == "pair":
                return [s for a in ty.a for s in self.sorts(a)]
            if ty.name == "map":
                ks = self.sorts(ty.a[0])
                if len(ks) != 1:
                    raise Unsupported("map key type %r" % (ty,))
                return [I, z3.ArraySort(ks[0], B)] + [z3.ArraySort(ks[0], s) for s in self.sorts(ty.a[1])]
            if ty.name == "array":
                return [z3.ArraySort(I, s) for s in self.sorts(ty.a[0])]
        raise Unsupported("type %r" % (ty,))

    def is_obj_ptr(self, ty):
        """pointer to an object with identity (one Int reference) as opposed to a pointer into scalar storage"""
        e = ty.a
        return e.k in ("class", "void", "tmpl", "func") and not (e.k == "class" and e.name in self.enums)

    def default(self, ty):
        """value-initialised"""
        k = ty.k
        if k == "bool":
            return V(ty, [z3.BoolVal(False)])
        if k == "int":
            return V(ty, [ival(0)])
        if k == "real":
            return V(ty, [z3.RealVal(0)])
        if k == "str":
            return V(ty, [strlit("")])
        if k == "tmpl" and ty.name in ("vector", "initializer_list"):
            return V(ty, [ival(0)] + [z3.K(I, dflt(s)) for s in self.sorts(ty.a[0])])
        if k == "tmpl" and ty.name == "map":
            ks = self.sorts(ty.a[0])[0]
            return V(ty, [ival(0), z3.K(ks, z3.BoolVal(False))] + [z3.K(ks, dflt(s)) for s in self.sorts(ty.a[1])])
        if k == "tmpl" and ty.name == "pair":
            return V(ty, [t for a in ty.a for t in self.default(a).t])
        return V(ty, [dflt(s) for s in self.sorts(ty)])

    def fresh(self, name, ty):
        return V(ty, [fresh(name, s) for s in self.sorts(ty)])

    def const(self, name, ty):
        ss = self.sorts(ty)
        if len(ss) == 1:
            return V(ty, [z3.Const(name, ss[0])])
        return V(ty, [z3.Const("%s.%d" % (name, i), s) for i, s in enumerate(ss)])


def dflt(s):
    if s == I:
        return ival(0)
    if s == R:
        return z3.RealVal(0)
    if s == B:
        return z3.BoolVal(False)
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(s.domain(), dflt(s.range()))
    raise Unsupported("default of sort %s" % s)


# ------------------------------------------------------------------------------------------ strings
# Strings are integers; literals are interned to pairwise different negative numbers, 0 is the null char pointer.
_strs = {}
_strs_rev = {}


def strlit(s):
    if s not in _strs:
        n = -2 - len(_strs)
        _strs[s] = n
        _strs_rev[n] = s
    return ival(_strs[s])


CAT = z3.Function("cat", I, I, I)
LOWER = z3.Function("lower", I, I)
STRLEN = z3.Function("strlen", I, I)
NUMSTR = z3.Function("numstr_int", I, I)
REALSTR = z3.Function("numstr_real", R, I)
LOWERC = z3.Function("lowerc", I, I)
TXT = z3.Function("buffer_text", I, I)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)


def str_contains(t, text, memo=None):
    """lower bound: is `text` certainly part of string term t?  Returns a z3 Bool."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_int_value(t):
        s = _strs_rev.get(t.as_long())
        r = z3.BoolVal(s is not None and text in s)
    elif t.decl().eq(CAT):
        # flatten the concatenation and look for the text across literal runs
        parts = _flat(t)
        runs, cur, rest = [], "", []
        for p in parts:
            if z3.is_int_value(p) and p.as_long() in _strs_rev:
                cur += _strs_rev[p.as_long()]
            else:
                runs.append(cur)
                cur = ""
                rest.append(p)
        runs.append(cur)
        if any(text in x for x in runs):
            r = z3.BoolVal(True)
        else:
            r = ors([str_contains(p, text, memo) for p in rest])
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        x, y = str_contains(a, text, memo), str_contains(b, text, memo)
        r = x if x.eq(y) else z3.If(c, x, y)
    else:
        r = z3.Function("contains_" + text, I, B)(t)
    memo[k] = (t, r)
    return r


def ors(l):
    l = [x for x in l if not z3.is_false(x)]
    if any(z3.is_true(x) for x in l):
        return z3.BoolVal(True)
    return z3.Or(l) if len(l) > 1 else l[0] if l else z3.BoolVal(False)


def _flat(t):
    if z3.is_app(t) and t.decl().eq(CAT):
        return _flat(t.arg(0)) + _flat(t.arg(1))
    return [t]


def cat(a, b):
    if z3.is_int_value(a) and a.as_long() == strlit("").as_long():
        return b
    if z3.is_int_value(b) and b.as_long() == strlit("").as_long():
        return a
    if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() in _strs_rev and b.as_long() in _strs_rev:
        return strlit(_strs_rev[a.as_long()] + _strs_rev[b.as_long()])
    # keep concatenations right-leaning so that equal strings have equal terms
    if z3.is_app(a) and a.decl().eq(CAT):
        return cat(a.arg(0), cat(a.arg(1), b))
    if z3.is_int_value(a) and z3.is_app(b) and b.decl().eq(CAT) and z3.is_int_value(b.arg(0)) and a.as_long() in _strs_rev and b.arg(0).as_long() in _strs_rev:
        return CAT(strlit(_strs_rev[a.as_long()] + _strs_rev[b.arg(0).as_long()]), b.arg(1))
    return CAT(a, b)


def lower(a):
    if z3.is_int_value(a) and a.as_long() in _strs_rev:
        return strlit(_strs_rev[a.as_long()].lower())
    return LOWER(a)


# ------------------------------------------------------------------------------------------ values
class V:
    """rvalue: type + SMT components"""
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty, self.t = ty, list(t)

    @property
    def x(self):
        return self.t[0]

    def __repr__(self):
        return "V(%r,%s)" % (self.ty, self.t)


class PV(V):
    """pointer to a known lvalue"""
    __slots__ = ("lv",)

    def __init__(self, ty, lv):
        self.ty, self.lv = ty, lv
        self.t = None


class ItV(V):
    """iterator into a container lvalue"""
    __slots__ = ("lv", "idx", "cont")

    def __init__(self, ty, lv, idx):
        self.ty, self.lv, self.idx = ty, lv, idx
        self.t = None


class LamV(V):
    __slots__ = ("func", "caps", "this")

    def __init__(self, func, caps, this):
        self.ty, self.func, self.caps, self.this = Ty("lam"), func, caps, this
        self.t = None


class ExV(V):
    """exception object: class name + message"""
    __slots__ = ("cls",)

    def __init__(self, cls, msg):
        self.ty, self.t, self.cls = Ty("exc", name=cls), [msg], cls


# ------------------------------------------------------------------------------------------ lvalues
class LV:
    ty = None


class Local(LV):
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def same(self, o):
        return isinstance(o, Local) and o.key == self.key


class Temp(LV):
    __slots__ = ("v", "ty")

    def __init__(self, v):
        self.v, self.ty = v, v.ty

    def same(self, o):
        return o is self


class Field(LV):
    __slots__ = ("ref", "key", "ty")

    def __init__(self, ref, key, ty):
        self.ref, self.key, self.ty = ref, key, ty

    def same(self, o):
        return isinstance(o, Field) and o.key == self.key and o.ref.eq(self.ref)


class Elem(LV):
    """element of an array-, vector- or map-typed lvalue"""
    __slots__ = ("par", "idx", "ty", "skip")

    def __init__(self, par, idx, ty, skip=0):
        self.par, self.idx, self.ty, self.skip = par, idx, ty, skip

    def same(self, o):
        return isinstance(o, Elem) and o.par.same(self.par) and o.idx.eq(self.idx)


class Sub(LV):
    """component range of a lvalue (pair members)"""
    __slots__ = ("par", "lo", "hi", "ty")

    def __init__(self, par, lo, hi, ty):
        self.par, self.lo, self.hi, self.ty = par, lo, hi, ty

    def same(self, o):
        return isinstance(o, Sub) and o.par.same(self.par) and o.lo == self.lo


class MapEnt(LV):
    """the entry of a map under a key that is present: a pair (key, value)"""
    __slots__ = ("par", "key", "ty")

    def __init__(self, par, key, ty):
        self.par, self.key, self.ty = par, key, ty

    def same(self, o):
        return isinstance(o, MapEnt) and o.par.same(self.par) and o.key.eq(self.key)


class Mem(LV):
    """element `off` of the dynamic array `base`"""
    __slots__ = ("base", "off", "ty")

    def __init__(self, base, off, ty):
        self.base, self.off, self.ty = base, off, ty

    def same(self, o):
        return isinstance(o, Mem) and o.base.eq(self.base) and o.off.eq(self.off)


class Obj(LV):
    """an object with identity"""
    __slots__ = ("ref", "ty")

    def __init__(self, ref, ty):
        self.ref, self.ty = ref, ty

    def same(self, o):
        return isinstance(o, Obj) and o.ref.eq(self.ref)


class Alias:
    """binding of a reference variable"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


# ------------------------------------------------------------------------------------------ states
class State:
    __slots__ = ("loc", "heap", "mem", "pc", "dead", "ghost", "nalloc", "epoch", "alive")

    def __init__(self):
        self.loc, self.heap, self.mem, self.pc = {}, {}, {}, []
        self.dead = False
        self.ghost = {}
        self.nalloc = 0
        self.epoch = 0
        self.alive = ()          # local objects whose destructors run when their scope ends

    def fork(self):
        s = State.__new__(State)
        s.loc, s.heap, s.mem = dict(self.loc), dict(self.heap), dict(self.mem)
        s.pc, s.dead, s.ghost = list(self.pc), self.dead, dict(self.ghost)
        s.nalloc, s.epoch, s.alive = self.nalloc, self.epoch, self.alive
        return s

    def set_to(self, o):
        self.loc, self.heap, self.mem, self.pc = o.loc, o.heap, o.mem, o.pc
        self.dead, self.ghost, self.nalloc, self.epoch, self.alive = o.dead, o.ghost, o.nalloc, o.epoch, o.alive

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)


class Obl:
    __slots__ = ("name", "kind", "pc", "goal", "func", "line", "status", "time", "backend", "model", "witness", "imprecise")

    def __init__(self, name, kind, pc, goal, func, line):
        self.name, self.kind, self.pc, self.goal, self.func, self.line = name, kind, list(pc), goal, func, line
        self.status, self.time, self.backend, self.model, self.witness, self.imprecise = None, 0.0, None, None, None, False


def ite(c, a, b):
    if a is b or a.eq(b):
        return a
    c = simp(c) if not z3.is_const(c) else c
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Alias) or isinstance(b, Alias):
        if isinstance(a, Alias) and isinstance(b, Alias) and a.lv.same(b.lv):
            return a
        raise Unsupported("merge of references")
    if isinstance(a, PV) and isinstance(b, PV):
        if a.lv.same(b.lv):
            return a
        if isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
            return PV(a.ty, Elem(a.lv.par, ite(c, a.lv.idx, b.lv.idx), a.lv.ty, a.lv.skip))
        raise Unsupported("merge of pointers")
    if isinstance(a, ItV) and isinstance(b, ItV):
        if a.lv.same(b.lv):
            return ItV(a.ty, a.lv, ite(c, a.idx, b.idx))
        raise Unsupported("merge of iterators")
    if isinstance(a, LamV) or isinstance(b, LamV) or isinstance(a, (PV, ItV)) or isinstance(b, (PV, ItV)):
        raise Unsupported("merge of %r / %r" % (type(a), type(b)))
    if isinstance(a, ExV) and isinstance(b, ExV):
        if a.cls == b.cls:
            return ExV(a.cls, ite(c, a.x, b.x))
        raise Unsupported("merge of exceptions")
    if len(a.t) != len(b.t):
        raise Unsupported("merge of differently shaped values")
    return V(a.ty, [ite(c, x, y) for x, y in zip(a.t, b.t)])


def maxn(a, b):
    if not z3.is_expr(a) and not z3.is_expr(b):
        return max(a, b)
    a = a if z3.is_expr(a) else ival(a)
    b = b if z3.is_expr(b) else ival(b)
    return a if a.eq(b) else z3.If(a > b, a, b)


def common_prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n].eq(b[n])):
        n += 1
    return n


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    if not l:
        return z3.BoolVal(True)
    return l[0] if len(l) == 1 else z3.And(l)


def merge_states(ex, a, b, cond=None):
    """join of two states; cond (true exactly on a's side) or a fresh selector"""
    if a.dead:
        return b
    if b.dead:
        return a
    if len(a.alive) != len(b.alive):
        raise Unsupported("join of different scopes")
    n = common_prefix(a.pc, b.pc)
    ea, eb = a.pc[n:], b.pc[n:]
    r = a.fork()
    r.pc = a.pc[:n]
    if cond is None:
        cond = fresh("sel", B)
    ca, cb = conj(ea), conj(eb)
    if not (z3.is_true(ca)):
        r.pc.append(z3.Implies(cond, ca))
    if not (z3.is_true(cb)):
        r.pc.append(z3.Implies(z3.Not(cond), cb))
    for k in list(r.loc.keys()):
        if k not in b.loc:
            del r.loc[k]
            continue
        try:
            r.loc[k] = merge_val(cond, a.loc[k], b.loc[k])
        except Unsupported:
            r.loc[k] = Poison(k)
    for m in ("heap", "mem"):
        ra, da, db = getattr(r, m), getattr(a, m), getattr(b, m)
        for k in set(da) | set(db):
            x, y = ex.cellof(a, m, k), ex.cellof(b, m, k)
            ra[k] = [ite(cond, p, q) for p, q in zip(x, y)]
    for k in set(a.ghost) | set(b.ghost):
        x, y = a.ghost.get(k), b.ghost.get(k)
        if x is y:
            continue
        if x is None or y is None:
            x = ex.ghost0(k) if x is None else x
            y = ex.ghost0(k) if y is None else y
        if isinstance(x, V):
            r.ghost[k] = merge_val(cond, x, y)
            continue
        r.ghost[k] = ite(cond, x, y) if not isinstance(x, (list, tuple)) else type(x)(ite(cond, p, q) for p, q in zip(x, y))
    r.nalloc = maxn(a.nalloc, b.nalloc)
    return r


class Poison:
    def __init__(self, k):
        self.k = k
