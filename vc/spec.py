"""Helpers to write contracts."""
import z3
from .core import *
from .execu import Exec
from .verify import Task, AnyOf, Lemma
from . import lib
from .core import fresh_name

NS = "geomodelgrids::"
S = NS + "serial::"
U = NS + "utils::"
A = NS + "apps::"


def cls(n):
    return Ty("class", name=n)


def ptr(t):
    return Ty("ptr", t)


PREAL, PSIZE = ptr(REAL), ptr(SIZE)


def this_obj(ex, st, cname, ref):
    r = ref if z3.is_expr(ref) else ival(ref)
    st.assume(lib.CLSTAG(r) == lib.clstag(ex.prog.cls(cname)))
    return V(ptr(cls(cname)), [r])


def arr(ex, st, base, terms, ty, name="a"):
    """a dynamic array with the given first elements; returns a pointer value"""
    base = base if z3.is_expr(base) else ival(base)
    k = ex.mkey(ty)
    m = ex.cellof(st, "mem", k)[0]
    row = z3.Const("%s_row" % name, z3.ArraySort(I, ex.msorts[k]))
    for i, t in enumerate(terms):
        row = z3.Store(row, ival(i), t)
    st.mem[k] = [z3.Store(m, base, row)]
    st.assume(ex.LEN(base) == len(terms))
    return V(ptr(ty), [base, ival(0)])


def symarr(ex, st, base, n, ty, name):
    """a dynamic array of symbolic length n; returns (pointer, row constant)"""
    base = base if z3.is_expr(base) else ival(base)
    k = ex.mkey(ty)
    m = ex.cellof(st, "mem", k)[0]
    row = z3.Const(name, z3.ArraySort(I, ex.msorts[k]))
    st.mem[k] = [z3.Store(m, base, row)]
    st.assume(ex.LEN(base) == n)
    return V(ptr(ty), [base, ival(0)]), row


def row(ex, st, p):
    k = ex.mkey(p.ty.a)
    return ex.simp_row(z3.Select(ex.cellof(st, "mem", k)[0], p.t[0]))


def elem(ex, st, p, i):
    return ex.read(st, Mem(p.t[0], simp(p.t[1] + i), p.ty.a)).x


def setf(ex, st, ref, c, name, v):
    q, t = ex.prog.field_type(c, name)
    if q is None:
        raise Unsupported("field %s::%s not found" % (c, name))
    if not isinstance(v, V):
        v = V(t, v if isinstance(v, list) else [v])
    ex.setf(st, ref if z3.is_expr(ref) else ival(ref), c, name, v)


def getf(ex, st, ref, c, name):
    return ex.getf(st, ref if z3.is_expr(ref) else ival(ref), c, name)


def fptr_of(ex, qname):
    return ex.fcode(ex.prog.func(qname))


def same_row_outside(ex, pre, post, base, key, allowed):
    """frame: dynamic memory `key` unchanged except the listed bases"""
    b = z3.Int(fresh_name("fb"))
    m0, m1 = ex.cellof(pre, "mem", key)[0], ex.cellof(post, "mem", key)[0]
    if m0 is m1 or m0.eq(m1):
        return z3.BoolVal(True)
    return z3.Implies(z3.And([b != x for x in allowed] + [b < ex.B0]), z3.Select(m1, b) == z3.Select(m0, b))
