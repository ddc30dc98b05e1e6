"""Loops: complete unrolling when the trip count is a known constant, otherwise a verified summary.

A summary replaces the loop state by closed forms in the iteration counter k.  Closed forms are guessed from one
symbolic execution of the body and each one is *checked* (exact by construction for induction variables and
iteration-local values; by the solver for arrays and last-match variables).  Whatever has no closed form becomes an
unconstrained function of k (the executor is then marked imprecise: a failed obligation is no longer definite)."""
import os
import z3
from .core import *
from .front import SIZE
from . import core, nl


class Rollback(Exception):
    pass


def _iteration(ex, st, cond, body, inc, brk):
    """one iteration; returns the condition; st is left at the loop head (or dead)"""
    c = simp(cond(st))
    if st.dead:
        return c
    if not z3.is_true(c):
        st.pc.append(c)
    L = {"brk": [], "cont": [], "alive": len(st.alive)}
    ex.loops.append(L)
    try:
        body(st)
    finally:
        ex.loops.pop()
    brk.extend(s for s in L["brk"] if not s.dead)
    m = None if st.dead else st.fork()
    for s in L["cont"]:
        m = s if m is None else merge_states(ex, s, m, ex.guard(s, m, common_prefix(s.pc, m.pc)))
    if m is None:
        st.dead = True
        return c
    st.set_to(m.fork())
    st.dead = False
    inc(st)
    return c


def _finish(ex, st, outs):
    outs = [s for s in outs if s is not None and not s.dead]
    if not outs:
        st.dead = True
        return
    r = outs[-1]
    for s in reversed(outs[:-1]):
        n = common_prefix(s.pc, r.pc)
        r = merge_states(ex, s, r, ex.guard(s, r, n))
    st.set_to(r.fork())
    st.dead = False


def run_loop(ex, st, cond, body, inc):
    if st.dead:
        return
    marks = (len(ex.obls), len(ex.frames[-1].rets), len(ex.throws[-1]), len(ex.imprecise))
    start = st.fork()
    brk = []
    s = st.fork()
    ok = False
    for i in range(ex.UNROLL):
        t = s.fork()
        ex.quiet += 1
        ths = len(ex.throws[-1])
        try:
            c = cond(t)
        finally:
            ex.quiet -= 1
            del ex.throws[-1][ths:]
        d = ex.decide(s, c)
        if d is None:
            break
        if d is False:
            cond(s)
            ok = True
            break
        _iteration(ex, s, cond, body, inc, brk)
        if s.dead:
            ok = True
            break
    if ok:
        _finish(ex, st, [s] + brk)
        return
    del ex.obls[marks[0]:]
    del ex.frames[-1].rets[marks[1]:]
    del ex.throws[-1][marks[2]:]
    del ex.imprecise[marks[3]:]
    st.set_to(start)
    summarise(ex, st, cond, body, inc)


# ------------------------------------------------------------------------------------------ cells
def cells(ex, s):
    d = {}
    for k, v in s.loc.items():
        if isinstance(v, Alias) or isinstance(v, Poison):
            continue
        if isinstance(v, ItV):
            d[("it", k)] = v.idx
        elif isinstance(v, PV):
            if isinstance(v.lv, Elem):
                d[("pe", k)] = v.lv.idx
            elif isinstance(v.lv, Mem):
                d[("pm", k)] = v.lv.off
        elif isinstance(v, V) and v.t is not None and not isinstance(v, ExV):
            for i, t in enumerate(v.t):
                d[("loc", k, i)] = t
    for m in ("heap", "mem"):
        for k, ts in getattr(s, m).items():
            for i, t in enumerate(ts):
                d[(m, k, i)] = t
    d[("nalloc", 0)] = s.nalloc if z3.is_expr(s.nalloc) else ival(s.nalloc)
    for k, v in s.ghost.items():
        if z3.is_expr(v):
            d[("ghost", k)] = v
        elif isinstance(v, V) and not isinstance(v, (PV, ItV, LamV, ExV)) and v.t is not None:
            for i, t in enumerate(v.t):
                d[("gv", k, i)] = t
        elif isinstance(v, (list, tuple)) and all(z3.is_expr(x) for x in v):
            for i, t in enumerate(v):
                d[("ghosti", k, i)] = t
    return d


def get_cell(ex, s, c):
    k = c[0]
    if k in ("heapsub", "memsub"):
        return simp(z3.Select(ex.cellof(s, k[:-3], c[1])[c[2]], c[3].t))
    if k in ("heap", "mem"):
        return ex.cellof(s, k, c[1])[c[2]]
    if k == "loc":
        return s.loc[c[1]].t[c[2]]
    if k == "it":
        return s.loc[c[1]].idx
    if k == "pe":
        return s.loc[c[1]].lv.idx
    if k == "pm":
        return s.loc[c[1]].lv.off
    if k == "nalloc":
        return s.nalloc if z3.is_expr(s.nalloc) else ival(s.nalloc)
    if k == "ghost":
        return s.ghost[c[1]]
    if k == "ghosti":
        return s.ghost[c[1]][c[2]]
    if k == "gv":
        return s.ghost[c[1]].t[c[2]]
    raise Unsupported("cell %r" % (c,))


def set_cell(ex, s, c, t):
    k = c[0]
    if k in ("heapsub", "memsub"):
        m = k[:-3]
        l = list(ex.cellof(s, m, c[1]))
        l[c[2]] = z3.Store(l[c[2]], c[3].t, t)
        getattr(s, m)[c[1]] = l
    elif k in ("heap", "mem"):
        l = list(ex.cellof(s, k, c[1]))
        l[c[2]] = t
        getattr(s, k)[c[1]] = l
    elif k == "loc":
        v = s.loc[c[1]]
        l = list(v.t)
        l[c[2]] = t
        s.loc[c[1]] = V(v.ty, l)
    elif k == "it":
        v = s.loc[c[1]]
        s.loc[c[1]] = ItV(v.ty, v.lv, t)
    elif k == "pe":
        v = s.loc[c[1]]
        s.loc[c[1]] = PV(v.ty, Elem(v.lv.par, t, v.lv.ty, v.lv.skip))
    elif k == "pm":
        v = s.loc[c[1]]
        s.loc[c[1]] = PV(v.ty, Mem(v.lv.base, t, v.lv.ty))
    elif k == "nalloc":
        s.nalloc = t
    elif k == "ghost":
        s.ghost[c[1]] = t
    elif k == "gv":
        v = s.ghost[c[1]]
        l = list(v.t)
        l[c[2]] = t
        s.ghost[c[1]] = V(v.ty, l)
    elif k == "ghosti":
        l = list(s.ghost[c[1]])
        l[c[2]] = t
        s.ghost[c[1]] = type(s.ghost[c[1]])(l) if not isinstance(s.ghost[c[1]], list) else l


class TK:
    """hashable wrapper of a term used inside cell ids"""

    def __init__(self, t):
        self.t = t
        self.h = t.get_id()

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, TK) and self.t.eq(o.t)


def consts(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x)
            st.extend(x.children())
    return acc


def names(t):
    return {c.decl().name() for c in consts(t)}


def declnames(t):
    acc, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


def fresh_after(t, mark):
    out = []
    for c in consts(t):
        n = c.decl().name()
        if "!" in n:
            try:
                if int(n.rsplit("!", 1)[1]) > mark:
                    out.append(c)
            except ValueError:
                pass
    return out


def store_chain(post, base):
    """list of (idx, val) stores turning base into post, or None"""
    if post.eq(base):
        return []
    if z3.is_app_of(post, z3.Z3_OP_STORE):
        a, i, v = post.children()
        r = store_chain(a, base)
        return None if r is None else r + [(i, v)]
    if z3.is_app_of(post, z3.Z3_OP_ITE):
        c, a, b = post.children()
        sa, sb = store_chain(a, base), store_chain(b, base)
        if sa is None or sb is None:
            return None
        out = []
        n = 0
        while n < len(sa) and n < len(sb) and sa[n][0].eq(sb[n][0]):
            out.append((sa[n][0], ite(c, sa[n][1], sb[n][1])))
            n += 1
        for i, v in sa[n:]:
            out.append((i, ite(c, v, _latest(out, base, i))))
        for i, v in sb[n:]:
            out.append((i, ite(c, _latest(out, base, i), v)))
        return out
    return None


def _latest(out, base, i):
    for j, v in reversed(out):
        if j.eq(i):
            return v
    return z3.Select(base, i)


def summarise(ex, st, cond, body, inc):
    ex.insum += 1
    try:
        return summarise_(ex, st, cond, body, inc)
    finally:
        ex.insum -= 1


def summarise_(ex, st, cond, body, inc):
    k = fresh("it", I)
    start = st
    init_cells = cells(ex, start)
    sym = {}       # cell id -> symbol for its value at iteration k
    rounds = 0
    while True:
        rounds += 1
        if rounds > 8:
            raise Unsupported("loop frame does not stabilise")
        mark = core._cnt[0]
        s = start.fork()
        for c, y in sym.items():
            set_cell(ex, s, c, y)
        s.pc.append(k >= 0)
        invariants_typed(ex, start, s, sym)
        n0 = len(s.pc)
        s0 = s.fork()
        post, contpc = dry(ex, s, cond, body, inc)
        if post is None:
            changed = {}
            break
        before, after = cells(ex, s0), cells(ex, post)
        new = {}
        for c, t in after.items():
            if c not in before:
                if c[0] in ("heap", "mem"):
                    b = ex.cellof(s0, c[0], c[1])[c[2]]
                    if b.eq(t):
                        continue
                else:
                    continue
            else:
                b = before[c]
            if t.eq(b) or simp(t).eq(simp(b)):
                continue
            if c[0] in ("heap", "mem"):
                for cc in refine(ex, c, t, b, sym, k, mark):
                    if cc not in sym and cc not in new:
                        new[cc] = True
            elif c not in sym:
                new[c] = True
        if not new:
            break
        for c in new:
            if c[0] in ("heap", "mem"):
                for d in list(sym):
                    if d[0] == c[0] + "sub" and d[1:3] == c[1:3]:
                        del sym[d]
            t = get_cell(ex, start, c)
            sym[c] = z3.Const(fresh_name("lv"), t.sort())
    # ---- closed forms
    closed = {}
    if post is not None:
        closed = close(ex, start, s0, post, sym, k, mark)
    un = [c for c in sym if c not in closed]
    pre_inv = []
    if un and post is not None:
        # second pass: with the simple invariants assumed the body's terms get simpler
        pre_inv = houdini(ex, start, s0, post, sym, closed, un, k, n0, raw=True)
        if pre_inv:
            mark = core._cnt[0]
            s = start.fork()
            for c, y in sym.items():
                set_cell(ex, s, c, y)
            s.pc.append(k >= 0)
            s.pc.extend(f({c: sym[c] for c in un}, k) for f in pre_inv)
            n0 = len(s.pc)
            s0 = s.fork()
            p2, _ = dry(ex, s, cond, body, inc)
            if p2 is not None:
                post = p2
                closed = close(ex, start, s0, post, sym, k, mark)
                un = [c for c in sym if c not in closed]
    for c in un:
        t = get_cell(ex, start, c)
        f = z3.Function(fresh_name("hv"), I, t.sort())
        closed[c] = lambda kk, f=f, t=t: f(kk)
    init_facts = []
    invs = houdini(ex, start, s0, post, sym, closed, un, k, n0) if un else []
    for c in un:
        init_facts.append(closed[c](ival(0)) == get_cell(ex, start, c))
    hvn = {closed[c](k).decl().name() for c in un}
    ex.hvnames |= hvn
    uinv = []
    for suffix, fn in ex.hooks.get("inv", []):
        if ex.frames[-1].func.qname.endswith(suffix):
            uinv.append(fn)

    def user_inv(s, K):
        """facts a contract states about the state at the head of iteration K"""
        out = []
        for fn in uinv:
            r = fn(ex, s, start, K)
            if r:
                out.extend(r)
        return out

    # ---- continuing condition as a function of the iteration
    C = None
    if post is not None:
        sub = [(y, closed[c](k)) for c, y in sym.items()]
        conjs = []
        for p in post.pc[n0:]:
            q = z3.substitute(p, *sub) if sub else p
            conjs.append(q)
        if un:
            # facts about the history of cells without a closed form are left out: only their checked invariants are used
            keep = [q for q in conjs if not (declnames(q) & hvn)]
            if len(keep) != len(conjs):
                ex.imprecise.append("loop at line %s: %s" % (ex.line, ", ".join(str(c[1]) for c in un)))
            conjs = keep
        body_c = conj(conjs)
        fr = fresh_after(body_c, mark)
        fr = [x for x in fr if not x.eq(k)]
        if fr:
            m = []
            for x in fr:
                if x.sort().kind() == z3.Z3_ARRAY_SORT and not z3.is_const(x):
                    continue
                F = ex.skolem.setdefault(x.decl().name(), z3.Function("F_" + x.decl().name(), I, x.sort()))
                m.append((x, F(k)))
            body_c = z3.substitute(body_c, *m)
        # closed forms of *other* cells may mention iteration-local symbols through the same functions
        C = body_c
    else:
        C = z3.BoolVal(False)

    def assume_prefix(s, K):
        s.pc.append(K >= 0)
        for f in init_facts:
            ex.hvfacts.add(f.get_id())
            ex.keep.append(f)
            s.pc.append(f)
        for iv in invs:
            f = iv(K)
            ex.hvfacts.add(f.get_id())
            ex.keep.append(f)
            s.pc.append(f)
        Cs = simp(C)
        if z3.is_false(Cs):
            s.pc.append(K == 0)
            return
        if z3.is_true(Cs):
            return
        kk = z3.Int(fresh_name("kk"))
        parts = []
        for p in (Cs.children() if z3.is_and(Cs) else [Cs]):
            if any(x.eq(k) for x in consts(p)):
                parts.append(z3.substitute(p, (k, kk)))
            else:
                parts.append(p)
        if parts:
            s.pc.append(z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < K), z3.And(parts))))

    if os.environ.get("GMDBG"):
        print("LOOP line", ex.line, "cells:", [(str(c), "closed" if c not in un else "UN") for c in sym])
        for c in sym:
            print("   ", c, str(closed[c](k)).replace("\n", " ")[:300])
        print("   C =", str(C).replace("\n", " ")[:1500])
        print("   invs:", [str(iv(k)).replace("\n", " ")[:200] for iv in invs])

    # ---- the arbitrary iteration, with obligations
    s = start.fork()
    for c in sym:
        set_cell(ex, s, c, simp(closed[c](k)))
    invariants_typed(ex, start, s, sym)
    assume_prefix(s, k)
    brk = []
    if uinv:
        s1 = start.fork()
        for nm, t in user_inv(s1, ival(0)):
            ex.oblige(s1, "inv", t, "loop invariant holds at the start: " + nm, assume=False)
        for nm, t in user_inv(s, k):
            s.pc.append(t)
    _iteration(ex, s, cond, body, inc, brk)
    if uinv and not s.dead:
        for nm, t in user_inv(s, simp(k + 1)):
            ex.oblige(s, "inv", t, "loop invariant is kept: " + nm, assume=False)
            if ex.obls and un:
                ex.obls[-1].imprecise = True
    # ---- exit
    K = fresh("trip", I)
    e = start.fork()
    for c in sym:
        set_cell(ex, e, c, simp(closed[c](K)))
    invariants_typed(ex, start, e, sym)
    assume_prefix(e, K)
    for nm, t in user_inv(e, K):
        e.pc.append(t)
    ex.quiet += 1
    try:
        cx = simp(cond(e))
    finally:
        ex.quiet -= 1
    if not e.dead:
        e.pc.append(z3.Not(cx))
        N = trip_bound(cx, K)
        if N is not None:
            e.pc.append(K == z3.If(N > 0, N, ival(0)))
    _finish(ex, st, [e] + brk)


def invariants_typed(ex, start, s, sym):
    for c in sym:
        if c[0] == "loc":
            v = s.loc[c[1]]
            if v.ty.k == "int" and v.ty.n == 0:
                s.pc.append(v.x >= 0)
            elif v.ty.k == "tmpl" and v.ty.name in ("vector", "map") and c[2] == 0:
                s.pc.append(v.x >= 0)


def trip_bound(c, K):
    """N such that c <=> K < N, syntactically"""
    neg = False
    while z3.is_not(c):
        c = c.arg(0)
        neg = not neg
    if c.num_args() != 2:
        return None
    a, b = c.children()
    k = c.decl().kind()
    if a.sort() != I:
        return None
    ops = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_DISTINCT: "!=", z3.Z3_OP_EQ: "=="}
    op = ops.get(k)
    if op is None:
        return None
    if neg:
        op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "!=": "==", "==": "!="}[op]
    d = simp(a - b)     # op 0
    one = simp(z3.substitute(d, (K, K + 1)) - d)
    if not z3.is_int_value(one):
        return None
    st = one.as_long()
    if any(x.eq(K) for x in consts(simp(d - st * K))):
        return None
    r = simp(d - st * K)      # st*K + r op 0
    if st == 1 and op == "<":
        return simp(-r)
    if st == 1 and op == "<=":
        return simp(1 - r)
    if st == -1 and op == ">":
        return simp(r)
    if st == -1 and op == ">=":
        return simp(r + 1)
    return None


def dry(ex, s, cond, body, inc):
    ex.quiet += 1
    marks = (len(ex.frames[-1].rets), len(ex.imprecise))
    ex.throws.append([])
    brk = []
    try:
        _iteration(ex, s, cond, body, inc, brk)
    finally:
        ex.quiet -= 1
        ex.throws.pop()
        del ex.frames[-1].rets[marks[0]:]
    # an imprecise inner loop stays imprecise in the real pass, which records it again
    del ex.imprecise[marks[1]:]
    if s.dead:
        return None, None
    return s, None


def refine(ex, c, post, pre, sym, k, mark):
    """modified references of a heap / dynamic memory cell"""
    ch = store_chain(post, pre)
    syms = {y.decl().name() for y in sym.values()}
    if ch is None:
        return [c]
    refs = []
    for i, v in ch:
        i = simp(i)
        n = names(i)
        if k.decl().name() in n or n & syms or fresh_after(i, mark):
            return [c]
        refs.append(i)
    out = []
    for r in refs:
        cc = (c[0] + "sub", c[1], c[2], TK(r))
        out.append(cc)
    return out


def _depends(t, syms):
    return names(t) & syms


def close(ex, start, s0, post, sym, k, mark):
    closed = {}
    kname = k.decl().name()
    posts = {c: simp(get_cell(ex, post, c)) for c in sym}
    inits = {c: get_cell(ex, start, c) for c in sym}
    todo = list(sym)
    progress = True

    def skol(t):
        fr = [x for x in fresh_after(t, mark) if not x.eq(k)]
        fr = [x for x in fr if x.decl().name() not in {y.decl().name() for y in sym.values()}]
        if not fr:
            return t
        m = []
        for x in fr:
            F = ex.skolem.setdefault(x.decl().name(), z3.Function("F_" + x.decl().name(), I, x.sort()))
            m.append((x, F(k)))
        return z3.substitute(t, *m)

    while progress and todo:
        progress = False
        unresolved = {sym[c].decl().name() for c in todo}
        for c in list(todo):
            y = sym[c]
            sub = [(sym[d], closed[d](k)) for d in closed]
            p = z3.substitute(posts[c], *sub) if sub else posts[c]
            p = nonneg(simp(p), k)
            init = inits[c]
            own = y.decl().name()
            f = None
            if p.eq(y):
                f = lambda kk, init=init: init
            elif y.sort() == I or y.sort() == R:
                d = simp(p - y)
                dn = names(d)
                if not (dn & unresolved) and kname not in dn and not fresh_after(d, mark):
                    if y.sort() == I:
                        f = lambda kk, d=d, init=init: simp(init + kk * d)
                    else:
                        f = lambda kk, d=d, init=init: simp(init + z3.ToReal(kk) * d)
            if f is None and not (_depends(p, unresolved)):
                q = skol(p)
                def f(kk, q=q, init=init):
                    if kname not in names(q):
                        return ite(kk > 0, q, init)
                    return ite(kk > 0, z3.substitute(q, (k, kk - 1)), init)
            if f is None and z3.is_bool(y):
                f = close_bool(ex, p, y, init, k, unresolved, own, skol)
            if f is None and z3.is_array(y):
                f = close_array(ex, s0, p, y, init, k, unresolved, own, skol, closed, sym, c, posts)
            if f is None and not z3.is_array(y):
                f = close_lastmatch(ex, p, y, init, k, unresolved, own, skol, s0)
            if f is None and y.sort() == I and not p.eq(y) and _appended(p, y):
                # text that every iteration appends to (or leaves): the initial text followed by some text
                F = z3.Function(fresh_name("appended"), I, I)
                ex.hvnames.add(F.name())
                f = lambda kk, F=F, init=init: ite(kk > 0, core.cat(init, F(kk)), init)
            if f is not None:
                closed[c] = f
                todo.remove(c)
                progress = True
    return closed


def _appended(p, y):
    if p.eq(y):
        return True
    if z3.is_app_of(p, z3.Z3_OP_ITE):
        return _appended(p.arg(1), y) and _appended(p.arg(2), y)
    return z3.is_app(p) and p.decl().eq(core.CAT) and _appended(p.arg(0), y)


def nonneg(t, k):
    """resolve if-then-else terms that ask whether the iteration counter is non-negative (it is)"""
    sub, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if z3.is_app_of(c, z3.Z3_OP_GE) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() <= 0 and c.arg(0).eq(k):
                sub.append((x, x.arg(1)))
        todo.extend(x.children())
    return simp(z3.substitute(t, *sub)) if sub else t


def close_bool(ex, p, y, init, k, unresolved, own, skol):
    t = simp(z3.substitute(p, (y, z3.BoolVal(True))))
    f = simp(z3.substitute(p, (y, z3.BoolVal(False))))
    if _depends(t, unresolved) or _depends(f, unresolved):
        return None
    kk = z3.Int(fresh_name("bk"))
    if z3.is_false(f):
        t = skol(t)
        return lambda K: z3.And(init, z3.ForAll([kk], z3.Implies(z3.And(kk >= 0, kk < K), z3.substitute(t, (k, kk)))))
    if z3.is_true(t):
        f = skol(f)
        return lambda K: z3.Or(init, z3.Exists([kk], z3.And(kk >= 0, kk < K, z3.substitute(f, (k, kk)))))
    return None


def close_lastmatch(ex, p, y, init, k, unresolved, own, skol, s0):
    # p = If(c, w, y) or If(c, y, w) with c, w free of unresolved symbols
    if not z3.is_app_of(p, z3.Z3_OP_ITE):
        return None
    c, a, b = p.children()
    if b.eq(y):
        w = a
    elif a.eq(y):
        c, w = z3.Not(c), b
    else:
        return None
    if _depends(c, unresolved) or _depends(w, unresolved):
        return None
    c, w = skol(c), skol(w)
    M = z3.Function(fresh_name("lastm"), I, I)
    kk = z3.Int(fresh_name("lk"))
    K = z3.Int(fresh_name("lK"))
    ex.facts.append(z3.ForAll([K], z3.Implies(K >= 0, z3.And(M(K) >= -1, M(K) < K, z3.Implies(M(K) >= 0, z3.substitute(c, (k, M(K)))),
                    z3.ForAll([kk], z3.Implies(z3.And(kk > M(K), kk < K), z3.Not(z3.substitute(c, (k, kk))))))), patterns=[M(K)]))
    return lambda K: z3.If(M(K) < 0, init, z3.substitute(w, (k, M(K))))


def close_array(ex, s0, p, y, init, k, unresolved, own, skol, closed, sym, c, posts):
    ch = store_chain(p, y)
    if not ch:
        return None
    items = []
    for i, v in ch:
        i = simp(i)
        if _depends(i, unresolved):
            return None
        st_ = simp(z3.substitute(i, (k, k + 1)) - i)
        if not z3.is_int_value(st_) or fresh_after(i, 10**12):
            return None
        step = st_.as_long()
        off = simp(i - step * k)
        if k.decl().name() in names(off):
            return None
        v0 = simp(z3.substitute(v, (y, init)))
        if _depends(v0, unresolved):
            return None
        items.append((off, step, skol(v0)))
    # later stores to the same slot win
    def f(K, items=items, init=init):
        j = z3.Int(fresh_name("j"))
        r = z3.Select(init, j)
        for off, step, v in items:
            if step == 0:
                r = ite(z3.And(j == off, K > 0), z3.substitute(v, (k, K - 1)), r)
            elif step in (1, -1):
                n = simp((j - off) * step)
                r = ite(z3.And(n >= 0, n < K), z3.substitute(v, (k, n)), r)
            else:
                q = (j - off) / ival(step)
                r = ite(z3.And((j - off) % ival(abs(step)) == 0, q >= 0, q < K), z3.substitute(v, (k, q)), r)
        return z3.Lambda([j], r)
    # every iteration writes one slot of its own and reads at most that slot: the closed form holds by construction
    i0 = simp(ch[0][0])
    if items[0][1] != 0 and all(simp(i).eq(i0) for i, _ in ch):
        own_read = z3.Select(y, i0)
        vs = [z3.substitute(simp(v), (own_read, z3.Select(init, i0))) for _, v in ch]
        if not any(_depends(v, {y.decl().name()}) for v in vs):
            items[:] = [(off, step, skol(simp(v))) for (off, step, _), v in zip(items, vs)][-1:]
            return f
    # check the induction step pointwise
    sub = [(sym[d], closed[d](k)) for d in closed] + [(y, f(k))]
    post = z3.substitute(posts[c], *sub)
    post = skol(post)
    j = fresh("jj", I)
    s = s0.fork()
    s.pc = [q for q in s.pc if not _depends(q, {z.decl().name() for z in sym.values()})] + [k >= 0]
    base, idxs = post, []
    while z3.is_store(base):
        idxs.append(base.arg(1))
        base = base.arg(0)
    target = f(k + 1)

    def holds(goal, extra):
        g = simp(goal)
        if z3.is_true(g):
            return True
        g = nl.som(g)
        return z3.is_true(g) or ex.check(s, extra + [z3.Not(g)], 4000) == z3.unsat
    seen = []
    for i in idxs:
        if any(i.eq(q) for q in seen):
            continue
        if not holds(z3.Select(post, i) == z3.Select(target, i), []):
            return None
        seen.append(i)
    if holds(z3.Select(base, j) == z3.Select(target, j), [j != i for i in seen]):
        return f
    return None


def houdini(ex, start, s0, post, sym, closed, un, k, n0, raw=False):
    """inductive facts about the cells without a closed form, from simple templates; each one is checked (initially
    true, preserved by an arbitrary iteration), the survivors are returned as functions of the iteration counter"""
    Y = {c: sym[c] for c in un}
    P = {c: get_cell(ex, post, c) for c in un}
    N = {c: get_cell(ex, start, c) for c in un}
    sub = [(sym[c], closed[c](k)) for c in sym if c not in un]
    sub1 = [(sym[c], closed[c](k + 1)) for c in sym if c not in un]
    P = {c: simp(z3.substitute(t, *sub)) if sub else simp(t) for c, t in P.items()}
    num = [c for c in un if Y[c].sort() in (I, R)]
    cands = []       # functions: dict cell -> term, kterm -> Bool
    for c in num:
        cands.append(lambda e, K, c=c: e[c] >= N[c])
        cands.append(lambda e, K, c=c: e[c] <= N[c])
        for o in consts_ints(N, c):
            pass
        for d in num:
            if c != d and Y[c].sort() == Y[d].sort():
                cands.append(lambda e, K, c=c, d=d: e[c] < e[d])
                cands.append(lambda e, K, c=c, d=d: e[c] <= e[d])
                cands.append(lambda e, K, c=c, d=d: e[c] <= N[d])
                cands.append(lambda e, K, c=c, d=d: e[c] >= N[d])
    for c in un:
        for g, w in assignments(P[c], Y[c]):
            y = z3.Const(fresh_name("hy"), Y[c].sort())
            if raw or z3.is_bool(w) or z3.is_array(w):
                continue
            syms = {v.decl().name() for v in Y.values()}
            q = abstract(simp(g), simp(w), y, syms)
            if not any(x.eq(y) for x in consts(q)):
                continue
            if any(z.eq(v) for z in consts(q) for v in Y.values()):
                continue
            cands.append(lambda e, K, c=c, q=q, y=y: z3.Or(e[c] == N[c], z3.substitute(q, (y, e[c]), (k, K))))
            cands.append(lambda e, K, c=c, q=q, y=y: z3.substitute(q, (y, e[c]), (k, K)))
    # initially true
    keep = []
    for f in cands:
        try:
            g = f(N, ival(0))
        except z3.Z3Exception:
            continue
        if ex.valid(start, g, 1000):
            keep.append(f)
    body_pc = [z3.substitute(p, *sub) if sub else p for p in post.pc[n0:]]
    pre_pc = [p for p in s0.pc]
    while True:
        s = start.fork()
        s.pc.append(k >= 0)
        s.pc.extend(body_pc)
        s.pc.extend(f(Y, k) for f in keep)
        bad = []
        for f in keep:
            if not ex.valid(s, f(P, k + 1), 1500):
                bad.append(f)
        if not bad:
            break
        keep = [f for f in keep if f not in bad]
        if not keep:
            break
    if raw:
        return keep
    return [lambda K, f=f: f({c: closed[c](K) for c in un}, K) for f in keep]


def consts_ints(N, c):
    return []


def assignments(p, y):
    """[(guard, value)] of an ite tree whose other leaves leave the cell unchanged"""
    out = []

    def walk(t, g):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            walk(a, g + [c])
            walk(b, g + [z3.Not(c)])
        elif not t.eq(y) and g:
            out.append((conj(g), t))
    walk(p, [])
    return out


def abstract(g, w, y, syms):
    """g with every subterm t such that t - w is free of syms replaced by y + (t - w)"""
    cache = {}

    def walk(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        r = t
        if z3.is_app(t) and (names(t) & syms):
            if t.sort() == w.sort() and t.sort() in (I, R) and not z3.is_const(t):
                d = simp(t - w)
                if not (names(d) & syms):
                    r = simp(y + d)
                    cache[i] = r
                    return r
            if t.eq(w):
                r = y
            elif t.num_args():
                r = t.decl()(*[walk(c) for c in t.children()])
        cache[i] = r
        return r
    return walk(g)
