"""Discharging obligations with products: nonlinear monomials are abstracted to fresh constants after (1) expanding
sums of products and (2) unifying factors that the path condition proves equal.  Abstraction only forgets facts, so a
proof of the abstracted obligation proves the original."""
import z3

I, R = z3.IntSort(), z3.RealSort()


def _isnum(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def factors(t):
    """(coefficient-free) non-numeral factors of a product"""
    out = []
    st = [t]
    while st:
        x = st.pop()
        if z3.is_mul(x):
            st.extend(x.children())
        elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)) and 0 < x.arg(1).as_long() <= 6:
            st.extend([x.arg(0)] * x.arg(1).as_long())
        elif z3.is_app_of(x, z3.Z3_OP_TO_REAL) and (z3.is_mul(x.arg(0)) or z3.is_int_value(x.arg(0))):
            # to_real distributes over products
            for c in x.arg(0).children():
                if not _isnum(c):
                    st.append(z3.ToReal(c))
        elif not _isnum(x):
            out.append(x)
    return out


def nonlinear_nodes(fs):
    out, seen = [], set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if (z3.is_mul(x) or z3.is_app_of(x, z3.Z3_OP_POWER)) and len(factors(x)) > 1:
                out.append(x)
            st.extend(x.children())
    return out


class Abs:
    def __init__(self):
        self.tab, self.cache, self.keep = {}, {}, []

    def const(self, fs, sort):
        key = (sort.name(), tuple(sorted(f.get_id() for f in fs)))
        if key not in self.tab:
            self.tab[key] = z3.Const("nl!%d" % len(self.tab), sort)
            self.keep.extend(fs)
        return self.tab[key]

    def __call__(self, t):
        stack = [t]
        cache = self.cache
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in cache:
                stack.pop()
                continue
            if not z3.is_app(x) or x.num_args() == 0:
                cache[i] = x
                self.keep.append(x)
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.keep.append(x)
            n = [cache[c.get_id()] for c in ch]
            k = x.decl().kind()
            r = None
            if z3.is_mul(x) or k == z3.Z3_OP_POWER:
                fs = factors(x)
                if len(fs) > 1:
                    co = None
                    num = [c for c in _flatnum(x)]
                    p = self.const([cache.get(f.get_id(), f) for f in fs], x.sort())
                    for c in num:
                        co = c if co is None else co * c
                    r = p if co is None else co * p
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not _isnum(n[1]):
                r = z3.Function("nl_" + x.decl().name(), x.arg(0).sort(), x.arg(1).sort(), x.sort())(n[0], n[1])
            if r is None:
                same = all(a.eq(b) for a, b in zip(n, ch))
                if same:
                    r = x
                elif z3.is_and(x):
                    r = z3.And(n)
                elif z3.is_or(x):
                    r = z3.Or(n)
                elif z3.is_add(x):
                    r = z3.Sum(n)
                elif z3.is_mul(x):
                    r = z3.Product(n)
                elif k == z3.Z3_OP_DISTINCT:
                    r = z3.Distinct(n)
                else:
                    r = x.decl()(*n)
            cache[i] = r
        return cache[t.get_id()]


def _flatnum(x):
    st, out = [x], []
    while st:
        y = st.pop()
        if z3.is_mul(y):
            st.extend(y.children())
        elif _isnum(y):
            out.append(y)
    return out


def som(f):
    try:
        return z3.simplify(f, som=True, som_blowup=1000000, hoist_ite=False, pull_cheap_ite=False)
    except z3.Z3Exception:
        return z3.simplify(f)


def has_quant(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def int_consts(fs):
    out, seen, st = [], set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_const(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def split(pc, guard=None):
    """the hypotheses as a list of (guard, conjunct)"""
    out = []
    for p in pc:
        if z3.is_and(p):
            out += split(p.children(), guard)
        elif z3.is_implies(p) and has_quant(p.arg(1)) and not has_quant(p.arg(0)):
            out += split([p.arg(1)], p.arg(0) if guard is None else z3.And(guard, p.arg(0)))
        else:
            out.append((guard, p))
    return out


def guarded(g, p):
    return p if g is None else z3.Implies(g, p)


def instances(pc, goal, limit=240):
    """instances of the hypotheses "for all integers k" at the integer constants of the obligation and their neighbours"""
    qs = [(g, c) for g, c in split(pc) if z3.is_quantifier(c) and c.is_forall() and c.num_vars() == 1 and c.var_sort(0) == I]
    if not qs:
        return []
    cs = int_consts([goal])
    more = [c for c in int_consts([p for p in pc if not has_quant(p)]) if not any(c.eq(d) for d in cs)]
    terms = []
    for c in cs:
        terms += [c, z3.simplify(c - 1), z3.simplify(c + 1)]
    for c in more:
        terms += [c, z3.simplify(c - 1)]
    out = []
    for t in terms:
        for g, q in qs:
            if len(out) >= limit:
                return out
            out.append(z3.simplify(guarded(g, z3.substitute_vars(q.body(), t))))
    return out


def prove_nl(pc, goal, timeout, debug=False):
    """True when the abstracted obligation is valid.  Quantified hypotheses are left out first; a second attempt adds
    instances of them (both only forget facts)"""
    rest = [guarded(g, p) for g, p in split(pc) if not has_quant(p)]
    if prove_nl_(rest, goal, timeout, debug):
        return True
    ins = [p for p in instances(pc, goal) if not has_quant(p)]
    return bool(ins) and prove_nl_(rest + ins, goal, timeout, debug)


def prove_nl_(pc, goal, timeout, debug=False):
    fs = [som(p) for p in pc] + [som(z3.Not(goal))]
    if not nonlinear_nodes(fs):
        return False
    for rnd in range(4):
        ab = Abs()
        s = z3.Solver()
        s.set("timeout", timeout)
        for f in fs:
            s.add(ab(f))
        if s.check() == z3.unsat:
            return True
        # unify equal factors
        facs, seen = [], set()
        for n in nonlinear_nodes(fs):
            for f in factors(n):
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    facs.append(f)
        cand = facs
        if len(cand) < 2:
            return False
        sp = z3.Solver()
        sp.set("timeout", 600)
        for f in fs[:-1]:
            sp.add(ab(f))
        if sp.check() != z3.sat:
            return False
        m = sp.model()
        val = {}
        for f in facs:
            v = m.eval(ab(f), model_completion=True)
            val.setdefault((f.sort().name(), str(v)), []).append(f)
        sub = []
        for g in val.values():
            reps = []
            g.sort(key=lambda f: (len(f.sexpr()), f.get_id()))
            for f in g:
                for r in reps:
                    if sp.check(ab(f) != ab(r)) == z3.unsat:
                        sub.append((f, r))
                        break
                else:
                    if len(reps) < 12:
                        reps.append(f)
        # factors that are numerals
        for f in cand:
            v = m.eval(ab(f), model_completion=True)
            if _isnum(v) and sp.check(ab(f) != v) == z3.unsat and not any(a.eq(f) for a, _ in sub):
                sub.append((f, v))
        if not sub:
            return False
        if debug:
            print("sub", sub, "facs", facs)
        # replace larger terms first
        sub.sort(key=lambda ab_: -len(ab_[0].sexpr()))
        flat = []
        for a, b in sub:
            if flat:
                a, b = z3.substitute(a, *flat), z3.substitute(b, *flat)
            if a.eq(b):
                continue
            flat = [(p, z3.substitute(q, (a, b))) for p, q in flat] + [(a, b)]
        # the right-hand sides are fixed points now: repeat until nothing changes
        for _ in range(3):
            nf = [z3.substitute(f, *flat) for f in fs]
            if all(x.eq(y) for x, y in zip(nf, fs)):
                break
            fs = nf
        fs = [som(f) for f in fs]
    ab = Abs()
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in fs:
        s.add(ab(f))
    return s.check() == z3.unsat
