"""Deductive verification of Python functions: symbolic execution of the ast of the current source, path by path, with contracts
for callees and library functions; loops whose trip count is symbolic are executed once for an arbitrary iteration (the body may
raise, or update its own slab of an array).  Integers are mathematical; floats are reals."""
import ast, os, time, traceback, warnings
from fractions import Fraction
import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


class Prune(Exception):
    pass


class Raised(Exception):
    def __init__(self, cls, args=(), line=None, value=None):
        super().__init__(cls)
        self.cls, self.eargs, self.line, self.value = cls, args, line, value


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


EXC = {"ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError",
       "ArithmeticError": "Exception", "AttributeError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError", "AssertionError": "Exception", "StopIteration": "Exception",
       "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "OSError": "Exception", "IOError": "OSError", "Exception": "BaseException", "OverflowError": "ArithmeticError",
       "FileNotFoundError": "OSError", "UnicodeDecodeError": "ValueError", "UnicodeEncodeError": "ValueError"}


class NeedAppend(Exception):
    """a symbolic loop appends to this list"""

    def __init__(self, lst):
        self.lst = lst


class Restart(Exception):
    """the path is explored again with more known about a loop"""


def holders(run):
    """every place the interpreted program can reach: (value, setter or None)"""
    seen, out, todo = set(), [], []

    def visit(v, put):
        if isinstance(v, (list, Obj)):
            out.append((v, put))
        if isinstance(v, (list, dict, tuple, Obj, Func, Bound, Env, Class)) and id(v) not in seen:
            seen.add(id(v))
            todo.append(v)
    for e in run.frames:
        visit(e, None)
    for e in run.modules.values():
        visit(e.members, None)
    while todo:
        v = todo.pop()
        if isinstance(v, Env):
            for n in list(v.vars):
                visit(v.vars[n], lambda x, v=v, n=n: v.vars.__setitem__(n, x))
            if v.parent is not None:
                visit(v.parent, None)
        elif isinstance(v, Obj):
            for n in list(v.attrs):
                visit(v.attrs[n], lambda x, v=v, n=n: v.attrs.__setitem__(n, x))
        elif isinstance(v, dict):
            for n in list(v):
                visit(v[n], lambda x, v=v, n=n: v.__setitem__(n, x))
        elif isinstance(v, list):
            for n in range(len(v)):
                visit(v[n], lambda x, v=v, n=n: v.__setitem__(n, x))
        elif isinstance(v, tuple):
            for x in v:
                visit(x, None)
        elif isinstance(v, Func):
            visit(v.env, None)
            for x in list(v.defaults or []) + list(v.kwdefaults or []):
                visit(x, None)
        elif isinstance(v, Bound):
            visit(v.self_, None)
            visit(v.func, None)
        elif isinstance(v, Class):
            for x in v.members.values():
                visit(x, None)
    return out


def outer_lists(run):
    out = []
    for v, _ in holders(run):
        if isinstance(v, list) and not any(v is x for x in out):
            out.append(v)
    return out


def replace_refs(run, old, new):
    for v, put in holders(run):
        if v is old:
            if put is None:
                raise Unsupported("shared list")
            put(new)


def subst_value(v, k, i):
    """the value of iteration i (itself if it does not depend on the iteration)"""
    if isz(v):
        w = z3.substitute(v, (k, term(i)))
        return v if w.eq(v) else w
    if isinstance(v, Opaque):
        t = subst_value(v.term, k, i) if v.term is not None else None
        a = {n: subst_value(x, k, i) for n, x in v.attrs.items()}
        if t is v.term and all(a[n] is v.attrs[n] for n in a):
            return v
        return Opaque(v.name, v.typ, v.truth, a, v.methods, t)
    if isinstance(v, (tuple, list)):
        w = [subst_value(x, k, i) for x in v]
        return v if all(x is y for x, y in zip(v, w)) else type(v)(w)
    if isinstance(v, Obj):
        a = {n: subst_value(x, k, i) for n, x in v.attrs.items()}
        return v if all(a[n] is v.attrs[n] for n in a) else Obj(v.cls, a, v.partial, v.methods)
    if isinstance(v, Seq):
        return Seq(subst_value(v.n, k, i), lambda j: subst_value(v.fn(j), k, i), v.typ)
    if v is None or isinstance(v, (bool, int, float, str, bytes, Fraction, Class, Func, Type)):
        return v
    raise Unsupported("value of an iteration")


def exc_is(c, base):
    while c:
        if c == base or (c in ("IOError", "OSError") and base in ("IOError", "OSError")):
            return True
        c = EXC.get(c)
    return False


class Poison:
    """a value the contract says nothing about; using it puts the function outside the verifier's reach"""

    def __init__(self, why):
        self.why = why


class Opaque:
    """an uninterpreted value (text, a type the property does not look into)"""

    def __init__(self, name, typ=None, truth=None, attrs=None, methods=None, term=None):
        self.name, self.typ, self.truth, self.attrs, self.methods, self.term = name, typ, truth, attrs or {}, methods or {}, term

    def __repr__(self):
        return "<%s>" % self.name


class Seq:
    """a tuple/list of symbolic length"""

    def __init__(self, n, fn, typ="tuple"):
        self.n, self.fn, self.typ = n, fn, typ


class Obj:
    def __init__(self, cls, attrs=None, partial=False, methods=None):
        self.cls, self.attrs, self.partial, self.methods = cls, attrs if attrs is not None else {}, partial, methods or {}


class Class:
    def __init__(self, name, members, module, bases=()):
        self.name, self.members, self.module, self.bases = name, members, module, bases

    def find(self, n):
        if n in self.members:
            return self.members[n]
        for b in self.bases:
            if isinstance(b, Class):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Func:
    def __init__(self, node, env, qname, module, cls=None, kind=None):
        self.node, self.env, self.qname, self.module, self.cls, self.kind = node, env, qname, module, cls, kind


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    """a library function: fn(run, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Type:
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn


class Module:
    def __init__(self, name, members):
        self.name, self.members = name, members


class Slice:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Ellipsis_:
    pass


class Ix:
    """numpy.ix_"""

    def __init__(self, rows):
        self.rows = rows


class Env:
    def __init__(self, parent=None, fn=False):
        self.vars, self.parent, self.fn, self.nonlocals = {}, parent, fn, {}

    def find(self, n):
        e = self
        while e:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Arr:
    """numpy array: shape (list of int / Int terms), element function; a view writes through to its base"""

    def __init__(self, run, shape, fn, elt="real", base=None, axes=None, name="array"):
        self.run, self.shape, self._fn, self.elt, self.base, self.axes, self.name = run, list(shape), fn, elt, base, axes, name
        self.attrs = {}
        Arr.made += 1
        self.born = Arr.made
    made = 0

    # ---- reading
    def snap(self):
        """the elements as they are now"""
        if self.base is not None:
            b, axes = self.base.snap(), self.axes
            return lambda idx: b(to_base(axes, idx))
        f, run = self._fn, self.run

        def g(idx):
            if run.reads is not None:
                run.reads.append((self, tuple(idx)))
            return f(tuple(idx))
        return g

    def get(self, idx):
        return self.snap()(tuple(idx))

    # ---- writing
    def write(self, region, val, run):
        """region: per axis ('i',k) or ('s',start,len); val(local indices of the 's' axes)"""
        if self.base is not None:
            return self.base.write(compose(self.axes, region), val, run)
        old = self.snap_raw()
        region = list(region)
        run.note_write(self, region, val)

        def f(idx):
            c, loc = [], []
            for r, i in zip(region, idx):
                if r[0] == "i":
                    c.append(eq(i, r[1]))
                else:
                    c.append(le(r[1], i))
                    c.append(lt(i, add(r[1], r[2])))
                    loc.append(sub(i, r[1]))
            return run.ite(c, lambda: val(tuple(loc)), lambda: old(tuple(idx)))
        self._fn = f

    def snap_raw(self):
        return self._fn_note()

    def _fn_note(self):
        f, run = self._fn, self.run

        def g(idx):
            if run.reads is not None:
                run.reads.append((self, tuple(idx)))
            return f(tuple(idx))
        return g


def to_base(axes, idx):
    out, j = [], 0
    for a in axes:
        if a[0] == "i":
            out.append(a[1])
        elif a[0] == "new":
            j += 1
        elif a[0] == "s":
            out.append(add(a[1], idx[j]))
            j += 1
        else:
            raise Unsupported("view")
    return tuple(out)


def compose(axes, region):
    out, j = [], 0
    for a in axes:
        if a[0] == "i":
            out.append(("i", a[1]))
        elif a[0] == "new":
            raise Unsupported("write through a reshaped view")
        else:
            r = region[j]
            j += 1
            out.append(("i", add(a[1], r[1])) if r[0] == "i" else ("s", add(a[1], r[1]), r[2]))
    return out


# ---------------------------------------------------------------- terms
def isz(v):
    return isinstance(v, z3.ExprRef)


def isnum(v):
    return (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)) or (isz(v) and v.sort() in (I, R))


def isint(v):
    return isinstance(v, int) or (isz(v) and v.sort() == I)


def term(v):
    if isz(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, float):
        return z3.RealVal(repr(v) if "e" not in repr(v) and "inf" not in repr(v) and "nan" not in repr(v) else str(Fraction(repr(v))))
    if isinstance(v, Opaque) and v.term is not None:
        return v.term
    raise Unsupported("no term for %r" % (v,))


def real(v):
    t = term(v)
    return z3.ToReal(t) if t.sort() == I else t


def two(a, b):
    a, b = term(a), term(b)
    if a.sort() == b.sort():
        return a, b
    if a.sort() == B or b.sort() == B:
        if a.sort() == B:
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == B:
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return two(a, b) if a.sort() != b.sort() else (a, b)
    if a.sort() in (I, R) and b.sort() in (I, R):
        return real(a), real(b)
    raise Unsupported("sorts %s %s" % (a.sort(), b.sort()))


def simp(t):
    if not isz(t):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def conc(*v):
    return all(isinstance(x, (int, float, Fraction)) for x in v)


def add(a, b):
    if conc(a, b):
        return a + b
    if isinstance(a, int) and a == 0 and isint(b):
        return b
    if isinstance(b, int) and b == 0 and isint(a):
        return a
    a, b = two(a, b)
    return a + b


def sub(a, b):
    if conc(a, b):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    a, b = two(a, b)
    return simp(a - b) if a.sort() == I else a - b


def mul(a, b):
    if conc(a, b):
        return a * b
    a, b = two(a, b)
    return a * b


def eq(a, b):
    if conc(a, b):
        return a == b
    a, b = two(a, b)
    if a.eq(b):
        return True
    return simp(a == b)


def lt(a, b):
    if conc(a, b):
        return a < b
    a, b = two(a, b)
    return simp(a < b)


def le(a, b):
    if conc(a, b):
        return a <= b
    a, b = two(a, b)
    return simp(a <= b)


COS, SIN = z3.Function("py_cos", R, R), z3.Function("py_sin", R, R)
UFUN = {}


TXT = z3.DeclareSort("Text")


def tterm(v):
    """the term of a text"""
    if isinstance(v, str):
        return z3.Const("text:" + v, TXT)
    if isinstance(v, Opaque) and v.typ == "str" and v.term is not None and v.term.sort() == TXT:
        return v.term
    return None


def otext(t):
    return Opaque("text", "str", truth=True, term=t)


def text_method(run, o, n, a, k):
    """uninterpreted text functions (a failed obligation over them is not conclusive: run.loose)"""
    t = tterm(o)
    if t is not None and not k:
        if n == "strip" and not a:
            if o.attrs.get("stripped"):
                return o
            run.loose = True
            return otext(ufun("strip", TXT, TXT)(t))
        if n == "split" and len(a) == 1 and tterm(a[0]) is not None:
            run.loose = True
            d = tterm(a[0])
            m, f = ufun("num_parts", TXT, TXT, I), ufun("part", TXT, TXT, I, TXT)
            run.assume(m(t, d) >= 1)
            return Seq(m(t, d), lambda i: otext(f(t, d, term(i))), "list")
    return None


def text_slice(run, o, ix):
    t = tterm(o)
    if t is None or ix.s is not None:
        raise Unsupported("slice of text")
    run.loose = True
    ln = ufun("text_length", TXT, I)(t)
    run.assume(ln >= 0)
    a, m = run.bounds(ix, ln)
    return otext(ufun("substring", TXT, I, I, TXT)(t, simp(term(a)) if isz(term(a)) else term(a), simp(term(m)) if isz(term(m)) else term(m)))


def ufun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in UFUN:
        UFUN[k] = z3.Function(name, *sorts)
    return UFUN[k]


class PyProgram:
    """the Python sources of /repo, parsed at every run"""

    def __init__(self, repo):
        self.repo, self.trees = repo, {}

    def path(self, mod):
        p = os.path.join(self.repo, *mod.split("."))
        return p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")

    def tree(self, mod):
        if mod not in self.trees:
            with open(self.path(mod)) as f:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.trees[mod] = ast.parse(f.read())
        return self.trees[mod]


def carried(nm, body):
    """the loop body reads the variable's value of the previous iteration (first use in the order of evaluation, top level)"""
    for st in body:
        parts = [st.value] if isinstance(st, ast.Assign) else [st]
        for x in parts:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id == nm and (isinstance(y.ctx, ast.Load) or isinstance(st, ast.AugAssign)):
                    return True
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets):
            return False
    return False


class Fold:
    """array variable carried by a loop: element i after k iterations is fold(k, i), with fold(0, i) the element before the loop and
    fold(k + 1, i) a function (step) of k, i and fold(k, i).  A specification proves its invariant over it by induction (ghost "folds")."""

    def __init__(self, run, name, arr):
        self.run, self.name, self.shape, self.init = run, name, list(arr.shape), arr.snap()
        run.fresh("fold", I)
        self.fold = ufun("fold_%s_%d" % (name, run.fresh_n), *([I] * (len(self.shape) + 1) + [R]))
        self.steps = []
        self.mark = len(run.freshlist)

    def at(self, k):
        return Arr(self.run, list(self.shape), lambda idx: self.fold(term(k), *[term(i) for i in idx]), "real")

    def done(self, k, v):
        if not isinstance(v, Arr) or len(v.shape) != len(self.shape) or not all(self.run.entails(term(x) == term(y)) for x, y in zip(v.shape, self.shape)):
            raise Unsupported("shape of %s changes in a loop" % self.name)
        i = [self.run.fresh("at", I) for _ in self.shape]
        n = len(self.run.pc)
        t = real(v.get(tuple(i)))
        self.steps.append((k, i, t, list(self.run.pc[n:])))      # the facts that reading the element brings

    def result(self, n):
        if not self.steps:
            raise Unsupported("loop without iterations")
        if len(self.steps) != 1:
            raise Unsupported("several paths update %s" % self.name)
        k, i, t, facts = self.steps[0]
        inner = [f for f in self.run.freshlist[self.mark:] if not any(f.eq(y) for y in [k] + i)]
        facts = [f for f in facts if not uses(f, inner) and not any(d.eq(self.fold) for d in decls(f))]
        x = self.run.fresh("previous", R)
        t = z3.substitute(t, (self.fold(k, *i), x))
        if any(d.eq(self.fold) for d in decls(t)):
            raise Unsupported("%s depends on other elements of itself" % self.name)

        def step(kk, idx, prev):
            for f in facts:
                self.run.assume(z3.Implies(z3.And(term(kk) >= 0, term(kk) < term(n)), z3.substitute(f, (k, term(kk)), *[(a, term(b)) for a, b in zip(i, idx)])))
            return z3.substitute(t, (k, term(kk)), (x, prev), *[(a, term(b)) for a, b in zip(i, idx)])
        if uses(t, [f for f in inner if not f.eq(x)]):
            raise Unsupported("%s depends on another iteration" % self.name)
        self.run.ghost.setdefault("folds", []).append(dict(name=self.name, n=n, init=self.init, step=step, value=lambda idx: self.fold(term(n), *[term(j) for j in idx])))
        self.run.assume(z3.IntVal(0) <= term(n))
        return Arr(self.run, list(self.shape), lambda idx: self.fold(term(n), *[term(j) for j in idx]), "real")


def decls(t):
    seen, out, todo = set(), [], [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            out.append(e.decl())
        todo += e.children()
    return out


class Run:
    """one task: explores all paths"""

    def __init__(self, prog, contracts=None, lib=None, deadline=None):
        self.prog, self.contracts, self.lib = prog, contracts or {}, lib or {}
        self.deadline = deadline or (time.time() + 200)
        self.solver_time, self.nq = 0.0, 0
        self.externals, self.used, self.inlined = set(), set(), set()
        self.reset([])

    # ------------------------------------------------------------ paths
    def reset(self, trace):
        self.trace, self.pos = trace, 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.fresh_n = 0
        self.foralls = []       # (n, fn(k) -> fact, fresh consts)
        self.reads = None
        self.loop = None
        self.outer = None       # lists that exist outside the symbolic loop
        self.frames = []
        self.writes = 0
        self.modules = {}
        self.quot = {}
        self.freshlist = []
        self.memo = {}
        self.ver = 0
        self.line = None
        self.depth = 0
        self.ghost = {}
        self.loose = False      # a value was over-approximated on this path

    def explore(self, body, limit=400):
        """body() is run for every path; yields nothing, body collects"""
        trace, n = [], 0
        self.need = {}
        while True:
            self.reset(trace)
            try:
                body()
            except Prune:
                pass
            except Restart as r:
                trace = r.args[0]
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                continue
            n += 1
            if n > limit:
                raise Unsupported("too many paths")
            trace = self.trace[:self.pos] if False else self.trace
            while trace and trace[-1][1] is None:
                trace.pop()
            if not trace:
                return n
            v, alt = trace[-1]
            trace[-1] = (alt[0], alt[1:] or None)

    def choice(self, vals):
        """nondeterministic choice"""
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            v = vals[0]
            self.trace.append((v, list(vals[1:]) or None))
        self.pos += 1
        return v

    def sat(self, c):
        if time.time() > self.deadline:
            raise Unsupported("time budget")
        t0 = time.time()
        self.nq += 1
        r = self.solver.check(c)
        self.solver_time += time.time() - t0
        return r

    def assume(self, c):
        c = simp(c) if isz(c) else c
        if c is True:
            return
        if c is False:
            raise Prune()
        self.pc.append(c)
        self.ver += 1
        self.solver.add(c)

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        k = (c.get_id(), self.ver)
        if k not in self.memo:
            self.memo[k] = (self.sat(z3.Not(c)) == z3.unsat, c)
        return self.memo[k][0]

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
            self.pos += 1
            self.assume(c if v else z3.Not(c))
            return v
        t = self.sat(c) != z3.unsat
        f = self.sat(z3.Not(c)) != z3.unsat
        if not t and not f:
            raise Prune()
        v = t
        self.trace.append((v, [False] if t and f else None))
        self.pos += 1
        self.assume(c if v else z3.Not(c))
        return v

    def ite(self, conds, a, b):
        cs = []
        for c in conds:
            if c is True:
                continue
            if c is False:
                return b()
            cs.append(c)
        if not cs:
            return a()
        c = simp(z3.And(cs) if len(cs) > 1 else cs[0])
        if c is True:
            return a()
        if c is False:
            return b()
        x, y = a(), b()
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            x, y = term(x), term(y)
        x, y = two(x, y)
        return x if x.eq(y) else z3.If(c, x, y)

    def fresh(self, name, sort):
        self.fresh_n += 1
        t = z3.Const("%s!%d" % (name, self.fresh_n), sort)
        self.freshlist.append(t)
        return t

    def instantiate(self, *ks):
        """instances of the universally quantified facts of this path"""
        for (n, fn, fr) in list(self.foralls):
            for k in ks:
                self.assume(z3.Implies(z3.And(term(0) <= term(k), term(k) < term(n)), fn(k)))

    def inst_same(self, n, k):
        for (m, fn, fr) in list(self.foralls):
            if simp(term(m) == term(n)) is True:
                self.assume(fn(k))

    def note_write(self, arr, region, val=None):
        self.writes += 1
        if self.loop is not None:
            self.loop["writes"].append((arr, region, arr._fn))
            self.loop["values"].append(val)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.lib:
            m = Module(name, self.lib[name])
            self.modules[name] = m
            self.externals.add(name)
            return m
        if name.split(".")[0] != "geomodelgrids":
            raise Unsupported("module %s" % name)
        try:
            tree = self.prog.tree(name)
        except OSError:
            raise Unsupported("module %s" % name)
        env = Env()
        m = Module(name, env.vars)
        self.modules[name] = m
        self.exec_module(tree, env, name)
        return m

    def exec_module(self, tree, env, name):
        for s in tree.body:
            try:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self.lazy_import(s, env, name)
                elif isinstance(s, ast.Expr):
                    pass
                else:
                    self.stmt(s, env, name)
            except Unsupported as e:
                for t in ast.walk(s):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        env.vars[t.id] = Poison(str(e))

    def lazy_import(self, s, env, mod=None):
        for a in s.names:
            if isinstance(s, ast.Import):
                nm = a.asname or a.name.split(".")[0]
                env.vars[nm] = Lazy(lambda a=a: self.module(a.name if a.asname else a.name.split(".")[0]))
            else:
                base = s.module or ""
                if s.level:
                    pkg = mod.split(".")
                    if not self.prog.path(mod).endswith("__init__.py"):
                        pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - (s.level - 1)]
                    base = ".".join(pkg + ([s.module] if s.module else []))

                def get(a=a, base=base):
                    full = base + "." + a.name
                    if full in self.lib:
                        return self.module(full)
                    if base.startswith("geomodelgrids") and os.path.exists(self.prog.path(full)):
                        return self.module(full)
                    m = self.module(base)
                    if a.name not in m.members:
                        raise Unsupported("import %s" % full)
                    return m.members[a.name]
                env.vars[a.asname or a.name] = Lazy(get)

    def find(self, qname):
        """module:Class.method"""
        mod, path = qname.split(":")
        v = self.module(mod)
        first = True
        for p in path.split("."):
            if first:
                v = self.force(v.members.get(p))
            else:
                v = v.find(p)
            if v is None:
                raise Unsupported("%s not found" % qname)
            first = False
        return v

    def force(self, v):
        while isinstance(v, Lazy):
            v = v.get()
        return v

    # ------------------------------------------------------------ statements
    def block(self, body, env, mod):
        for s in body:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.line = getattr(s, "lineno", self.line)
        if time.time() > self.deadline:
            raise Unsupported("time budget")
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported("statement %s (line %s)" % (k, self.line))
        return f(s, env, mod)

    def s_Expr(self, s, env, mod):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Import(self, s, env, mod):
        self.lazy_import(s, env, mod)

    s_ImportFrom = s_Import

    def s_Return(self, s, env, mod):
        raise Ret(self.ev(s.value, env, mod) if s.value else None)

    def s_Break(self, s, env, mod):
        raise Brk()

    def s_Continue(self, s, env, mod):
        raise Cont()

    def s_Global(self, s, env, mod):
        raise Unsupported("global")

    def s_Nonlocal(self, s, env, mod):
        for n in s.names:
            e = env.parent.find(n) if env.parent else None
            if e is None:
                raise Unsupported("nonlocal")
            env.nonlocals[n] = e

    def s_FunctionDef(self, s, env, mod, cls=None):
        kind = None
        for d in s.decorator_list:
            n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if n in ("staticmethod", "classmethod", "property"):
                kind = n
            elif n in ("abstractmethod",):
                pass
            else:
                env.vars[s.name] = Poison("decorator %s" % n)
                return
        for x in ast.walk(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                kind = "generator"
        f = Func(s, env if cls is None else env.parent, (cls + "." if cls else "") + s.name, mod, cls, kind)
        f.defaults = [self.ev(d, env, mod) for d in s.args.defaults]
        f.kwdefaults = [self.ev(d, env, mod) if d is not None else None for d in s.args.kw_defaults]
        env.vars[s.name] = f

    def s_ClassDef(self, s, env, mod):
        e = Env(env)
        bases = []
        for b in s.bases:
            try:
                bases.append(self.force(self.ev(b, env, mod)))
            except Unsupported:
                bases.append(None)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                self.s_FunctionDef(x, e, mod, cls=s.name)
            elif isinstance(x, ast.Expr):
                pass
            elif isinstance(x, ast.AnnAssign):
                if x.value is not None:
                    e.vars[x.target.id] = self.ev(x.value, e, mod)
            elif isinstance(x, ast.Assign):
                self.stmt(x, e, mod)
            elif isinstance(x, ast.Pass):
                pass
            else:
                raise Unsupported("class body")
        env.vars[s.name] = Class(s.name, e.vars, mod, bases)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, mod), env, mod)

    def setname(self, n, v, env):
        (env.nonlocals[n] if n in env.nonlocals else env).vars[n] = v

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, self.index(t.slice, env, mod), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        v = self.force(v)
        if isinstance(v, Seq) and isinstance(simp(v.n), int):
            v = tuple(v.fn(i) for i in range(simp(v.n)))
        if isinstance(v, Arr) and isinstance(simp(v.shape[0]), int):
            v = tuple(self.getitem(v, (i,)) for i in range(simp(v.shape[0])))
        if isinstance(v, Seq):
            if any(isinstance(x, ast.Starred) for x in elts):
                raise Unsupported("unpacking")
            if not self.branch(eq(v.n, len(elts))):
                raise Raised("ValueError", line=self.line)
            return [v.fn(i) for i in range(len(elts))]
        if not isinstance(v, (tuple, list)):
            raise Unsupported("unpacking of %r" % (v,))
        st = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        if st:
            i = st[0]
            k = len(elts) - 1 - i
            if len(v) < len(elts) - 1:
                raise Raised("ValueError", line=self.line)
            return list(v[:i]) + [list(v[i:len(v) - k])] + list(v[len(v) - k:])
        if len(v) != len(elts):
            raise Raised("ValueError", line=self.line)
        return list(v)

    def s_AugAssign(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, mod)
            b = self.ev(s.value, env, mod)
            if isinstance(a, Arr):
                self.aug_arr(a, s.op, b)
            elif isinstance(a, list) and isinstance(s.op, ast.Add):
                self.mut()
                a.extend(self.items(b))
            else:
                self.setname(t.id, self.bin(s.op, a, b), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            a = self.getattr(o, t.attr)
            b = self.ev(s.value, env, mod)
            if isinstance(a, Arr):
                self.aug_arr(a, s.op, b)
            else:
                self.setattr(o, t.attr, self.bin(s.op, a, b))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            ix = self.index(t.slice, env, mod)
            a = self.getitem(o, ix)
            b = self.ev(s.value, env, mod)
            if isinstance(a, Arr) and isinstance(a.base, Arr):
                self.aug_arr(a, s.op, b)
            else:
                self.setitem(o, ix, self.bin(s.op, a, b))
        else:
            raise Unsupported("augmented assignment")

    def aug_arr(self, a, op, b):
        r = self.bin(op, a, b)
        if isinstance(r, Arr) and len(r.shape) != len(a.shape):
            raise Raised("ValueError", line=self.line)
        f = r.snap()
        a.write([("s", 0, n) for n in a.shape], f, self)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                i = self.index(t.slice, env, mod)
                if isinstance(o, dict):
                    self.mut()
                    if i not in o:
                        raise Raised("KeyError", line=self.line)
                    del o[i]
                elif isinstance(o, Obj) and "__delitem__" in o.methods:
                    self.mut()
                    o.methods["__delitem__"](self, [i], {})
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_If(self, s, env, mod):
        if self.truth(self.ev(s.test, env, mod)):
            self.block(s.body, env, mod)
        else:
            self.block(s.orelse, env, mod)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise Raised("AssertionError", line=self.line)

    def s_Raise(self, s, env, mod):
        if s.exc is None:
            raise self.ghost.get("handling") or Unsupported("bare raise")
        e = s.exc
        line = self.line
        if isinstance(e, ast.Call):
            for a in e.args:
                self.ev(a, env, mod)
            e = e.func
        v = self.ev(e, env, mod)
        if isinstance(v, Type) and v.name in EXC:
            raise Raised(v.name, line=line)
        if isinstance(v, Raised):
            raise v
        raise Unsupported("raise")

    def s_Try(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except Raised as e:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        t = self.ev(h.type, env, mod)
                        names = [x.name for x in (t if isinstance(t, tuple) else (t,)) if isinstance(x, Type)]
                    if h.type is None or any(exc_is(e.cls, n) for n in names):
                        if h.name:
                            env.vars[h.name] = e
                        old = self.ghost.get("handling")
                        self.ghost["handling"] = e
                        try:
                            self.block(h.body, env, mod)
                        finally:
                            self.ghost["handling"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        except (Raised, Ret, Brk, Cont):
            if s.finalbody:
                self.block(s.finalbody, env, mod)
            raise
        else:
            self.block(s.finalbody, env, mod)

    def s_With(self, s, env, mod):
        objs = []
        for it in s.items:
            o = self.ev(it.context_expr, env, mod)
            v = o
            if isinstance(o, Obj) and "__enter__" in o.methods:
                v = o.methods["__enter__"](self, [], {})
            elif isinstance(o, Obj) and isinstance(o.cls, Class) and o.cls.find("__enter__"):
                v = self.call(Bound(o.cls.find("__enter__"), o), [], {})
            else:
                raise Unsupported("with")
            objs.append(o)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)

        def leave():
            for o in reversed(objs):
                if "__exit__" in o.methods:
                    o.methods["__exit__"](self, [None, None, None], {})
                else:
                    self.call(Bound(o.cls.find("__exit__"), o), [None, None, None], {})
        try:
            self.block(s.body, env, mod)
        except (Raised, Ret, Brk, Cont):
            leave()
            raise
        leave()

    def s_While(self, s, env, mod):
        n = 0
        while self.truth(self.ev(s.test, env, mod)):
            n += 1
            if n > 40:
                raise Unsupported("while loop")
            try:
                self.block(s.body, env, mod)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env, mod)

    def s_For(self, s, env, mod):
        it = self.iterable(self.ev(s.iter, env, mod))
        if isinstance(it, list):
            for v in it:
                self.assign(s.target, v, env, mod)
                try:
                    self.block(s.body, env, mod)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env, mod)
            return
        n, elem = it
        names = set()
        for x in [s.target] + s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                    names.add(y.id)
        if names & set(env.nonlocals):
            raise Unsupported("nonlocal in a loop")

        folds = {nm: Fold(self, nm, env.vars[nm]) for nm in sorted(names) if isinstance(env.vars.get(nm), Arr) and env.vars[nm].elt == "real" and carried(nm, s.body)}

        def body(k):
            for nm in names:
                env.vars[nm] = folds[nm].at(k) if nm in folds else Poison("loop-carried variable %s" % nm)
            self.assign(s.target, elem(k), env, mod)
            try:
                self.block(s.body, env, mod)
            except Cont:
                pass
            for nm, f in folds.items():
                f.done(k, env.vars[nm])

        def after():
            for nm in names:
                env.vars[nm] = folds[nm].result(n) if nm in folds else Poison("variable of a loop")
        self.symloop(n, body, after)
        self.block(s.orelse, env, mod)

    def iterable(self, v):
        """a list of values, or (n, element function)"""
        v = self.force(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, Seq):
            n = simp(v.n) if isz(v.n) else v.n
            if isinstance(n, int):
                return [v.fn(i) for i in range(n)]
            return (n, v.fn)
        if isinstance(v, Arr):
            n = simp(v.shape[0])
            g = lambda i: self.getitem(v, (i,), check=False)
            if isinstance(n, int):
                return [g(i) for i in range(n)]
            return (n, g)
        if isinstance(v, Obj) and "__iter__" in v.methods:
            return self.iterable(v.methods["__iter__"](self, [], {}))
        raise Unsupported("iteration over %r" % (v,))

    def items(self, v):
        it = self.iterable(v)
        if not isinstance(it, list):
            raise Unsupported("symbolic length")
        return it

    def symloop(self, n, body, after):
        """a loop with a symbolic number of iterations; lists of the outer state that it appends to become sequences"""
        if self.loop is not None or self.outer is not None:
            raise Unsupported("nested symbolic loops")
        key, start = (self.line, self.depth), (self.trace, self.pos)
        ls = outer_lists(self)
        app = []
        for j in sorted(self.need.get(key, ())):
            lst = ls[j]
            acc = Obj("appended list", {}, partial=True)
            rec = {"list": lst, "acc": acc, "vals": []}
            acc.methods["append"] = lambda run, a, k, rec=rec: rec["vals"].append(a[0])
            replace_refs(self, lst, acc)
            app.append(rec)
        self.outer = ls
        try:
            self._symloop(n, body, after, app)
        except NeedAppend as e:
            j = [i for i, x in enumerate(ls) if x is e.lst][0]
            if j in self.need.get(key, ()):
                raise Unsupported("aliased list")
            self.need.setdefault(key, set()).add(j)
            raise Restart(list(start[0][:start[1]]))
        finally:
            self.outer = None

    def _symloop(self, n, body, after, app):
        if self.choice([False, True]):
            # some iteration leaves the loop
            k = self.fresh("it", I)
            self.assume(z3.And(k >= 0, k < term(n)))
            self.inst_same(n, k)
            w = self.writes
            try:
                body(k)
            except (Raised, Ret):
                if self.writes != w:
                    raise Unsupported("loop left after writes")
                for rec in app:
                    replace_refs(self, rec["acc"], Poison("list of a loop that was left"))
                raise
            except Brk:
                raise Unsupported("break")
            raise Prune()
        # every iteration completes
        k = self.fresh("it", I)
        self.solver.push()
        npc, nfr = len(self.pc), len(self.freshlist)
        self.pc.append(z3.And(k >= 0, k < term(n)))
        self.solver.add(self.pc[-1])
        self.inst_same(n, k)
        base = len(self.pc)
        outer = (self.trace, self.pos)
        paths, trace, values = [], [], []
        memo = self.memo
        try:
            while True:
                self.trace, self.pos = trace, 0
                self.memo = dict(memo)
                self.ver += 1000000
                self.loop = {"writes": [], "values": []}
                mark = Arr.made
                for rec in app:
                    rec["vals"] = []
                del self.pc[base:]
                self.solver.push()
                try:
                    body(k)
                    done = True
                except (Raised, Ret, Prune):
                    done = False
                except Brk:
                    raise Unsupported("break")
                finally:
                    self.solver.pop()
                wr = [w for w in self.loop["writes"] if w[0].born <= mark]      # arrays made by the iteration itself end with it
                if done:
                    arrs, seen = [], []
                    for a, reg, old in wr:
                        if a not in seen:
                            seen.append(a)
                            arrs.append((a, old, a._fn, [r for b, r, _ in wr if b is a]))
                    paths.append((list(self.pc[base:]), arrs))
                    values.append([v for v, w in zip(self.loop["values"], self.loop["writes"]) if w[0].born <= mark])
                    for rec in app:
                        rec.setdefault("paths", []).append(rec["vals"])
                for a, reg, old in reversed(wr):
                    a._fn = old
                trace = self.trace
                while trace and trace[-1][1] is None:
                    trace.pop()
                if not trace:
                    break
                v, alt = trace[-1]
                trace[-1] = (alt[0], alt[1:] or None)
                if len(paths) > 30:
                    raise Unsupported("too many paths in a loop body")
        finally:
            self.loop = None
            self.memo = memo
            self.ver += 1000000
            self.trace, self.pos = outer
            del self.pc[npc:]
            self.solver.pop()
        fr = self.freshlist[nfr:]
        inner = [k] + fr
        scat = [a for p in paths for a, _, _, _ in p[1] if self.slab_axis(a, paths, k) is None]
        if scat:
            return self.scatter(scat[0], paths, values, n, k, fr, after, app)
        # facts that do not depend on the iteration hold outside
        common = [c for c in (paths[0][0] if paths else []) if not uses(c, inner)]
        if len(paths) == 1:
            for c in common:
                self.assume(z3.Implies(term(n) > 0, c))
        if not paths:
            self.assume(term(n) <= 0)
        else:
            conds = [z3.And(p[0]) if p[0] else z3.BoolVal(True) for p in paths]
            fact = z3.Or(conds)
            if simp(fact) is not True:
                def inst(kk, fact=fact, fr=fr):
                    sb = [(k, term(kk))] + [(x, self.fresh("w", x.sort())) for x in fr if not x.eq(k)]
                    return z3.substitute(fact, *sb)
                self.foralls.append((n, inst, fr))
        # slab updates
        arrs = []
        for p in paths:
            for a, old, new, regs in p[1]:
                if a not in arrs:
                    arrs.append(a)
        for a in arrs:
            self.slab(a, paths, n, k, fr)
        for rec in app:
            replace_refs(self, rec["acc"], self.appended(rec, n, k, fr))
        after()

    def appended(self, rec, n, k, fr):
        ps, pre = rec.get("paths", []), list(rec["list"])
        if not ps:
            return rec["list"]
        if len(ps) != 1 or len(ps[0]) != 1:
            raise Unsupported("loop appends to a list on some paths only")
        v, memo = ps[0][0], {}
        probe = subst_value(v, k, self.fresh("i", I))

        def check(x):
            if isz(x) and uses(x, [y for y in fr if not y.eq(k)]):
                raise Unsupported("appended value")
            if isinstance(x, Obj):
                for y in x.attrs.values():
                    check(y)
            if isinstance(x, Opaque):
                check(x.term)
            if isinstance(x, (tuple, list)):
                for y in x:
                    check(y)
        check(probe)

        def fn(i):
            i = simp(sub(i, len(pre))) if pre else i
            if isinstance(i, int) and i < 0:
                return pre[i]
            if pre and not self.entails(term(i) >= 0):
                raise Unsupported("element of a list with a prefix")
            key = term(i).get_id()
            if key not in memo:
                memo[key] = (subst_value(v, k, i), term(i))
            return memo[key][0]
        self.writes += 1
        return Seq(simp(term(n) + len(pre)) if pre else n, fn, "list")

    def slab_axis(self, a, paths, k):
        for ax in range(len(a.shape)):
            if all(reg[ax][0] == "i" and isz(term(reg[ax][1])) and simp(term(reg[ax][1]) == k) is True
                   for p in paths for b, old, new, regs in p[1] if b is a for reg in regs):
                return ax
        return None

    def scatter(self, a, paths, values, n, k, fr, after, app):
        """every iteration stores one value at a position it computes: an element has the value of the last iteration that stored there"""
        if len(paths) != 1 or len(paths[0][1]) != 1 or app:
            raise Unsupported("loop updates elements of another iteration")
        conds, (_, old0, new, regs) = paths[0][0], paths[0][1][0]
        if len(regs) != 1 or any(r[0] == "s" and (uses(term(r[1]), [k] + fr) or uses(term(r[2]), [k] + fr)) for r in regs[0]):
            raise Unsupported("loop updates elements of another iteration")
        reg, val, old = regs[0], values[0][0], a.snap()
        self.fresh_n += 1
        tag = self.fresh_n
        sk = [(x, ufun("witness!%d!%d" % (tag, i), I, x.sort())) for i, x in enumerate(fr) if not x.eq(k)]
        at = lambda t, kk: z3.substitute(t, (k, term(kk)), *[(x, f(term(kk))) for x, f in sk])
        fact = z3.And(conds) if conds else z3.BoolVal(True)
        pos = [(d, term(r[1])) for d, r in enumerate(reg) if r[0] == "i"]
        last = ufun("last_store!%d" % tag, *([I] * (len(pos) + 1)))
        reads = []
        save, self.reads = self.reads, []
        try:
            loc = [self.fresh("loc", I) for r in reg if r[0] == "s"]
            v = term(val(tuple(loc)))
            if any(b is a for b, _ in self.reads):
                raise Unsupported("loop reads elements of another iteration")
        finally:
            self.reads = save

        def inst(kk):
            c = [at(fact, kk)]
            for idx in reads:
                hit = z3.And([at(t, kk) == idx[d] for d, t in pos])
                c.append(z3.Implies(hit, term(kk) <= last(*[idx[d] for d, _ in pos])))
            return z3.And(c)

        def fn(idx):
            idx = [term(i) for i in idx]
            L = last(*[idx[d] for d, _ in pos])
            if not any(all(x.eq(y) for x, y in zip(idx, r)) for r in reads):
                reads.append(idx)
                self.assume(z3.And(L >= -1, L < term(n), z3.Implies(L >= 0, z3.And([at(fact, L)] + [at(t, L) == idx[d] for d, t in pos]))))
            self.ghost.setdefault("last_store", []).append((L, [idx[d] for d, _ in pos]))
            c, lc = [L >= 0], []
            for r, i in zip(reg, idx):
                if r[0] == "s":
                    c += [le(r[1], i), lt(i, add(r[1], r[2]))]
                    lc.append((loc[len(lc)], term(sub(i, r[1]))))
            return self.ite(c, lambda: z3.substitute(at(v, L), *lc) if lc else at(v, L), lambda: old(tuple(idx)))
        self.writes += 1
        self.foralls.append((n, inst, fr))
        a._fn = fn
        after()

    def slab(self, a, paths, n, k, fr):
        nd = len(a.shape)
        axis = self.slab_axis(a, paths, k)
        old = a.snap()

        def body(idx):
            """value after the iteration of the slab that contains idx"""
            gi = list(idx)
            gi[axis] = k
            save = self.reads
            self.reads = []
            try:
                val = None
                for conds, arrs in reversed(paths):
                    e = [x for x in arrs if x[0] is a]
                    v = term(e[0][2](tuple(gi)) if e else e_old(gi))
                    v = real(v) if val is not None and val.sort() == R and v.sort() == I else v
                    val = v if val is None else z3.If(z3.And(conds) if conds else z3.BoolVal(True), v, val)
                for b, ri in self.reads:
                    if any(b is x for x in self_arrs) and simp(term(ri[axis]) == k) is not True:
                        raise Unsupported("loop reads elements of another iteration")
            finally:
                self.reads = save
            if uses(val, [x for x in fr if not x.eq(k)]):
                raise Unsupported("loop value")
            return z3.substitute(val, (k, term(idx[axis])))

        def e_old(gi):
            return old(tuple(gi))
        self_arrs = [a]
        for p in paths:
            for b, _, _, _ in p[1]:
                if not any(b is x for x in self_arrs):
                    self_arrs.append(b)
        if len(self_arrs) > 1:
            raise Unsupported("loop updates several arrays")
        self.writes += 1
        # probe once so that a read of another slab is found here
        probe = [self.fresh("i", I) for _ in range(nd)]
        body(probe)
        a._fn = lambda idx: self.ite([le(0, idx[axis]), lt(idx[axis], n)], lambda: body(idx), lambda: old(tuple(idx)))

    def mut(self):
        self.writes += 1
        if self.loop is not None:
            raise Unsupported("mutation in a symbolic loop")

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        k = type(e).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression %s (line %s)" % (k, self.line))
        return self.force(f(e, env, mod))

    def e_Constant(self, e, env, mod):
        return Ellipsis_() if e.value is Ellipsis else e.value

    def e_Name(self, e, env, mod):
        sc = env.find(e.id)
        if sc is not None:
            v = self.force(sc.vars[e.id])
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if e.id in BUILTINS:
            return BUILTINS[e.id]
        if e.id in EXC:
            return Type(e.id)
        raise Raised("NameError", line=self.line)

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return list(self.elts(e.elts, env, mod))

    def e_Set(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, mod))
            else:
                d[self.ev(k, env, mod)] = self.ev(v, env, mod)
        return d

    def e_JoinedStr(self, e, env, mod):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    self.ev(v.value, env, mod)
                except Unsupported:
                    pass
        return Opaque("text", "str", truth=True)

    def e_Lambda(self, e, env, mod):
        f = Func(e, env, "<lambda>", mod)
        f.defaults = [self.ev(d, env, mod) for d in e.args.defaults]
        f.kwdefaults = []
        return f

    def e_IfExp(self, e, env, mod):
        return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)

    def e_BoolOp(self, e, env, mod):
        v = None
        for x in e.values:
            v = self.ev(x, env, mod)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not (isz(v) and v.sort() == B) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not (isz(v) and v.sort() == B) else True
        return v

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            if isz(v) and v.sort() == B:
                return z3.Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if conc(v):
                return -v
            if isz(v):
                return -v
            if isinstance(v, Arr):
                return self.bin(ast.Sub(), 0, v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.bin(e.op, a, b)

    def e_Compare(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        out = []
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env, mod)
            c = self.cmp(op, a, b)
            if c is False:
                return False
            if c is not True:
                out.append(c)
            a = b
        if not out:
            return True
        if len(out) == 1:
            return out[0]
        return z3.And(out)

    def e_Subscript(self, e, env, mod):
        o = self.ev(e.value, env, mod)
        return self.getitem(o, self.index(e.slice, env, mod))

    def e_Slice(self, e, env, mod):
        g = lambda x: self.ev(x, env, mod) if x is not None else None
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.setname(e.target.id, v, env)
        return v

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def index(self, s, env, mod):
        return self.ev(s, env, mod)

    def e_ListComp(self, e, env, mod, typ="list"):
        if len(e.generators) != 1:
            # concrete only
            out = []
            self.comp(e, 0, Env(env), mod, out)
            return out
        g = e.generators[0]
        it = self.iterable(self.ev(g.iter, env, mod))
        if isinstance(it, list):
            out = []
            for v in it:
                e2 = Env(env)
                self.assign(g.target, v, e2, mod)
                if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                    out.append(self.ev(e.elt, e2, mod))
            return out
        if g.ifs:
            raise Unsupported("filtered comprehension of symbolic length")
        n, elem = it

        def fn(i):
            e2 = Env(env)
            self.assign(g.target, elem(i), e2, mod)
            w, p = self.writes, len(self.pc)
            v = self.ev(e.elt, e2, mod)
            if self.writes != w:
                raise Unsupported("comprehension with effects")
            return v
        k = self.fresh("it", I)
        # an element may raise
        pos = self.pos
        self.symloop(n, fn_ignore(fn), lambda: None)
        return Seq(n, fn, typ)

    def comp(self, e, i, env, mod, out):
        if i == len(e.generators):
            out.append(self.ev(e.elt, env, mod))
            return
        g = e.generators[i]
        for v in self.items(self.ev(g.iter, env, mod)):
            self.assign(g.target, v, env, mod)
            if all(self.truth(self.ev(c, env, mod)) for c in g.ifs):
                self.comp(e, i + 1, env, mod, out)

    def e_GeneratorExp(self, e, env, mod):
        return self.e_ListComp(e, env, mod)

    def e_SetComp(self, e, env, mod):
        return self.e_ListComp(e, env, mod)

    def e_DictComp(self, e, env, mod):
        g = e.generators[0]
        if len(e.generators) != 1:
            raise Unsupported("dict comprehension")
        out = {}
        for v in self.items(self.ev(g.iter, env, mod)):
            e2 = Env(env)
            self.assign(g.target, v, e2, mod)
            if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                out[self.ev(e.key, e2, mod)] = self.ev(e.value, e2, mod)
        return out

    def e_Call(self, e, env, mod):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            raise Unsupported("super")
        f = self.ev(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("keyword arguments")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    # ------------------------------------------------------------ operations
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, list, dict, Fraction)):
            return bool(v)
        if isz(v):
            if v.sort() == B:
                return self.branch(v)
            if v.sort() in (I, R):
                return self.branch(v != 0)
        if isinstance(v, Seq):
            return self.branch(lt(0, v.n))
        if isinstance(v, Opaque):
            if v.truth is None:
                raise Unsupported("truth of %s" % v.name)
            return self.branch(v.truth) if isz(v.truth) else v.truth
        if isinstance(v, Obj):
            if "__bool__" in v.methods:
                return self.truth(v.methods["__bool__"](self, [], {}))
            if isinstance(v.cls, Class):
                for m in ("__bool__", "__len__"):
                    f = v.cls.find(m)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Func, Bound, Class, Builtin, Type, Module)):
            return True
        if isinstance(v, Arr):
            if all(isinstance(simp(n), int) and simp(n) == 1 for n in v.shape):
                return self.truth(v.get([0] * len(v.shape)))
            raise Raised("ValueError", line=self.line)
        raise Unsupported("truth of %r" % (v,))

    def cmp(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b if not (isinstance(a, Type) and isinstance(b, Type)) else a.name == b.name
            if isz(a) or isz(b):
                if a is None or b is None:
                    r = False
                else:
                    raise Unsupported("is")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return z3.Not(r) if isz(r) else not r
            return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.elementwise(lambda x, y: self.cmp(op, x, y), a, b, "bool")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq):
                return z3.Not(r) if isz(r) else not r
            return r
        if conc(a, b) or (isinstance(a, str) and isinstance(b, str)) or (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and conc(*a) and conc(*b)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isnum(a) and isnum(b):
            x, y = two(a, b)
            return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
        if a is None or b is None:
            raise Raised("TypeError", line=self.line)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, Type) and isinstance(b, Type):
            return a.name == b.name
        if isinstance(a, (Type, Class)) or isinstance(b, (Type, Class)):
            return False
        if a is None or b is None:
            return False
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b) or type(a) != type(b):
                return False
            cs = [self.equal(x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return z3.And(cs) if cs else True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.term is not None and b.term is not None:
                return simp(a.term == b.term)
            if tterm(a) is not None and tterm(b) is not None:
                return simp(tterm(a) == tterm(b))
            raise Unsupported("comparison of text")
        if isnum(a) and isnum(b) or (isz(a) and isz(b)) or isinstance(a, bool) or isinstance(b, bool):
            return eq(a, b)
        if type(a) in (str, bytes, int, float, bool, dict) and type(b) in (str, bytes, int, float, bool, dict):
            return a == b
        if isinstance(a, str) or isinstance(b, str):
            return False
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, c, x):
        if isinstance(c, (tuple, list)):
            rs = [self.equal(x, y) for y in c]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return z3.Or(rs) if rs else False
        if isinstance(c, dict):
            if isinstance(x, Opaque):
                raise Unsupported("membership")
            return x in c
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Obj) and "__contains__" in c.methods:
            return c.methods["__contains__"](self, [x], {})
        raise Unsupported("membership in %r" % (c,))

    def bin(self, op, a, b):
        a, b = self.force(a), self.force(b)
        for v in (a, b):
            if isinstance(v, Poison):
                raise Unsupported(v.why)
        if isinstance(a, Arr) or isinstance(b, Arr):
            kind = "real" if isinstance(op, ast.Div) or any((x.elt if isinstance(x, Arr) else "int" if isint(x) else "real") == "real" for x in (a, b)) else "int"
            return self.elementwise(lambda x, y: self.num(op, x, y, arr=True), a, b, kind)
        if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return a + b
            return Opaque("text", "str", truth=True)
        if isinstance(a, (tuple, list)) and isinstance(op, ast.Add) and type(a) is type(b):
            return a + b
        if isinstance(a, (tuple, list)) and isinstance(op, ast.Mult) and isinstance(b, int):
            return a * b
        if a is None or b is None or isinstance(a, (tuple, list, Seq, dict)) or isinstance(b, (tuple, list, Seq, dict)):
            if isinstance(a, Seq) or isinstance(b, Seq):
                raise Unsupported("sequence arithmetic")
            raise Raised("TypeError", line=self.line)
        return self.num(op, a, b)

    def num(self, op, a, b, arr=False):
        o = type(op)
        if not (isnum(a) or isinstance(a, bool) or (isz(a) and a.sort() == B)) or not (isnum(b) or isinstance(b, bool) or (isz(b) and b.sort() == B)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("arithmetic on %r, %r" % (a, b))
            raise Unsupported("arithmetic on %r, %r" % (a, b))
        if conc(a, b):
            try:
                if o is ast.Add: return a + b
                if o is ast.Sub: return a - b
                if o is ast.Mult: return a * b
                if o is ast.Div: return Fraction(str(a)) / Fraction(str(b)) if not arr or b != 0 else z3.RealVal(0) / z3.RealVal(0)
                if o is ast.FloorDiv: return a // b
                if o is ast.Mod: return a % b
                if o is ast.Pow: return a ** b
            except ZeroDivisionError:
                raise Raised("ZeroDivisionError", line=self.line)
        if o in (ast.Add, ast.Sub, ast.Mult):
            x, y = two(a, b)
            return x + y if o is ast.Add else x - y if o is ast.Sub else x * y
        if o is ast.Div:
            x, y = real(a), real(b)
            if not arr and not self.branch(y != 0):
                raise Raised("ZeroDivisionError", line=self.line)
            q = x / y
            self.quot[q.get_id()] = (q, a, b)
            return q
        if o in (ast.FloorDiv, ast.Mod):
            if not arr and not self.branch(term(b) != 0):
                raise Raised("ZeroDivisionError", line=self.line)
            if isint(a) and isint(b):
                key = ("fd", term(a).get_id(), term(b).get_id())
                if key not in self.memo:
                    q, r = self.fresh("q", I), self.fresh("r", I)
                    x, y = term(a), term(b)
                    self.assume(x == y * q + r)
                    self.assume(z3.If(y > 0, z3.And(0 <= r, r < y), z3.And(y < r, r <= 0)))
                    self.assume(z3.Implies(z3.And(y > 0, x >= y), q >= 1))
                    self.assume(z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)))
                    self.memo[key] = (q, r, x, y)
                return self.memo[key][0 if o is ast.FloorDiv else 1]
            q = self.fresh("q", I)
            x, y = real(a), real(b)
            self.assume(z3.Implies(y > 0, z3.And(z3.ToReal(q) * y <= x, x < z3.ToReal(q) * y + y)))
            self.assume(z3.Implies(y < 0, z3.And(z3.ToReal(q) * y >= x, x > z3.ToReal(q) * y + y)))
            return z3.ToReal(q) if o is ast.FloorDiv else x - z3.ToReal(q) * y
        if o is ast.Pow:
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1 if isint(a) else z3.RealVal(1)
                for _ in range(b):
                    r = mul(r, a)
                return r
            fb = Fraction(str(b)) if conc(b) else None
            if fb == Fraction(1, 2):
                return self.root(a, 2)
            if fb is not None and abs(fb - Fraction(1, 3)) < Fraction(1, 10**12):
                return self.root(a, 3)
        raise Unsupported("operator %s" % o.__name__)

    def root(self, a, k):
        x = real(a)
        key = ("root", k, x.get_id())
        if key not in self.memo:
            if not self.branch(x >= 0):
                raise Unsupported("root of a negative number")
            r = self.fresh("root", R)
            self.assume(r >= 0)
            self.assume(r * r == x if k == 2 else r * r * r == x)
            # consequences (lemma "roots")
            self.assume(z3.Implies(x >= 1, z3.And(r >= 1, r <= x)))
            self.assume(z3.Implies(x >= 2, r <= x - z3.RealVal("0.5")))
            self.assume(z3.Implies(x < 2, r < z3.RealVal("1.5")))
            self.memo[key] = (r, x)
        return self.memo[key][0]

    def elementwise(self, f, a, b, elt):
        def norm(v):
            if isinstance(v, Arr):
                return v.shape, v.snap()
            if isinstance(v, (list, tuple, Seq)):
                v = self.asarray(v)
                return v.shape, v.snap()
            return [], (lambda idx, v=v: v)
        sa, fa = norm(a)
        sb, fb = norm(b)
        shape = self.broadcast(sa, sb)

        def pick(s, idx):
            idx = idx[len(idx) - len(s):] if s else ()
            return tuple(0 if isinstance(n, int) and n == 1 else i for n, i in zip(s, idx))
        return Arr(self, shape, lambda idx: f(fa(pick(sa, idx)), fb(pick(sb, idx))), elt)

    def broadcast(self, sa, sb):
        n = max(len(sa), len(sb))
        pa, pb = [1] * (n - len(sa)) + list(sa), [1] * (n - len(sb)) + list(sb)
        out = []
        for x, y in zip(pa, pb):
            x, y = simp(x), simp(y)
            if isinstance(x, int) and x == 1:
                out.append(y)
            elif isinstance(y, int) and y == 1:
                out.append(x)
            elif self.branch(eq(x, y)):
                out.append(x)
            else:
                if self.branch(eq(x, 1)) or self.branch(eq(y, 1)):
                    raise Unsupported("broadcast of a dimension that happens to be 1")
                raise Raised("ValueError", line=self.line)
        return out

    def asarray(self, v, elt=None):
        v = self.force(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Seq):
            e = v.fn(self.fresh("i", I))
            return Arr(self, [v.n], lambda idx: v.fn(idx[0]), elt or ("int" if isint(e) else "real"))
        if isinstance(v, (list, tuple)):
            if all(isnum(x) for x in v):
                vs = [term(x) for x in v]
                allint = all(isint(x) for x in v)
                if not allint:
                    vs = [real(x) for x in vs]

                def fn(idx):
                    i = simp(idx[0])
                    if isinstance(i, int):
                        return vs[i]
                    r = vs[-1]
                    for j in range(len(vs) - 2, -1, -1):
                        r = z3.If(i == j, vs[j], r)
                    return r
                return Arr(self, [len(v)], fn, "int" if allint else "real")
            if v and all(isinstance(x, (Arr, list, tuple)) for x in v):
                parts = [self.asarray(x) for x in v]
                return stack(self, parts, 0)
        if isnum(v):
            return Arr(self, [], lambda idx: v, "int" if isint(v) else "real")
        raise Unsupported("array of %r" % (v,))

    # ------------------------------------------------------------ attributes, items
    def getattr(self, o, n):
        o = self.force(o)
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, Module):
            if n in o.members:
                v = self.force(o.members[n])
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if o.name.startswith("geomodelgrids"):
                try:
                    return self.module(o.name + "." + n)
                except Unsupported:
                    pass
            if o.name + "." + n in self.lib:
                return self.module(o.name + "." + n)
            raise Unsupported("%s.%s" % (o.name, n))
        if isinstance(o, Obj):
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                if isinstance(v, Getter):
                    return v.fn(self)
                return v
            if n in o.methods:
                return Builtin(n, lambda run, a, k, f=o.methods[n]: f(run, a, k))
            if isinstance(o.cls, Class):
                f = o.cls.find(n)
                if f is not None:
                    if isinstance(f, Func):
                        if f.kind == "property":
                            return self.call(Bound(f, o), [], {})
                        return f if f.kind == "staticmethod" else Bound(f, o)
                    return f
            if o.partial or not isinstance(o.cls, Class):
                raise Unsupported("attribute %s" % n)
            raise Raised("AttributeError", line=self.line)
        if isinstance(o, Class):
            f = o.find(n)
            if f is not None:
                return f if not isinstance(f, Func) or f.kind != "classmethod" else Bound(f, o)
            if n == "__name__":
                return o.name
            raise Raised("AttributeError", line=self.line)
        if isinstance(o, Arr):
            return self.arr_attr(o, n)
        if isinstance(o, Opaque):
            if n in o.attrs:
                return o.attrs[n]
            if n in o.methods:
                return Builtin(n, lambda run, a, k, f=o.methods[n]: f(run, a, k))
            if o.typ == "str":
                return Builtin("str." + n, lambda run, a, k: text_method(run, o, n, a, k) or Opaque("%s.%s" % (o.name, n), "bytes" if n == "encode" else "str", truth=o.truth, term=o.term if n == "encode" and (not a or a[0] in ("utf-8", "utf8")) and not k else None))
            raise Unsupported("attribute %s of %s" % (n, o.name))
        if isinstance(o, list):
            def append(run, a, k):
                if run.outer is not None and any(x is o for x in run.outer):
                    raise NeedAppend(o)
                if run.loop is None:
                    run.mut()
                o.append(a[0])

            def extend(run, a, k):
                run.mut()
                o.extend(run.items(a[0]))
            if n in ("append", "extend"):
                return Builtin(n, append if n == "append" else extend)
        if isinstance(o, (list, tuple)) and n == "index":
            raise Unsupported("index")
        if isinstance(o, str):
            m = getattr(o, n, None)
            if m is None:
                raise Raised("AttributeError", line=self.line)

            def call(run, a, k):
                try:
                    return m(*a, **k)
                except Exception:
                    return Opaque("text", "str", truth=True)
            return Builtin(n, call)
        if isinstance(o, dict):
            if n == "items":
                return Builtin(n, lambda run, a, k: [(x, y) for x, y in o.items()])
            if n == "keys":
                return Builtin(n, lambda run, a, k: list(o.keys()))
            if n == "values":
                return Builtin(n, lambda run, a, k: list(o.values()))
            if n == "get":
                return Builtin(n, lambda run, a, k: o.get(a[0], a[1] if len(a) > 1 else None))
            if n == "update":
                def update(run, a, k):
                    run.mut()
                    if a and not isinstance(run.force(a[0]), dict):
                        raise Unsupported("update")
                    o.update(run.force(a[0]) if a else {})
                    o.update(k)
                return Builtin(n, update)
        if isinstance(o, Type):
            if n == "__name__":
                return o.name
        if isinstance(o, (Func, Bound)) and n in ("__name__", "__qualname__"):
            return Opaque("name", "str", truth=True)
        if o is None or isinstance(o, (int, float, bool, tuple)):
            raise Raised("AttributeError", line=self.line)
        if isz(o) and n in ("item",):
            return Builtin(n, lambda run, a, k: o)
        raise Unsupported("attribute %s of %r" % (n, o))

    def arr_attr(self, a, n):
        if n == "shape":
            return tuple(a.shape)
        if n == "ndim":
            return len(a.shape)
        if n == "size":
            r = 1
            for x in a.shape:
                r = mul(r, x)
            return r
        if n == "attrs" and "attrs" in a.attrs:
            return a.attrs["attrs"]
        if n == "T":
            f = a.snap()
            return Arr(self, a.shape[::-1], lambda idx: f(tuple(idx)[::-1]), a.elt)
        if n == "dtype":
            return Opaque("dtype", "dtype")
        m = ARRAY_METHODS.get(n)
        if m is not None:
            return Builtin("ndarray." + n, lambda run, x, k: m(run, a, x, k))
        raise Unsupported("array attribute %s" % n)

    def setattr(self, o, n, v):
        if not isinstance(o, Obj):
            raise Unsupported("attribute assignment to %r" % (o,))
        self.mut()
        if isinstance(o.cls, Class):
            f = o.cls.find(n)
            if isinstance(f, Func):
                raise Unsupported("property assignment")
        o.attrs[n] = v

    def clip(self, v, n):
        """slice bound"""
        if v is None:
            return None
        if not isint(v):
            if isnum(v) or v is not None:
                raise Raised("TypeError", line=self.line)
        if isinstance(v, int) and isinstance(n, int):
            return max(0, v + n) if v < 0 else min(v, n)
        vt, nt = term(v), term(n)
        if self.entails(vt >= 0):
            return v if self.entails(vt <= nt) else z3.If(vt <= nt, vt, nt)
        if self.entails(z3.And(vt < 0, vt + nt >= 0)):
            return simp(vt + nt)
        w = z3.If(vt < 0, vt + nt, vt)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > nt, nt, w))

    def bounds(self, s, n):
        if s.s is not None and not (isinstance(s.s, int) and s.s == 1):
            raise Unsupported("slice step")
        a = self.clip(s.a, n) if s.a is not None else 0
        b = self.clip(s.b, n) if s.b is not None else n
        ln = sub(b, a)
        if not isinstance(ln, int):
            if not self.entails(ln >= 0):
                ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        else:
            ln = max(ln, 0)
        return a, ln

    def onepos(self, i, n, check=True):
        if not isint(i):
            raise Raised("TypeError" if not isnum(i) else "IndexError", line=self.line)
        if isinstance(i, int) and isinstance(n, int):
            if not -n <= i < n:
                raise Raised("IndexError", line=self.line)
            return i + n if i < 0 else i
        it, nt = term(i), term(n)
        if check and not self.branch(z3.And(it < nt, it >= -nt)):
            raise Raised("IndexError", line=self.line)
        if isinstance(i, int):
            return i if i >= 0 else simp(it + nt)
        if not check or self.entails(it >= 0):
            return i
        return i if self.branch(it >= 0) else simp(it + nt)

    def arr_region(self, a, ix, check=True):
        """basic index -> (axes of the view, shape)"""
        ix = list(ix) if isinstance(ix, tuple) else [ix]
        nreal = len([x for x in ix if x is not None and not isinstance(x, Ellipsis_)])
        if nreal > len(a.shape):
            raise Raised("IndexError", line=self.line)
        full = []
        for x in ix:
            if isinstance(x, Ellipsis_):
                full += [Slice(None, None, None)] * (len(a.shape) - nreal)
            else:
                full.append(x)
        nreal = len([x for x in full if x is not None])
        full += [Slice(None, None, None)] * (len(a.shape) - nreal)
        axes, shape, d = [], [], 0
        for x in full:
            if x is None:
                axes.append(("new",))
                shape.append(1)
                continue
            n = a.shape[d]
            d += 1
            if isinstance(x, Slice):
                st, ln = self.bounds(x, n)
                axes.append(("s", st, ln))
                shape.append(ln)
            elif isint(x):
                axes.append(("i", self.onepos(x, n, check)))
            else:
                raise Unsupported("array index %r" % (x,))
        return axes, shape

    def getitem(self, o, ix, check=True):
        o = self.force(o)
        if isinstance(o, Arr):
            if isinstance(ix, Ix):
                return self.fancy(o, ix)
            if any(isinstance(x, (Arr, list, Seq)) for x in (ix if isinstance(ix, tuple) else (ix,))):
                rows = list(ix) if isinstance(ix, tuple) else [ix]
                arrs = [x for x in rows if isinstance(x, (Arr, list, Seq))]
                if len(arrs) == 1 and all(isinstance(x, Slice) or x is arrs[0] for x in rows):
                    # one index array: an orthogonal selection
                    full = rows + [Slice(None, None, None)] * (len(o.shape) - len(rows))
                    sel = []
                    for x, n in zip(full, o.shape):
                        if isinstance(x, Slice):
                            st, ln = self.bounds(x, n)
                            sel.append(Arr(self, [ln], lambda idx, st=st: add(st, idx[0]), "int"))
                        else:
                            sel.append(self.asarray(x))
                    if len(sel[rows.index(arrs[0])].shape) == 1:
                        return self.fancy(o, Ix(sel))
                raise Unsupported("advanced indexing")
            axes, shape = self.arr_region(o, ix, check)
            if all(a[0] == "i" for a in axes):
                return o.get([a[1] for a in axes])
            v = Arr(self, shape, None, o.elt, base=o, axes=axes)
            if o.attrs.get("dataset"):
                f = v.snap()
                return Arr(self, shape, f, o.elt)      # h5py copies
            return v
        if isinstance(o, Seq):
            if isinstance(ix, Slice):
                a, ln = self.bounds(ix, o.n)
                return Seq(ln, lambda i: o.fn(add(a, i)), o.typ)
            return o.fn(self.onepos(ix, o.n, check))
        if isinstance(o, (tuple, list, str)):
            if isinstance(ix, Slice):
                if all(x is None or isinstance(x, int) for x in (ix.a, ix.b, ix.s)):
                    return o[ix.a:ix.b:ix.s]
                if isinstance(o, str):
                    raise Unsupported("string slice")
                return self.getitem(Seq(len(o), lambda i: self.pick(o, i), type(o).__name__), ix)
            if isinstance(ix, int):
                if not -len(o) <= ix < len(o):
                    raise Raised("IndexError", line=self.line)
                return o[ix]
            if isz(ix) and ix.sort() == I:
                i = self.onepos(ix, len(o))
                return self.pick(o, i)
            raise Raised("TypeError", line=self.line)
        if isinstance(o, dict):
            if isinstance(ix, Opaque):
                raise Unsupported("key")
            if ix not in o:
                raise Raised("KeyError", line=self.line)
            return self.force(o[ix])
        if isinstance(o, Obj) and "__getitem__" in o.methods:
            return o.methods["__getitem__"](self, [ix], {})
        if isinstance(o, (Class, Type)):
            return o
        if isinstance(o, Opaque) and o.typ == "str" and isinstance(ix, Slice):
            return text_slice(self, o, ix)
        raise Unsupported("subscript of %r" % (o,))

    def pick(self, o, i):
        i = simp(i)
        if isinstance(i, int):
            return o[i]
        vs = [term(x) for x in o]
        if any(v.sort() == R for v in vs):
            vs = [real(v) for v in vs]
        r = vs[-1]
        for j in range(len(vs) - 2, -1, -1):
            r = z3.If(i == j, vs[j], r)
        return r

    def forall_check(self, n, ok, exc):
        """raise exc unless ok(k) for every k < n"""
        k = self.fresh("it", I)
        if self.choice([False, True]):
            self.assume(z3.And(k >= 0, k < term(n)))
            self.inst_same(n, k)
            self.assume(z3.Not(term(ok(k))))
            if self.sat(z3.BoolVal(True)) == z3.unsat:
                raise Prune()
            raise Raised(exc, line=self.line)
        self.foralls.append((n, lambda kk: term(ok(kk)), []))

    def fancy(self, o, ix):
        rows = [self.asarray(r) for r in ix.rows]
        if len(rows) != len(o.shape):
            if len(rows) > len(o.shape):
                raise Raised("IndexError", line=self.line)
            raise Unsupported("partial advanced indexing")
        fs = [r.snap() for r in rows]
        for r, f, n in zip(rows, fs, o.shape):
            m = simp(r.shape[0])
            if isinstance(m, int) and m <= 4:
                for i in range(m):
                    if not self.branch(z3.And(term(f((i,))) < term(n), term(f((i,))) >= -term(n))):
                        raise Raised("IndexError", line=self.line)
            else:
                self.forall_check(m, lambda k, f=f, n=n: z3.And(term(f((k,))) < term(n), term(f((k,))) >= -term(n)), "IndexError")

        g = o.snap()

        def pos(f, n, i):
            v = f((i,))
            if isinstance(v, int):
                return v if v >= 0 else add(v, n)
            v = simp(v)
            return v if isinstance(v, int) else z3.If(v >= 0, v, v + term(n))
        return Arr(self, [r.shape[0] for r in rows], lambda idx: g(tuple(pos(f, n, i) for f, n, i in zip(fs, o.shape, idx))), o.elt)

    def setitem(self, o, ix, v):
        o = self.force(o)
        if isinstance(o, Arr):
            if isinstance(ix, Ix) or any(isinstance(x, (Arr, list, Seq)) or x is None for x in (ix if isinstance(ix, tuple) else (ix,))):
                raise Unsupported("advanced index assignment")
            axes, shape = self.arr_region(o, ix)
            if isinstance(v, (list, tuple, Seq)):
                v = self.asarray(v)
            if isinstance(v, Arr):
                vs = list(v.shape)
                if o.attrs.get("dataset") and len(vs) != len(shape):
                    raise Unsupported("h5py broadcast")
                while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
                    raise Unsupported("broadcast")
                if len(vs) > len(shape):
                    raise Raised("ValueError", line=self.line)
                off = len(shape) - len(vs)
                for n, m in zip(shape[off:], vs):
                    n, m = simp(n), simp(m)
                    if isinstance(m, int) and m == 1:
                        continue
                    if not self.branch(eq(n, m)):
                        if self.branch(eq(m, 1)):
                            raise Unsupported("broadcast of a dimension that happens to be 1")
                        raise Raised("ValueError", line=self.line)
                f = v.snap()

                def val(loc):
                    loc = loc[off:]
                    return f(tuple(0 if isinstance(m, int) and m == 1 else i for m, i in zip(vs, loc)))
            else:
                if not isnum(v) and not isinstance(v, bool) and not isz(v):
                    raise Unsupported("assignment of %r" % (v,))
                val = lambda loc: v
            if o.elt == "int" and not isint(val(tuple(0 for _ in shape))):
                raise Unsupported("real values in an integer array")
            o.write(axes, val, self)
        elif isinstance(o, dict):
            self.mut()
            if isinstance(ix, Opaque):
                raise Unsupported("key")
            o[ix] = v
        elif isinstance(o, list):
            self.mut()
            if not isinstance(ix, int):
                raise Unsupported("list store")
            if not -len(o) <= ix < len(o):
                raise Raised("IndexError", line=self.line)
            o[ix] = v
        elif isinstance(o, Obj) and "__setitem__" in o.methods:
            self.mut()
            o.methods["__setitem__"](self, [ix, v], {})
        elif isinstance(o, tuple):
            raise Raised("TypeError", line=self.line)
        else:
            raise Unsupported("store into %r" % (o,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        f = self.force(f)
        line = self.line
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if isinstance(f, Builtin):
            r = f.fn(self, args, kw)
            self.line = line
            return r
        if isinstance(f, Bound):
            return self.callfn(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.callfn(f, args, kw)
        if isinstance(f, Class):
            q = f.name
            if q in self.contracts:
                self.used.add(q)
                return self.contracts[q](self, args, kw)
            o = Obj(f)
            init = f.find("__init__")
            if init is not None:
                self.callfn(init, [o] + args, kw)
            elif args or kw:
                if any(b is None or not isinstance(b, Class) for b in f.bases):
                    raise Unsupported("constructor")
                raise Raised("TypeError", line=self.line)
            return o
        if isinstance(f, Type):
            if f.name in EXC:
                return Raised(f.name, line=self.line)
            if f.fn is None:
                raise Unsupported("call of %s" % f.name)
            return f.fn(self, args, kw)
        if isinstance(f, Obj):
            if "__call__" in f.methods:
                return f.methods["__call__"](self, args, kw)
        raise Unsupported("call of %r" % (f,))

    def callfn(self, f, args, kw, top=False):
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        q = f.qname
        if not top and q in self.contracts:
            self.used.add(q)
            return self.contracts[q](self, args, kw)
        if f.kind == "generator":
            raise Unsupported("generator %s" % q)
        if not top:
            self.inlined.add(q)
        self.depth += 1
        if self.depth > 30:
            raise Unsupported("recursion")
        env = Env(f.env, fn=True)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg:
                env.vars[a.vararg.arg] = tuple(args[len(names):])
            else:
                raise Raised("TypeError", line=self.line)
        elif a.vararg:
            env.vars[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in vals:
                raise Raised("TypeError", line=self.line)
            if k in names or k in kwonly:
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised("TypeError", line=self.line)
        if a.kwarg:
            env.vars[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for n, d, dn in zip(kwonly, f.kwdefaults, a.kw_defaults if not isinstance(f.node, ast.Lambda) else []):
            if dn is not None:
                vals.setdefault(n, d)
        for n in names + kwonly:
            if n not in vals:
                raise Raised("TypeError", line=self.line)
        env.vars.update(vals)
        line = self.line
        self.frames.append(env)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.module)
            # a name assigned in the function is local: reading it before is an error
            try:
                self.block(f.node.body, env, f.module)
            except Ret as r:
                return r.v
            return None
        finally:
            self.frames.pop()
            self.depth -= 1
            self.line = line


class Lazy:
    def __init__(self, get):
        self._get, self.v, self.done = get, None, False

    def get(self):
        if not self.done:
            self.v, self.done = self._get(), True
        return self.v


class Getter:
    def __init__(self, fn):
        self.fn = fn


def fn_ignore(fn):
    return lambda k: fn(k)


def uses(t, consts):
    ids = {c.get_id() for c in consts}
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        st.extend(x.children())
    return False


def stack(run, parts, axis):
    sh = parts[0].shape
    for p in parts[1:]:
        if len(p.shape) != len(sh):
            raise Raised("ValueError", line=run.line)
        for x, y in zip(sh, p.shape):
            if not run.branch(eq(x, y)):
                raise Raised("ValueError", line=run.line)
    nd = len(sh) + 1
    axis = axis + nd if axis < 0 else axis
    fs = [p.snap() for p in parts]
    elt = "real" if any(p.elt == "real" for p in parts) else parts[0].elt

    def fn(idx):
        i = simp(idx[axis])
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        if isinstance(i, int):
            return fs[i](rest)
        r = term(fs[-1](rest))
        for j in range(len(fs) - 2, -1, -1):
            x, r = two(fs[j](rest), r)
            r = z3.If(i == j, x, r)
        return r
    return Arr(run, list(sh[:axis]) + [len(parts)] + list(sh[axis:]), fn, elt)


# ---------------------------------------------------------------- builtins
def b_len(run, a, k):
    v = run.force(a[0])
    if isinstance(v, (list, tuple, dict, str)):
        return len(v)
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, Arr):
        return v.shape[0]
    if isinstance(v, Obj) and "__len__" in v.methods:
        return v.methods["__len__"](run, [], {})
    if v is None or isnum(v):
        raise Raised("TypeError", line=run.line)
    if tterm(v) is not None:
        n = ufun("text_length", TXT, I)(tterm(v))
        run.assume(n >= 0)
        return n
    raise Unsupported("len of %r" % (v,))


def b_range(run, a, k):
    a = [run.force(x) for x in a]
    st, en, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    for x in (st, en, step):
        if not isint(x):
            raise Raised("TypeError", line=run.line)
    if all(isinstance(x, int) for x in (st, en, step)) and abs(en - st) <= 64 * abs(step):
        return list(range(st, en, step))
    if step != 1:
        raise Unsupported("range step")
    n = sub(en, st)
    if not run.entails(term(n) >= 0):
        n = z3.If(term(n) >= 0, term(n), z3.IntVal(0))
    return Seq(n, lambda i: add(st, i), "range")


def b_zip(run, a, k):
    its = [run.iterable(x) for x in a]
    if all(isinstance(i, list) for i in its):
        return [tuple(x) for x in zip(*its)]
    n, fns = None, []
    for i in its:
        m, f = (len(i), lambda j, i=i: run.pick(i, j)) if isinstance(i, list) else i
        fns.append(f)
        if n is None:
            n = m
        elif simp(term(n) == term(m)) is not True and not run.entails(term(n) <= term(m)):
            n = m if run.entails(term(m) <= term(n)) else z3.If(term(n) <= term(m), term(n), term(m))
    return Seq(n, lambda j: tuple(f(j) for f in fns), "zip")


def b_enumerate(run, a, k):
    s = a[1] if len(a) > 1 else k.get("start", 0)
    it = run.iterable(a[0])
    if isinstance(it, list):
        return [(add(s, i), v) for i, v in enumerate(it)]
    n, f = it
    return Seq(n, lambda i: (add(s, i), f(i)), "enumerate")


def b_minmax(run, a, k, mx):
    if k:
        raise Unsupported("min/max key")
    if len(a) == 1:
        it = run.iterable(a[0])
        if not isinstance(it, list):
            return extremum(run, it, mx)
        a = it
        if not a:
            raise Raised("ValueError", line=run.line)
    r = a[0]
    for x in a[1:]:
        if conc(r, x):
            r = max(r, x) if mx else min(r, x)
            continue
        if not isnum(r) or not isnum(x):
            raise Unsupported("min/max")
        p, q = two(r, x)
        if run.entails(p <= q):
            r = x if mx else r
        elif run.entails(q <= p):
            r = r if mx else x
        else:
            r = z3.If(p <= q, q, p) if mx else z3.If(p <= q, p, q)
    return r


def extremum(run, it, mx):
    n, f = it
    if not run.branch(lt(0, n)):
        raise Raised("ValueError", line=run.line)
    w = run.fresh("w", I)
    run.assume(z3.And(w >= 0, w < term(n)))
    v = term(f(w))
    m = run.fresh("ext", v.sort())
    run.assume(m == v)
    run.inst_same(n, w)
    run.foralls.append((n, lambda kk: (m >= term(f(kk))) if mx else (m <= term(f(kk))), []))
    return m


def b_abs(run, a, k):
    v = a[0]
    if isinstance(v, Arr):
        f = v.snap()
        return Arr(run, v.shape, lambda idx: b_abs(run, [f(idx)], {}), v.elt)
    if conc(v):
        return abs(v)
    return z3.If(term(v) >= 0, term(v), -term(v))


def b_int(run, a, k):
    if not a:
        return 0
    v = run.force(a[0])
    if isinstance(v, bool) or conc(v):
        return int(v)
    if isz(v):
        if v.sort() == I:
            return v
        if v.sort() == R:
            return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))) if not run.entails(v >= 0) else z3.ToInt(v)
        if v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Opaque) and v.typ == "str" and v.attrs.get("int") is not None:
        return v.attrs["int"]
    if v is None or isinstance(v, (list, tuple)):
        raise Raised("TypeError", line=run.line)
    raise Unsupported("int of %r" % (v,))


def b_float(run, a, k):
    v = run.force(a[0]) if a else 0.0
    if isinstance(v, Arr):
        f = v.snap()
        return Arr(run, v.shape, f, "real")
    if conc(v):
        return v if isinstance(v, Fraction) else float(v)
    if isz(v) and v.sort() in (I, R):
        return real(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise Raised("ValueError", line=run.line)
    if isinstance(v, Opaque) and v.attrs.get("float") is not None:
        return v.attrs["float"]
    raise Unsupported("float of %r" % (v,))


def floor_(run, v, up):
    if isint(v):
        return v
    if conc(v):
        import math
        return math.ceil(v) if up else math.floor(v)
    t = term(v)
    key = ("fl", up, t.get_id())
    if key in run.memo:
        return run.memo[key][0]
    n = run.fresh("ceil" if up else "floor", I)
    r = z3.ToReal(n)
    run.assume(z3.And(r - 1 < t, t <= r) if up else z3.And(r <= t, t < r + 1))
    if t.get_id() in run.quot:
        _, a, b = run.quot[t.get_id()]
        if isint(a) and isint(b):
            a, b = term(a), term(b)
            run.assume(z3.Implies(b > 0, z3.And((n - 1) * b < a, a <= n * b) if up else z3.And(n * b <= a, a < n * b + b)))
            run.assume(z3.Implies(z3.And(b > 0, a > 0), n >= 1) if up else z3.Implies(z3.And(b > 0, a >= 0), n >= 0))
    run.memo[key] = (n, t)
    return n


def b_round(run, a, k):
    v = a[0]
    if len(a) > 1 or k:
        raise Unsupported("round to digits")
    if isint(v):
        return v
    if conc(v):
        return round(v)
    n = run.fresh("round", I)
    t = term(v)
    run.assume(z3.And(z3.ToReal(n) - t <= z3.RealVal("1/2"), t - z3.ToReal(n) <= z3.RealVal("1/2")))
    return n


def b_isinstance(run, a, k):
    v, t = run.force(a[0]), run.force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    out = []
    for t in ts:
        t = run.force(t)
        if isinstance(t, Class):
            c = v.cls if isinstance(v, Obj) else None
            if isinstance(v, (Opaque,)) :
                raise Unsupported("isinstance of %r" % (v,))
            if isinstance(v, Obj) and not isinstance(v.cls, Class):
                raise Unsupported("isinstance of a stub")

            def sub_(c):
                return c is t or (isinstance(c, Class) and any(sub_(b) for b in c.bases))
            out.append(sub_(c) if c else False)
        elif isinstance(t, Type):
            n = t.name
            if isinstance(v, Opaque):
                if v.typ is None:
                    raise Unsupported("isinstance of %r" % (v,))
                out.append(v.typ == n)
            elif isinstance(v, Seq):
                out.append(v.typ == n)
            elif isz(v):
                out.append({"int": v.sort() == I, "float": v.sort() == R, "bool": v.sort() == B}.get(n, False))
            elif isinstance(v, Arr):
                out.append(n == "ndarray")
            elif isinstance(v, Obj):
                out.append(False)
            else:
                py = {"int": int, "float": (float, Fraction), "str": str, "list": list, "tuple": tuple, "dict": dict, "bool": bool, "bytes": bytes}.get(n)
                if py is None:
                    raise Unsupported("isinstance %s" % n)
                out.append(isinstance(v, py))
        else:
            raise Unsupported("isinstance")
    return any(out)


def b_getattr(run, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr")
    try:
        return run.getattr(a[0], a[1])
    except Raised as e:
        if e.cls == "AttributeError" and len(a) > 2:
            return a[2]
        raise


def b_hasattr(run, a, k):
    try:
        run.getattr(a[0], a[1])
        return True
    except Raised:
        return False


def b_setattr(run, a, k):
    run.setattr(a[0], a[1], a[2])


def b_sum(run, a, k):
    r = a[1] if len(a) > 1 else 0
    for x in run.items(a[0]):
        r = run.bin(ast.Add(), r, x)
    return r


def b_any(run, a, k):
    return anyall(run, a, True)


def anyall(run, a, any_):
    it = run.iterable(a[0])
    if isinstance(it, list):
        for x in it:
            if run.truth(x) == any_:
                return any_
        return not any_
    n, f = it
    if run.choice([False, True]):
        i = run.fresh("it", I)
        run.assume(z3.And(i >= 0, i < term(n)))
        v = f(i)
        run.assume(term(v) if any_ else z3.Not(term(v)))
        if run.sat(z3.BoolVal(True)) == z3.unsat:
            raise Prune()
        return any_
    run.foralls.append((n, lambda kk: z3.Not(term(f(kk))) if any_ else term(f(kk)), []))
    return not any_


def b_map(run, a, k):
    its = [run.iterable(x) for x in a[1:]]
    if all(isinstance(i, list) for i in its):
        return [run.call(a[0], list(x), {}) for x in zip(*its)]
    if len(its) != 1:
        raise Unsupported("map")
    n, f = its[0]
    return Seq(n, lambda i: run.call(a[0], [f(i)], {}), "map")


def b_seq(typ):
    def f(run, a, k):
        if not a:
            return () if typ == "tuple" else []
        it = run.iterable(a[0])
        if isinstance(it, list):
            return tuple(it) if typ == "tuple" else list(it)
        return Seq(it[0], it[1], typ)
    return f


def b_str(run, a, k):
    v = a[0] if a else ""
    return v if isinstance(v, (str,)) or (isinstance(v, Opaque) and v.typ == "str") else Opaque("text", "str", truth=True)


def b_type(run, a, k):
    v = run.force(a[0])
    if isinstance(v, Obj) and isinstance(v.cls, Class):
        return v.cls
    return Opaque("type", "type", truth=True)


def b_sorted(run, a, k):
    raise Unsupported("sorted")


def b_reversed(run, a, k):
    it = run.iterable(a[0])
    if isinstance(it, list):
        return it[::-1]
    n, f = it
    return Seq(n, lambda i: f(sub(sub(n, 1), i)), "list")


def b_divmod(run, a, k):
    return (run.bin(ast.FloorDiv(), a[0], a[1]), run.bin(ast.Mod(), a[0], a[1]))


def b_pow(run, a, k):
    return run.bin(ast.Pow(), a[0], a[1])


def b_next(run, a, k):
    o = run.force(a[0])
    if isinstance(o, Obj) and isinstance(o.cls, Class) and o.cls.find("__next__"):
        return run.call(Bound(o.cls.find("__next__"), o), [], {})
    raise Unsupported("next")


BUILTINS = {n: Builtin(n, f) for n, f in {
    "len": b_len, "range": b_range, "zip": b_zip, "enumerate": b_enumerate, "min": lambda r, a, k: b_minmax(r, a, k, False), "max": lambda r, a, k: b_minmax(r, a, k, True), "abs": b_abs,
    "round": b_round, "isinstance": b_isinstance, "getattr": b_getattr, "setattr": b_setattr, "hasattr": b_hasattr, "sum": b_sum, "any": b_any, "all": lambda r, a, k: anyall(r, a, False), "map": b_map,
    "sorted": b_sorted, "reversed": b_reversed, "divmod": b_divmod, "pow": b_pow, "next": b_next, "print": lambda r, a, k: None, "iter": lambda r, a, k: a[0], "repr": b_str, "type": b_type,
    "set": b_seq("tuple")}.items()}
BUILTINS.update({"int": Type("int", b_int), "float": Type("float", b_float), "str": Type("str", b_str), "bool": Type("bool", lambda r, a, k: r.truth(a[0])), "list": Type("list", b_seq("list")),
                 "tuple": Type("tuple", b_seq("tuple")), "dict": Type("dict", lambda r, a, k: dict(k) if not a else dict(a[0]) if isinstance(a[0], dict) else {x: y for x, y in r.items(a[0])}),
                 "bytes": Type("bytes"), "object": Type("object"), "slice": Type("slice", lambda r, a, k: Slice(*([None] * (1 if len(a) == 1 else 0) + list(a) + [None] * (3 - max(2, len(a)))))),
                 "__name__": "module", "True": True, "False": False, "None": None})


# ---------------------------------------------------------------- numpy / math / logging
def rad(v):
    import math
    return mul(v, Fraction(repr(math.pi)) / 180)


def trig(run, v, fn):
    if isinstance(v, Arr):
        f = v.snap()
        return Arr(run, v.shape, lambda idx: trig(run, f(idx), fn), "real")
    if fn == "radians":
        run.ghost.setdefault("pi", True)
        import math
        return real(v) * term(math.pi) / z3.RealVal(180)
    t = z3.simplify(real(v), som=True)
    run.assume(COS(t) * COS(t) + SIN(t) * SIN(t) == 1)
    return COS(t) if fn == "cos" else SIN(t)


def np_linspace(run, a, k):
    names = ["start", "stop", "num", "endpoint"]
    p = dict(zip(names, a))
    p.update(k)
    if set(p) - set(names) or p.get("endpoint", True) is not True or "num" not in p:
        raise Unsupported("linspace options")
    start, stop, n = real(p["start"]), real(p["stop"]), p["num"]
    if not isint(n):
        raise Raised("TypeError", line=run.line)
    if not run.branch(le(0, n)):
        raise Raised("ValueError", line=run.line)
    key = ("lin", start.get_id(), stop.get_id(), term(n).get_id())
    if key not in run.memo:
        step = run.fresh("step", R)
        m = z3.ToReal(term(n)) - 1
        run.assume(z3.Implies(term(n) > 1, step * m == stop - start))
        run.assume(z3.Implies(term(n) <= 1, step == 0))
        for q in consts_of(stop):
            # n > 1 and stop - start == q (n-1) imply step == q (cancellation)
            run.assume(z3.Implies(z3.And(term(n) > 1, stop - start == q * m), step == q))
        run.memo[key] = (step, start, stop, term(n))
    step = run.memo[key][0]
    return Arr(run, [n], lambda idx: start + z3.ToReal(term(idx[0])) * step, "real")


def consts_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.sort() == R and not z3.is_rational_value(x):
            out.append(x)
        st.extend(x.children())
    return out


def np_meshgrid(run, a, k):
    if k.get("indexing") != "ij":
        if k.get("indexing", "xy") == "xy" and len(a) in (2, 3) and set(k) <= {"indexing"}:
            xs = [run.asarray(x) for x in a]
            fs = [x.snap() for x in xs]
            sh = [xs[1].shape[0], xs[0].shape[0]] + [x.shape[0] for x in xs[2:]]
            pos = [1, 0, 2]
            return [Arr(run, sh, lambda idx, f=f, p=p: f((idx[p],)), x.elt) for f, p, x in zip(fs, pos, xs)]
        raise Unsupported("meshgrid options")
    if set(k) - {"indexing"}:
        raise Unsupported("meshgrid options")
    xs = [run.asarray(x) for x in a]
    if any(len(x.shape) != 1 for x in xs):
        raise Unsupported("meshgrid of arrays")
    fs = [x.snap() for x in xs]
    sh = [x.shape[0] for x in xs]
    return [Arr(run, sh, lambda idx, f=f, i=i: f((idx[i],)), x.elt) for i, (f, x) in enumerate(zip(fs, xs))]


def shape_arg(run, v):
    return [v] if isint(v) else list(run.items(v))


def dtype_kind(run, k, default="real"):
    d = k.get("dtype")
    if d is None:
        return default
    if isinstance(d, Type):
        n = d.name
        if n in ("float", "float64", "float32"):
            return "real"
        if n in ("int", "int64", "intp"):
            return "int"
    raise Unsupported("dtype")


def np_full(val):
    def f(run, a, k):
        sh = shape_arg(run, a[0] if a else k["shape"])
        kind = dtype_kind(run, dict(k, dtype=a[1]) if len(a) > 1 else k)
        if val is None:
            u = run.fresh("mem", z3.ArraySort(I, R if kind == "real" else I))
            g = ufun("empty%d_%d" % (run.fresh_n, len(sh)), *([I] * len(sh) + [R if kind == "real" else I]))
            return Arr(run, sh, lambda idx: g(*[term(i) for i in idx]), kind)
        c = z3.RealVal(val) if kind == "real" else z3.IntVal(val)
        return Arr(run, sh, lambda idx: c, kind)
    return f


def np_like(val):
    def f(run, a, k):
        x = run.asarray(a[0])
        return np_full(val)(run, [tuple(x.shape)], dict(k) if "dtype" in k else {"dtype": Type("int" if x.elt == "int" else "float")})
    return f


def np_stack(run, a, k):
    parts = [run.asarray(x) for x in run.items(a[0])]
    ax = a[1] if len(a) > 1 else k.get("axis", 0)
    if not isinstance(ax, int) or set(k) - {"axis"}:
        raise Unsupported("stack")
    return stack(run, parts, ax)


def np_arange(run, a, k):
    p = dict(zip(["start", "stop", "step"], a)) if len(a) > 1 else {"start": 0, "stop": a[0]} if a else {}
    p.update({x: y for x, y in k.items() if x != "dtype"})
    p.setdefault("start", 0)
    if p.get("stop") is None:
        p["start"], p["stop"] = 0, p["start"]
    st, en, step = p["start"], p["stop"], p.get("step", 1)
    if not all(isint(x) for x in (st, en, step)) or set(p) - {"start", "stop", "step"}:
        raise Unsupported("arange of reals")
    dtype_kind(run, k, "int")
    if isinstance(step, int) and step == 1:
        n = sub(en, st)
        if not run.entails(term(n) >= 0):
            n = z3.If(term(n) >= 0, term(n), z3.IntVal(0))
        return Arr(run, [n], lambda idx: add(st, idx[0]), "int")
    if not run.branch(term(step) != 0):
        raise Raised("ZeroDivisionError", line=run.line)
    if not run.branch(term(step) > 0):
        raise Unsupported("descending arange")
    n = run.fresh("n", I)
    d, s = term(sub(en, st)), term(step)
    run.assume(n >= 0)
    run.assume(z3.If(d <= 0, n == 0, z3.And(n >= 1, (n - 1) * s < d, d <= n * s)))
    # (if d is a positive multiple q*s then n is q: cancellation, one instance per factor)
    for q in int_factors(d, s):
        run.assume(z3.Implies(z3.And(q >= 0, d == q * s), n == q))
    return Arr(run, [n], lambda idx: add(st, mul(idx[0], step)), "int")


def int_factors(d, s):
    """candidate quotients of d by s"""
    out = []
    d2 = z3.simplify(d, som=True)
    parts = d2.children() if z3.is_add(d2) else [d2]
    q = []
    for p in parts:
        f = list(p.children()) if z3.is_mul(p) else [p]
        i = next((j for j, x in enumerate(f) if x.eq(s)), None)
        if i is None:
            return out
        f.pop(i)
        q.append(z3.Product(f) if len(f) > 1 else f[0] if f else z3.IntVal(1))
    return [z3.Sum(q) if len(q) > 1 else q[0]]


def np_array(run, a, k):
    v = run.force(a[0])
    x = run.asarray(v)
    f = x.snap()
    d = k.get("dtype") if "dtype" in k else (a[1] if len(a) > 1 else None)
    kind = dtype_kind(run, {"dtype": d}, x.elt)
    if kind == "int" and x.elt == "real":
        raise Unsupported("integer array of reals")
    r = Arr(run, list(x.shape), f, kind)
    return r


def np_asarray(run, a, k):
    v = run.force(a[0])
    if isinstance(v, Arr) and not k and len(a) == 1:
        return v
    return np_array(run, a, k)


def np_float64(run, a, k):
    v = run.force(a[0])
    if isinstance(v, (list, tuple, Seq)):
        v = run.asarray(v)
    if isinstance(v, Arr):
        # an array with one element becomes a scalar
        if run.branch(z3.And([term(n) == 1 for n in v.shape]) if v.shape else True):
            return real(v.get([0] * len(v.shape)))
    return b_float(run, [v], {})


def np_minmax(mx):
    def f(run, a, k):
        if k or len(a) != 1:
            raise Unsupported("min/max axis")
        v = run.asarray(a[0])
        if len(v.shape) != 1:
            raise Unsupported("min/max of a matrix")
        s = v.snap()
        n = simp(v.shape[0])
        if isinstance(n, int):
            return b_minmax(run, [[s((i,)) for i in range(n)]], {}, mx)
        return extremum(run, (n, lambda i: s((i,))), mx)
    return f


def arr_sort(run, a, x, k):
    """in place; the contract used here: sorting an array that is already sorted leaves it as it is (a precondition of the property)"""
    if run.ghost.get("sorted") is None:
        raise Unsupported("sort")
    run.ghost["sorted"](run, a)
    return None


def np_sort(run, a, k):
    v = np_array(run, a, {})
    arr_sort(run, v, [], {})
    return v


def searchsorted(run, a, x, k):
    """contract of searchsorted(left) on a sorted array s: index p with s[p-1] < v <= s[p]"""
    if k or len(x) != 1:
        if k.get("side") != "left" or set(k) - {"side"}:
            raise Unsupported("searchsorted options")
    s, n = a.snap(), a.shape[0]
    if run.ghost.get("sorted") is None:
        raise Unsupported("searchsorted")
    v = run.asarray(x[0])
    f = v.snap()
    key = a.name
    i0 = z3.Const("ss_i", I)
    P = ufun("searchsorted_%s" % z3.simplify(term(s((i0,)))).sexpr(), R, I)

    def fact(t, p):
        cs = [p >= 0, p <= term(n)]
        # instances of sortedness are supplied with the position
        cs.append(z3.Implies(p > 0, real(s((p - 1,))) < t))
        cs.append(z3.Implies(p < term(n), t <= real(s((p,)))))
        if run.ghost.get("ss_extra"):
            cs += run.ghost["ss_extra"](s, n, t, p)
        return z3.And(cs)
    scal = isnum(run.force(x[0]))
    if scal:
        t = real(x[0])
        run.assume(fact(t, P(t)))
        return P(t)

    def elem(idx):
        return P(real(f(idx)))
    m = v.shape[0]
    run.foralls.append((m, lambda kk: fact(real(f((kk,))), P(real(f((kk,))))), []))
    return Arr(run, list(v.shape), elem, "int")


def arr_copy(run, a, x, k):
    f = a.snap()
    return Arr(run, list(a.shape), f, a.elt)


def arr_astype(run, a, x, k):
    kind = dtype_kind(run, {"dtype": x[0]})
    if kind == "int" and a.elt == "real":
        raise Unsupported("astype int")
    return arr_copy(run, a, x, k)


def flat_functions(run, S):
    """row-major numbering of a box and its inverse"""
    S = [simp(term(d)) if not isinstance(d, int) else d for d in S]
    key = "|".join(str(d) for d in S)
    fl = ufun("flat[%s]" % key, *([I] * (len(S) + 1)))
    un = [ufun("unflat%d[%s]" % (j, key), I, I) for j in range(len(S))]
    n = 1
    for d in S:
        n = mul(n, d)
    n = simp(n) if isz(n) else n
    run.ghost.setdefault("flat", [])
    if not any(simp(term(m) == term(n)) is True and len(T) == len(S) and all(simp(term(x) == term(y)) is True for x, y in zip(S, T)) for m, T, _, _ in run.ghost["flat"]):
        run.ghost["flat"].append((n, S, fl, un))

    def num(idx):
        idx = [term(i) for i in idx]
        p = fl(*idx)
        inside = z3.And([z3.And(i >= 0, i < term(d)) for i, d in zip(idx, S)])
        run.assume(z3.Implies(inside, z3.And([u(p) == i for u, i in zip(un, idx)] + [p >= 0, p < term(n)])))
        return p
    return n, num, lambda p: tuple(u(term(p)) for u in un)


def arr_ravel(run, a, x, k):
    if x or k:
        raise Unsupported("ravel")
    if len(a.shape) == 1:
        return arr_copy(run, a, [], {})
    n, num, un = flat_functions(run, a.shape)
    f = a.snap()
    r = Arr(run, [n], lambda idx: f(un(idx[0])), a.elt)
    alias(a, r)
    return r


def alias(a, r):
    """r may share its memory with a: from now on only one of them may be written, and the other is not used then"""
    while a.base is not None:
        a = a.base
    snap, write = a.snap, r.write
    stale = [False]

    def no_write(region, val, rn):
        raise Unsupported("store into an array that was reshaped")

    def r_write(region, val, rn):
        stale[0] = True
        return write(region, val, rn)

    def a_snap():
        if stale[0]:
            raise Unsupported("array changed through a reshaped one")
        return snap()
    a.write, r.write, a.snap = no_write, r_write, a_snap


def arr_reshape(run, a, x, k):
    if k or not x:
        raise Unsupported("reshape")
    T = list(x[0]) if isinstance(x[0], (tuple, list)) else list(x)
    S, f = list(a.shape), a.snap()
    T = [run.force(t) for t in T]
    neg = [i for i, t in enumerate(T) if isinstance(t, int) and t == -1]
    same = lambda p, q: len(p) == len(q) and all(simp(term(u) == term(w)) is True or run.entails(term(u) == term(w)) for u, w in zip(p, q))
    if len(neg) > 1:
        raise Raised("ValueError", line=run.line)
    r = None
    if len(T) == len(S) and (same(T, S) or neg and same(T[:neg[0]] + T[neg[0] + 1:], S[:neg[0]] + S[neg[0] + 1:])):
        r = Arr(run, S, f, a.elt)
    elif T == [-1]:
        r = arr_ravel(run, a, [], {})
    elif len(T) == len(S) + 1 and isinstance(T[-1], int) and T[-1] in (1, -1) and same(T[:-1], S):
        r = Arr(run, S + [1], lambda idx: f(tuple(idx)[:-1]), a.elt)
    elif len(T) == 2 and len(S) == 1 and T[0] == 1 and (neg == [1] or same(T[1:], S)):
        r = Arr(run, [1, S[0]], lambda idx: f((idx[1],)), a.elt)
    elif len(T) == 2 and neg == [0] and same(T[1:], S[-1:]):
        n, num, un = flat_functions(run, S[:-1])
        r = Arr(run, [n, S[-1]], lambda idx: f(un(idx[0]) + (idx[1],)), a.elt)
    elif len(S) in (1, 2):
        for n, U, fl, un in run.ghost.get("flat", []):
            if simp(term(n) == term(S[0])) is True and same(T[:len(U)], U) and (len(S) == 1 and len(T) == len(U) or len(S) == 2 and len(T) == len(U) + 1 and (neg == [len(U)] or same(T[-1:], S[-1:]))):
                num = flat_functions(run, U)[1]
                r = Arr(run, list(U) + S[1:], lambda idx, m=len(U): f((num(idx[:m]),) + tuple(idx[m:])), a.elt)
                break
    if r is None:
        raise Unsupported("reshape of %s to %s" % (S, T))

    alias(a, r)
    return r


def arr_transpose(run, a, x, k):
    if x and not (len(x) == 1 and x[0] is None) or k:
        ax = list(x[0]) if x and isinstance(x[0], (tuple, list)) else list(x)
        ax = ax or list(k.get("axes") or [])
        if sorted(ax) != list(range(len(a.shape))) or set(k) - {"axes"}:
            raise Unsupported("transpose")
    else:
        ax = list(range(len(a.shape)))[::-1]
    f = a.snap()
    return Arr(run, [a.shape[i] for i in ax], lambda idx: f(tuple(idx[ax.index(i)] for i in range(len(ax)))), a.elt)


def np_vstack(run, a, k):
    rows = []
    for v in run.items(a[0]):
        v = run.asarray(v)
        if len(v.shape) == 2 and isinstance(v.shape[0], int):
            f = v.snap()
            rows += [Arr(run, [v.shape[1]], lambda idx, i=i, f=f: f((i, idx[0])), v.elt) for i in range(v.shape[0])]
        elif len(v.shape) == 1:
            rows.append(v)
        else:
            raise Unsupported("vstack")
    return stack(run, rows, 0)


def np_maximum(mx):
    def f(run, a, k):
        if len(a) != 2 or k:
            raise Unsupported("maximum")
        x, y = run.asarray(a[0]), run.asarray(a[1])
        pick_ = lambda u, w: z3.If(u >= w, u, w) if mx else z3.If(u <= w, u, w)
        return run.elementwise(lambda u, w: pick_(*two(term(u), term(w))), x, y, "real")
    return f


def np_argmin(run, a, k):
    """position of a smallest element (of an array of one dimension)"""
    x = run.asarray(a[0])
    if len(x.shape) != 1 or k or len(a) > 1:
        raise Unsupported("argmin")
    f, n = x.snap(), x.shape[0]
    if not run.branch(term(n) >= 1):
        raise Raised("ValueError", line=run.line)
    p = run.fresh("argmin", I)
    run.assume(z3.And(p >= 0, p < term(n)))
    for g in run.ghost.get("argmin_at", []):
        run.assume(z3.Implies(z3.And(g >= 0, g < term(n)), real(f((p,))) <= real(f((g,)))))
    for h in run.ghost.get("argmin_hooks", []):
        h(p, n)
    return p


def np_vectorize(run, a, k):
    """elementwise application; without otypes the values have to be floats already (numpy takes the type of the first one)"""
    fn, ot = a[0], k.get("otypes")
    if len(a) > 1 or set(k) - {"otypes"}:
        raise Unsupported("vectorize")
    if ot is not None and not all(isinstance(run.force(t), Type) and run.force(t).name in ("float", "float64") for t in run.items(ot)):
        raise Unsupported("otypes")

    def call(rn, args, kw):
        if kw:
            raise Unsupported("keywords of a vectorized function")
        ar = []
        for v in args:
            v = run.force(v)
            if isinstance(v, Obj) and "vector" in v.attrs:
                ar.append(v.attrs["vector"])
            elif isinstance(v, Arr) and len(v.shape) == 1:
                f = v.snap()
                ar.append((v.shape[0], lambda i, f=f: f((i,))))
            elif isinstance(v, Arr):
                raise Unsupported("vectorize over several dimensions")
            else:
                ar.append((None, lambda i, v=v: v))
        ns = [n for n, _ in ar if n is not None]
        if not ns:
            raise Unsupported("vectorize of scalars")
        for m in ns[1:]:
            if simp(term(m) == term(ns[0])) is not True and not run.branch(eq(m, ns[0])):
                raise Raised("ValueError", line=run.line)

        def value(w):
            w = run.force(w)
            if ot is not None:
                w = b_float(run, [w], {})
            if not isnum(w) or isint(w):
                raise Unsupported("type of a vectorized function")
            return real(w)
        one = lambda i: run.call(fn, [f(i) for _, f in ar], {})
        probe = one(run.fresh("i", I))
        if isinstance(probe, (tuple, list)):
            for w in probe:
                value(w)
            return tuple(Arr(run, [ns[0]], lambda idx, c=c: value(one(idx[0])[c]), "real") for c in range(len(probe)))
        value(probe)
        return Arr(run, [ns[0]], lambda idx: value(one(idx[0])), "real")
    return Builtin("vectorized", call)


def np_diff(run, a, k):
    x = run.asarray(a[0])
    if len(x.shape) != 1 or k or len(a) > 1:
        raise Unsupported("diff")
    f = x.snap()
    return Arr(run, [sub(x.shape[0], 1)], lambda idx: run.num(ast.Sub(), f((add(idx[0], 1),)), f((idx[0],))), x.elt)


def np_std(run, a, k):
    if len(a) != 1 or k:
        raise Unsupported("std")
    x = run.asarray(a[0])
    d = run.fresh("std", R)
    run.assume(d >= 0)
    run.ghost.setdefault("std", []).append((list(x.shape), x.snap(), d))
    return d


def np_mean(run, a, k):
    """between the smallest and the largest element (not used otherwise)"""
    if len(a) != 1 or k:
        raise Unsupported("mean")
    x = run.asarray(a[0])
    d = run.fresh("mean", R)
    if len(x.shape) == 1:
        j, m = run.fresh("smaller", I), run.fresh("larger", I)
        n, f = term(x.shape[0]), x.snap()
        run.assume(z3.Implies(n >= 1, z3.And(j >= 0, j < n, m >= 0, m < n, real(f((j,))) <= d, d <= real(f((m,))))))
    return d


ARRAY_METHODS = {"ravel": arr_ravel, "flatten": arr_ravel, "reshape": arr_reshape, "transpose": arr_transpose, "copy": arr_copy, "astype": arr_astype, "sort": arr_sort, "searchsorted": searchsorted, "min": lambda r, a, x, k: np_minmax(False)(r, [a] + x, k), "max": lambda r, a, x, k: np_minmax(True)(r, [a] + x, k),
                 "tolist": lambda r, a, x, k: Seq(a.shape[0], (lambda f: lambda i: f((i,)))(a.snap()), "list") if len(a.shape) == 1 else bad("tolist")}


def bad(m):
    raise Unsupported(m)


def np_string(run, a, k):
    v = run.force(a[0])
    if isinstance(v, str):
        v = v.encode()
    if isinstance(v, bytes):
        return v
    if isinstance(v, Opaque) and v.term is not None:
        if v.typ == "str":
            if not v.attrs.get("ascii"):          # numpy encodes a str as ASCII
                raise Raised("UnicodeEncodeError", line=run.line)
        return Opaque(v.name, "bytes", truth=v.truth, term=v.term)
    return Opaque("text", "bytes", truth=True)


def np_elementwise(fn):
    def f(run, a, k):
        v = run.force(a[0])
        if k or len(a) != 1:
            raise Unsupported("numpy options")
        if isinstance(v, (list, tuple, Seq)):
            v = run.asarray(v)
        if isinstance(v, Arr):
            s = v.snap()
            return Arr(run, v.shape, lambda idx: fn(run, s(idx)), "real")
        return fn(run, v)
    return f


def np_broadcast_to(run, a, k):
    v = run.asarray(a[0])
    return run.elementwise(lambda x, y: x, v, np_full("0")(run, [a[1]], {}), v.elt)


def np_where(run, a, k):
    if len(a) != 3 or k:
        raise Unsupported("where")
    c, x, y = [v if isnum(run.force(v)) and not isinstance(v, Arr) else run.asarray(v) for v in a]
    if not isinstance(c, Arr) or c.elt != "bool":
        raise Unsupported("condition of where")
    elts = [v.elt if isinstance(v, Arr) else "real" for v in (x, y)]
    pairs = run.elementwise(lambda u, w: (u, w), x, y, "real")
    if elts == ["int", "int"]:
        return run.elementwise(lambda q, p: z3.If(term(q), term(p[0]), term(p[1])), c, pairs, "int")
    return run.elementwise(lambda q, p: z3.If(term(q), real(p[0]), real(p[1])), c, pairs, "real")


def np_full_value(like):
    def f(run, a, k):
        k = dict(k)
        v = run.force(a[1] if len(a) > 1 else k.pop("fill_value", None))
        if not isnum(v) or len(a) > 3:
            raise Unsupported("full")
        x = run.asarray(a[0]) if like else None
        sh = list(x.shape) if like else shape_arg(run, a[0])
        if len(a) > 2:
            k["dtype"] = a[2]
        if "dtype" in k:
            kind = dtype_kind(run, k)
        else:
            kind = x.elt if like else "int" if isinstance(v, int) or z3.is_expr(v) and v.sort() == I else "real"
        if kind == "int" and not (isinstance(v, int) or z3.is_expr(v) and v.sort() == I) or kind not in ("int", "real"):
            raise Unsupported("full")
        c = term(v) if kind == "int" else real(v)
        return Arr(run, sh, lambda idx: c, kind)
    return f


def f_fabs(run, v):
    return b_abs(run, [real(v)], {})


def f_sqrt(run, v):
    return run.root(v, 2)


def numpy_lib():
    B_ = lambda n, f: Builtin("numpy." + n, f)
    m = {"linspace": np_linspace, "meshgrid": np_meshgrid, "zeros": np_full("0"), "ones": np_full("1"), "empty": np_full(None), "zeros_like": np_like("0"), "ones_like": np_like("1"), "empty_like": np_like(None),
         "stack": np_stack, "arange": np_arange, "array": np_array, "asarray": np_asarray, "min": np_minmax(False), "max": np_minmax(True), "amin": np_minmax(False), "amax": np_minmax(True),
         "ix_": lambda r, a, k: Ix(list(a)), "cos": np_elementwise(lambda r, v: trig(r, v, "cos")), "sin": np_elementwise(lambda r, v: trig(r, v, "sin")), "sort": np_sort,
         "searchsorted": lambda r, a, k: searchsorted(r, r.asarray(a[0]), a[1:], k), "radians": np_elementwise(lambda r, v: trig(r, v, "radians")), "deg2rad": np_elementwise(lambda r, v: trig(r, v, "radians")),
         "abs": b_abs, "absolute": b_abs, "fabs": b_abs, "string_": np_string, "bytes_": np_string, "broadcast_to": np_broadcast_to, "where": np_where, "full": np_full_value(False), "full_like": np_full_value(True),
         "floor": np_elementwise(lambda r, v: real(floor_(r, v, False))), "ceil": np_elementwise(lambda r, v: real(floor_(r, v, True))), "sqrt": np_elementwise(f_sqrt),
         "transpose": lambda r, a, k: arr_transpose(r, r.asarray(a[0]), a[1:], k), "ravel": lambda r, a, k: arr_ravel(r, r.asarray(a[0]), a[1:], k), "reshape": lambda r, a, k: arr_reshape(r, r.asarray(a[0]), a[1:], k),
         "vstack": np_vstack, "maximum": np_maximum(True), "minimum": np_maximum(False), "argmin": np_argmin, "vectorize": np_vectorize, "diff": np_diff, "std": np_std, "mean": np_mean}
    m = {k: B_(k, v) for k, v in m.items()}
    import math
    m.update({"float64": Type("float64", np_float64), "float32": Type("float32", np_float64), "int64": Type("int64", b_int), "intp": Type("intp", b_int), "ndarray": Type("ndarray"), "newaxis": None, "pi": Fraction(repr(math.pi))})
    return m


def math_lib():
    import math
    B_ = lambda n, f: Builtin("math." + n, f)
    one = lambda f: (lambda run, a, k: f(run, run.force(a[0])))
    m = {"ceil": one(lambda r, v: floor_(r, v, True)), "floor": one(lambda r, v: floor_(r, v, False)), "cos": one(lambda r, v: trig(r, v, "cos")), "sin": one(lambda r, v: trig(r, v, "sin")),
         "radians": one(lambda r, v: trig(r, v, "radians")), "fabs": one(f_fabs), "sqrt": one(f_sqrt), "cbrt": one(lambda r, v: r.root(v, 3)), "pow": lambda r, a, k: r.bin(ast.Pow(), a[0], a[1]),
         "isclose": lambda r, a, k: bad("isclose"), "trunc": one(lambda r, v: b_int(r, [v], {}))}
    m = {k: B_(k, v) for k, v in m.items()}
    m["pi"] = Fraction(repr(math.pi))
    return m


def logger_obj():
    nop = lambda run, a, k: None
    return Obj("logger", methods={n: nop for n in ("info", "debug", "warning", "warn", "error", "critical", "exception", "log", "setLevel")})


def base_lib():
    lg = lambda run, a, k: logger_obj()
    nop = lambda run, a, k: None
    return {"numpy": numpy_lib(), "math": math_lib(),
            "logging": dict({n: Builtin(n, nop) for n in ("info", "debug", "warning", "error", "basicConfig")}, getLogger=Builtin("getLogger", lg), INFO=20, DEBUG=10),
            "json": {"dumps": Builtin("json.dumps", lambda run, a, k: Opaque("json", "str", truth=True, term=getattr(a[0], "term", None), attrs={"ascii": k.get("ensure_ascii", True) is True}))},
            "typing": {n: Type(n) for n in ("List", "Dict", "Tuple", "Optional", "Union", "Sequence", "Any")},
            "dataclasses": {"dataclass": Builtin("dataclass", lambda run, a, k: a[0]), "field": Builtin("field", lambda run, a, k: None)},
            "os": {}, "sys": {}}


# ---------------------------------------------------------------- tasks
class PyTask:
    """setup(run) -> dict(func= | call=, args=, kwargs=, inputs=); post(run, env, ret) / exc_post(run, env, exc) -> [(name, goal)]"""

    def __init__(self, func, setup, post, exc_post=None, name=None, contracts=None, lib=None, timeout=None, budget=200):
        self.func, self.setup, self.post, self.exc_post = func, setup, post, exc_post
        self.name = name or func
        self.contracts, self.lib, self.timeout, self.budget = contracts or {}, lib or {}, timeout, budget


def run_pytask(prog, task):
    from .verify import Result, solve, mval
    from .nl import prove_nl
    r = Result(task.name)
    t0 = time.time()
    lib = base_lib()
    lib.update(task.lib)
    run = Run(prog, task.contracts, lib, t0 + task.budget)
    state = {"n": 0, "pre": False}

    def add_ob(nm, goal, env, kind="post"):
        goals = [goal]
        from .verify import AnyOf
        if isinstance(goal, AnyOf):
            goal = z3.Or(goal.goals)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        d = {"name": "%s (path %d)" % (nm, state["n"]), "kind": kind, "func": task.func, "line": run.line or 0, "task": task.name}
        if time.time() > t0 + task.budget:
            d.update(status="unknown", backend="budget", time=0.0)
            r.obligations.append(d)
            return
        t1 = time.time()
        st, be, m = "proved", "z3", None
        for g in (goal.children() if z3.is_and(goal) else [goal]):
            s1, be, m, _ = solve(run.pc, g, 2000)
            if s1 == "unknown":
                try:
                    if prove_nl(run.pc, g, 6000):
                        s1, be = "proved", "z3(nl)"
                except z3.Z3Exception:
                    pass
            if s1 == "unknown":
                s1, be, m, _ = solve(run.pc, g, task.timeout or 10000)
            if s1 != "proved":
                st = s1
                break
        d.update(status=st, backend=be, time=round(time.time() - t1, 4), imprecise=bool(run.foralls) or run.loose)
        r.solver_time += time.time() - t1
        if m is not None:
            d["model"] = {k: mval(m, term(t)) for k, t in env.get("inputs", {}).items()}
        r.obligations.append(d)

    def body():
        state["n"] += 1
        env = task.setup(run) or {}
        if not state["pre"]:
            state["pre"] = True
            r.vacuous = run.sat(z3.BoolVal(True)) == z3.unsat
        f = env.get("func") or run.find(task.func)
        try:
            if env.get("call"):
                ret = env["call"](run)
            else:
                ret = run.callfn(f, list(env["args"]), dict(env.get("kwargs", {})), top=True)
        except Raised as e:
            gs = task.exc_post(run, env, e) if task.exc_post else [("no exception escapes (%s line %s)" % (e.cls, e.line), False)]
            if run.sat(z3.BoolVal(True)) == z3.unsat:
                return
            for nm, g in gs:
                add_ob(nm, g, env)
            return
        except (Brk, Cont):
            raise Unsupported("break")
        if run.sat(z3.BoolVal(True)) == z3.unsat:
            return
        for nm, g in task.post(run, env, ret):
            add_ob(nm, g, env)
    try:
        run.explore(body)
        if not r.obligations and not r.vacuous:
            r.unsupported = "no obligation was generated"
    except Unsupported as e:
        r.unsupported = "%s (line %s)" % (e, run.line)
    except Exception:
        r.error = traceback.format_exc()
    r.inlined = sorted(run.inlined)
    r.contracts_used = sorted(run.used)
    r.externals = sorted(run.externals)
    r.solver_time += run.solver_time
    r.time = time.time() - t0
    return r
