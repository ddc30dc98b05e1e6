"""Symbolic executor for the clang AST of the real sources: generates proof obligations function by function."""
import time
import z3
from .core import *
from .front import node_type, parse_type, Func, FrontError
from . import lib, nl


class Frame:
    __slots__ = ("func", "rets", "this", "cls", "depth", "alive")

    def __init__(self, func, this, cls):
        self.func, self.rets, self.this, self.cls, self.alive = func, [], this, cls, 0


class Exec:
    MAXDEPTH = 14

    def __init__(self, prog, contracts=None, inline_only=None):
        self.prog = prog
        self.lay = Layouts(prog)
        self.contracts = dict(contracts or {})
        self.obls = []
        self.quiet = 0
        self.frames = []
        self.throws = [[]]
        self.loops = []
        self.N0 = ival(1000000)
        self.B0 = ival(1000000)
        self.hsorts, self.msorts = {}, {}
        self.fcodes, self.fcode_rev = {}, {}
        self.used_contracts, self.inlined, self.externals, self.notes = set(), set(), set(), set()
        self.imprecise = []
        self.hvnames, self.hvfacts, self.keep = set(), set(), []
        self.facts = []
        self.solver_time = 0.0
        self.nqueries = 0
        self.kinds = None
        self.hooks = {}
        self.line = 0
        self.opaque_throw = False
        self.numeric_literals = set()
        self.deadline = None
        self.static_locals = {}
        self.skolem = {}
        self.insum = 0
        self.addrof = False
        self.nlcache = {}
        self.nnconst = {}
        self.nlabs = nl.Abs()
        self.defs = []
        self.reffields = {}
        self.dyncls = {}
        self.curexc = []

    # ------------------------------------------------------------------ solver helpers
    def check(self, st, extra=(), timeout=1500):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function exhausted")
        t = time.time()
        fs = list(self.facts) + list(st.pc) + list(extra)
        nlf = [self.nlflag(c) for c in fs]
        self.nqueries += 1
        r = z3.unknown
        if any(nlf):
            # products abstracted to constants: only an 'unsat' answer is used
            s = z3.Solver()
            s.set("timeout", timeout)
            for c in fs:
                s.add(self.nlabs(c))
            r = s.check()
            timeout = min(timeout, 1000)
        if r != z3.unsat:
            s = z3.Solver()
            s.set("timeout", timeout)
            for c in fs:
                s.add(c)
            r = s.check()
        self.solver_time += time.time() - t
        return r

    def nlflag(self, c):
        i = c.get_id()
        if i not in self.nlcache:
            self.nlcache[i] = (bool(nl.nonlinear_nodes([c])), c)
        return self.nlcache[i][0]

    def decide(self, st, c, timeout=800):
        """True / False / None"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.check(st, [z3.Not(c)], timeout) == z3.unsat:
            return True
        if self.check(st, [c], timeout) == z3.unsat:
            return False
        return None

    def valid(self, st, c, timeout=800):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not st.pc:
            return False
        return self.check(st, [z3.Not(c)], timeout) == z3.unsat

    def oblige(self, st, kind, goal, name=None, assume=True):
        if st.dead:
            return
        g = simp(goal)
        if z3.is_true(g) or any(c is goal or c.eq(goal) for c in st.pc):
            if not self.quiet:
                o = Obl(name or kind, kind, [], goal, self.frames[-1].func.qname if self.frames else "?", self.line)
                o.status, o.backend = "proved", "simplify"
                self.obls.append(o)
            return
        if not self.quiet:
            o = Obl(name or kind, kind, self.facts + st.pc, goal, self.frames[-1].func.qname if self.frames else "?", self.line)
            o.imprecise = bool(self.imprecise)
            self.obls.append(o)
        if assume:
            st.assume(goal)

    # ------------------------------------------------------------------ cells
    def cellof(self, st, m, key):
        d = getattr(st, m)
        r = d.get(key)
        if r is None:
            r = self.init_cell(m, key)
        return r

    def init_cell(self, m, key):
        if m == "heap":
            return [z3.Const("H:%s.%s%s" % (key[0].split("::")[-1], key[1], "" if len(self.hsorts[key]) == 1 else "#%d" % i), z3.ArraySort(I, s))
                    for i, s in enumerate(self.hsorts[key])]
        return [z3.Const("M:%s" % key, z3.ArraySort(I, z3.ArraySort(I, self.msorts[key])))]

    def ghost0(self, k):
        raise Unsupported("ghost %s uninitialised in one branch" % (k,))

    def hkey(self, cls, fname, ty):
        key = (cls, fname)
        if key not in self.hsorts:
            self.hsorts[key] = self.lay.sorts(ty)
        return key

    def mkey(self, ty):
        ss = self.lay.sorts(ty)
        if len(ss) != 1:
            raise Unsupported("dynamic array of %r" % (ty,))
        k = {"real": "real", "int": "int", "bool": "bool", "str": "str"}.get(ty.k, "ref")
        if ty.k == "class":
            k = "int" if ty.name in self.lay.enums else "ref"
        self.msorts[k] = ss[0]
        return k

    def field(self, st, ref, cls, fname):
        q, t = self.prog.field_type(cls, fname)
        if q is None:
            raise Unsupported("field %s::%s" % (cls, fname))
        return Field(ref, self.hkey(q, fname, t), t)

    def getf(self, st, ref, cls, fname):
        return self.read(st, self.field(st, ref, cls, fname))

    def setf(self, st, ref, cls, fname, v):
        self.write(st, self.field(st, ref, cls, fname), v)

    def read(self, st, lv):
        if isinstance(lv, Local):
            v = st.loc.get(lv.key)
            if v is None:
                raise Unsupported("read of unknown variable %s" % (lv.key,))
            if isinstance(v, Poison):
                raise Unsupported("variable holds different pointers on different paths")
            if isinstance(v, Alias):
                return self.read(st, v.lv)
            return v
        if isinstance(lv, Temp):
            return lv.v
        if isinstance(lv, Field):
            cells = self.cellof(st, "heap", lv.key)
            v = V(lv.ty, [simp(z3.Select(c, lv.ref)) if not z3.is_const(c) else z3.Select(c, lv.ref) for c in cells])
            self.typed(st, v)
            return v
        if isinstance(lv, Mem):
            k = self.mkey(lv.ty)
            row = z3.Select(self.cellof(st, "mem", k)[0], lv.base)
            v = V(lv.ty, [self.sel(self.simp_row(row), lv.off)])
            self.typed(st, v)
            return v
        if isinstance(lv, Elem):
            p = self.read(st, lv.par)
            v = V(lv.ty, [self.sel(a, lv.idx) for a in p.t[lv.skip:]])
            self.typed(st, v)
            return v
        if isinstance(lv, Sub):
            p = self.read(st, lv.par)
            return V(lv.ty, p.t[lv.lo:lv.hi])
        if isinstance(lv, Obj):
            return V(lv.ty, [lv.ref])
        raise Unsupported("read of %r" % (lv,))

    def simp_row(self, row):
        return simp(row) if not z3.is_const(row) else row

    def sel(self, a, i):
        t = z3.Select(a, i)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return t
        return simp(t)

    def typed(self, st, v):
        """well-formedness of values read from storage: unsigned integers are non-negative, references are allocated"""
        ty = v.ty
        if ty.k == "int" and ty.n == 0:
            if not self.syn_nonneg(v.x):
                self.fact_once(st, v.x >= 0)
                if z3.is_const(v.x):
                    self.nnconst[v.x.get_id()] = v.x
        elif ty.k == "tmpl" and ty.name in ("vector", "map"):
            self.fact_once(st, v.x >= 0)
        elif ty.k == "tmpl" and ty.name in ("shared_ptr", "unique_ptr") or (ty.k == "ptr" and self.lay.is_obj_ptr(ty)) or (ty.k == "class" and ty.name not in self.lay.enums):
            self.fact_once(st, z3.And(v.x >= 0, v.x < self.N0 + st.nalloc))
        elif ty.k == "ptr":
            self.fact_once(st, z3.And(v.t[0] >= 0, v.t[0] < self.B0 + st.nalloc))

    def fact_once(self, st, c):
        if z3.is_true(simp(c)):
            return
        for x in st.pc[-40:]:
            if x.eq(c):
                return
        st.pc.append(c)

    def write(self, st, lv, v):
        if isinstance(lv, Local):
            cur = st.loc.get(lv.key)
            if isinstance(cur, Alias):
                return self.write(st, cur.lv, v)
            st.loc[lv.key] = v
            return
        if isinstance(lv, Temp):
            lv.v = v
            return
        if v.t is None:
            v = self.flatten_ptr(st, v)
        if isinstance(lv, Field):
            cells = self.cellof(st, "heap", lv.key)
            if len(cells) != len(v.t):
                raise Unsupported("shape mismatch writing %s" % (lv.key,))
            st.heap[lv.key] = [z3.Store(c, lv.ref, x) for c, x in zip(cells, v.t)]
            return
        if isinstance(lv, Mem):
            k = self.mkey(lv.ty)
            m = self.cellof(st, "mem", k)[0]
            row = self.simp_row(z3.Select(m, lv.base))
            st.mem[k] = [z3.Store(m, lv.base, z3.Store(row, lv.off, v.x))]
            return
        if isinstance(lv, Elem):
            p = self.read(st, lv.par)
            if isinstance(p, V) and p.ty.k == "tmpl" and p.ty.name == "map":
                has = p.t[1]
                n = p.t[0]
                newn = simp(ite(z3.Select(has, lv.idx), n, n + 1))
                arrs = [z3.Store(a, lv.idx, x) for a, x in zip(p.t[2:], v.t)]
                self.write(st, lv.par, V(p.ty, [newn, z3.Store(has, lv.idx, z3.BoolVal(True))] + arrs))
                return
            arrs = [z3.Store(a, lv.idx, x) for a, x in zip(p.t[lv.skip:], v.t)]
            self.write(st, lv.par, V(p.ty, list(p.t[:lv.skip]) + arrs))
            return
        if isinstance(lv, Sub):
            p = self.read(st, lv.par)
            self.write(st, lv.par, V(p.ty, list(p.t[:lv.lo]) + list(v.t) + list(p.t[lv.hi:])))
            return
        raise Unsupported("write to %r" % (lv,))

    def flatten_ptr(self, st, v):
        if isinstance(v, PV):
            if isinstance(v.lv, Mem):
                return V(v.ty, [v.lv.base, v.lv.off])
            if isinstance(v.lv, Obj):
                return V(v.ty, [v.lv.ref])
        raise Unsupported("storing a pointer to a local object")

    # ------------------------------------------------------------------ allocation
    def new_ref(self, st):
        r = simp(self.N0 + st.nalloc)
        st.nalloc += 1
        return r

    def new_base(self, st):
        r = simp(self.B0 + st.nalloc)
        st.nalloc += 1
        return r

    # ------------------------------------------------------------------ pointers
    def deref(self, st, p, ty=None):
        if isinstance(p, PV):
            return p.lv
        if isinstance(p, ItV):
            return self.it_elem(st, p)
        e = p.ty.a if p.ty.k == "ptr" else None
        if p.ty.k == "tmpl" and p.ty.name in ("shared_ptr", "unique_ptr"):
            self.oblige(st, "null", p.x != 0, "non-null pointer dereference")
            return Obj(p.x, p.ty.a[0])
        if p.ty.k == "ptr":
            if len(p.t) == 1:
                self.oblige(st, "null", p.x != 0, "non-null pointer dereference")
                return Obj(p.x, e)
            self.oblige(st, "null", p.t[0] != 0, "non-null pointer dereference")
            self.bounds(st, p.t[0], p.t[1], e)
            return Mem(p.t[0], p.t[1], e)
        if p.ty.k == "str":
            raise Unsupported("character access")
        raise Unsupported("dereference of %r" % (p.ty,))

    LEN = z3.Function("alloc_len", I, I)

    def bounds(self, st, base, off, ty, past=0):
        self.oblige(st, "bounds", z3.And(off >= 0, off < self.LEN(base) + past), "array access in bounds")

    def it_elem(self, st, it):
        p = self.read(st, it.lv)
        if p.ty.k == "tmpl" and p.ty.name == "vector":
            self.oblige(st, "bounds", z3.And(it.idx >= 0, it.idx < p.x), "iterator dereference in range")
            return Elem(it.lv, it.idx, p.ty.a[0], 1)
        if p.ty.k == "tmpl" and p.ty.name == "map":
            self.oblige(st, "bounds", z3.And(it.idx != lib.MAP_END, z3.Select(p.t[1], it.idx)), "map iterator refers to an entry")
            return MapEnt(it.lv, it.idx, Ty("tmpl", tuple(p.ty.a), None, "pair"))
        raise Unsupported("iterator over %r" % (p.ty,))

    # ------------------------------------------------------------------ throw / outcomes
    def throw(self, st, exc, cond=None):
        """raise on the paths where cond holds; normal flow continues with not cond"""
        if st.dead:
            return
        if cond is not None:
            cond = simp(cond)
            if z3.is_false(cond):
                return
        s2 = st.fork()
        if cond is not None and not z3.is_true(cond):
            s2.assume(cond)
            st.assume(z3.Not(cond))
        else:
            st.dead = True
        self.throws[-1].append((s2, exc))

    # ------------------------------------------------------------------ functions
    def call_function(self, f, st, this, args, node=None):
        """args: list of V (by value) or Alias (reference)"""
        key = f.qname
        c = self.contracts.get((f.qname, len(f.params))) or self.contracts.get(f.qname)
        if c is not None and not (self.frames and c is getattr(self, "_verifying", None) and len(self.frames) == 0):
            self.used_contracts.add(f.qname)
            return c(self, st, this, args, f)
        if f.body is None:
            raise Unsupported("no body and no contract for %s" % f.qname)
        if len(self.frames) > self.MAXDEPTH or sum(1 for fr in self.frames if fr.func is f) > 2:
            raise Unsupported("recursion or too deep inlining at %s" % f.qname)
        self.inlined.add(f.qname)
        return self.run_body(f, st, this, args)

    def run_body(self, f, st, this, args):
        fr = Frame(f, this, f.cls)
        fr.alive = len(st.alive)
        saved_loops, self.loops = self.loops, []
        self.frames.append(fr)
        saved_line = self.line
        try:
            for p, a in zip(f.params, args):
                if a is None:
                    continue
                st.loc[(f.tu.path, p["id"])] = a
            if len(args) < len(f.params):
                for p in f.params[len(args):]:
                    init = [c for c in p.get("inner", []) if isinstance(c, dict)]
                    if not init:
                        raise Unsupported("missing argument for %s" % f.qname)
                    st.loc[(f.tu.path, p["id"])] = self.ev(init[0], st)
            if f.inits or f.node["kind"] == "CXXConstructorDecl":
                self.ctor_inits(f, st, this)
            self.stmt(f.body, st)
            if not st.dead:
                fr.rets.append((st.fork(), None))
        finally:
            self.frames.pop()
            self.loops = saved_loops
            self.line = saved_line
        return self.join_returns(f, st, fr)

    def join_returns(self, f, st, fr):
        rets = [r for r in fr.rets if not r[0].dead]
        if not rets:
            st.dead = True
            return self.dead_value(f)
        s, v = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            n = common_prefix(s2.pc, s.pc)
            cond = self.guard(s2, s, n)
            if cond is None:
                cond = fresh("sel", B)
            s = s.fork()
            if v is not None:
                if isinstance(v, LV) or isinstance(v2, LV):
                    if isinstance(v, LV) and isinstance(v2, LV) and v.same(v2):
                        s = merge_states(self, s2, s, cond)
                        continue
                    v = self.read(s, v) if isinstance(v, LV) else v
                    v2 = self.read(s2, v2) if isinstance(v2, LV) else v2
                v = merge_val(cond, v2, v)
            s = merge_states(self, s2, s, cond)
        st.set_to(s)
        st.dead = False
        return v

    def guard(self, a, b, n):
        """a condition true on a's paths and false on b's, when one can be read off the path conditions"""
        ea, eb = a.pc[n:], b.pc[n:]
        if ea and eb:
            x, y = ea[0], eb[0]
            if z3.is_not(y) and y.arg(0).eq(x):
                return x
            if z3.is_not(x) and x.arg(0).eq(y):
                return x
        return None

    def dead_value(self, f):
        rt = f.sig.split("(")[0].strip()
        t = parse_type(rt)
        if t.k == "void":
            return None
        try:
            return self.lay.fresh("dead", t)
        except Unsupported:
            return None

    def ctor_inits(self, f, st, this):
        done = set()
        for ci in f.inits:
            e = [c for c in ci.get("inner", []) if isinstance(c, dict)]
            any_ = ci.get("anyInit")
            if any_ is not None:
                ty = node_type(any_)
                lv = self.field(st, this.x, f.cls, any_["name"])
                done.add(any_["name"])
                isref = "&" in any_["type"]["qualType"]
                if e:
                    if isref:
                        l = self.lv(e[0], st)
                        if isinstance(l, Obj):
                            self.write(st, lv, V(lv.ty, [l.ref]))
                        else:
                            st.ghost[("reffield", f.cls, any_["name"])] = None
                            self.reffields = getattr(self, "reffields", {})
                            self.reffields[(f.cls, any_["name"], str(this.x))] = l
                        continue
                    if e[0].get("kind") == "ImplicitValueInitExpr":
                        v = self.lay.default(ty)
                    else:
                        v = self.rv(e[0], st, ty)
                    self.write(st, lv, self.conv(st, v, lv.ty))
            elif ci.get("baseInit") is not None:
                if e and e[0].get("kind") == "CXXConstructExpr":
                    ct = node_type(e[0])
                    self.construct_at(e[0], st, this, ct)
        # members without initialiser that have default constructors
        c = self.prog.classes.get(f.cls)
        if c:
            for n, t, d in c["fields"]:
                if n not in done and t.k in ("str", "tmpl"):
                    self.write(st, self.field(st, this.x, f.cls, n), self.lay.default(t))

    # ------------------------------------------------------------------ statements
    def stmt(self, n, st):
        if st.dead or not n:
            return
        k = n.get("kind")
        if k is None:
            return
        if n.get("_line"):
            self.line = n["_line"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        self.ev_discard(n, st)

    def ev_discard(self, n, st):
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            try:
                self.lv(n, st)
                return
            except Unsupported:
                raise
        self.ev(n, st)

    def kids(self, n):
        return [c for c in n.get("inner", []) if isinstance(c, dict)]

    def s_CompoundStmt(self, n, st):
        mark = len(st.alive)
        for c in self.kids(n):
            if st.dead:
                return
            self.stmt(c, st)
        self.unwind(st, mark)

    def unwind(self, st, mark):
        """destroy the local objects created since mark, latest first"""
        while len(st.alive) > mark and not st.dead:
            ref, cls = st.alive[-1]
            st.alive = st.alive[:-1]
            f = self.prog.by_q.get(cls + "::~" + cls.split("::")[-1], [None])[0]
            self.call_function(f, st, V(Ty("ptr", Ty("class", name=cls)), [ref]), [])

    def register_local(self, st, ty, v):
        """locals of the classes named by the dtor hook are destroyed at the end of their scope (the destructors of other
        classes are taken to have no effect on what the properties speak of)"""
        want = self.hooks.get("dtor")
        if want and ty.k == "class" and self.lay.is_repo_class(ty):
            cls = self.prog.cls(ty.name)
            if cls in want:
                f = self.prog.by_q.get(cls + "::~" + cls.split("::")[-1], [None])[0]
                if f is not None and (f.body is not None or f.qname in self.contracts):
                    st.alive = st.alive + ((v.x, cls),)

    def s_NullStmt(self, n, st):
        pass

    def s_DeclStmt(self, n, st):
        for d in self.kids(n):
            if d["kind"] == "VarDecl":
                self.vardecl(d, st)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "CXXRecordDecl", "EnumDecl"):
                pass
            else:
                raise Unsupported("declaration %s" % d["kind"])

    def tu(self):
        return self.frames[-1].func.tu

    def lkey(self, declid):
        return (self.tu().path, declid)

    def vardecl(self, d, st):
        ty = node_type(d)
        q = d["type"]["qualType"]
        key = self.lkey(d["id"])
        init = [c for c in self.kids(d) if c.get("kind", "").endswith(("Expr", "Literal", "Operator", "Cleanups")) or c.get("kind") in ("ExprWithCleanups", "CXXConstructExpr", "InitListExpr")]
        if q.rstrip().endswith("&"):
            if not init:
                raise Unsupported("reference without initialiser")
            l = self.anyv(init[0], st)
            if isinstance(l, LV):
                l = self.resolve(st, l)
            st.loc[key] = Alias(l if isinstance(l, LV) else Temp(l))
            return
        if d.get("storageClass") == "static" and not q.startswith("const") :
            # a function-local static: treated as an opaque, never reassigned value of its declared default
            self.notes.add("function-local static %s modelled by its initial value" % d.get("name"))
        if not init:
            if ty.k == "arr":
                st.loc[key] = self.lay.fresh(d["name"], ty)
            elif ty.k in ("str", "tmpl"):
                st.loc[key] = self.lay.default(ty)
            elif ty.k == "class" and self.lay.is_repo_class(ty):
                raise Unsupported("default construction of %r" % (ty,))
            else:
                st.loc[key] = self.lay.fresh(d.get("name", "v"), ty)
                if ty.k == "int" and ty.n == 0:
                    st.assume(st.loc[key].x >= 0)
            return
        v = self.rv(init[0], st, ty)
        st.loc[key] = self.conv(st, v, ty)
        self.register_local(st, ty, st.loc[key])

    def resolve(self, st, l):
        while isinstance(l, Local) and isinstance(st.loc.get(l.key), Alias):
            l = st.loc[l.key].lv
        return l

    def s_ReturnStmt(self, n, st):
        k = self.kids(n)
        v = None
        if k:
            f = self.frames[-1].func
            rt = f.sig.split("(")[0].strip()
            if f.sig.count("->"):
                rt = f.sig.split("->")[-1].strip()
            if rt.endswith("&"):
                v = self.anyv(k[0], st)
                if isinstance(v, LV):
                    v = self.resolve(st, v)
            else:
                t = parse_type(rt)
                v = self.rv(k[0], st, t if t.k != "void" else None)
                if v is not None and rt != "auto":
                    v = self.conv(st, v, t)
        if not st.dead:
            self.unwind(st, self.frames[-1].alive)
            if not st.dead:
                self.frames[-1].rets.append((st.fork(), v))
            st.dead = True

    def s_IfStmt(self, n, st):
        k = self.kids(n)
        if n.get("hasInit"):
            self.stmt(k[0], st)
            k = k[1:]
        if n.get("hasVar"):
            self.stmt(k[0], st)
            k = k[1:]
        c = self.cond(k[0], st)
        if st.dead:
            return
        self.branch(st, c, lambda s: self.stmt(k[1], s), (lambda s: self.stmt(k[2], s)) if len(k) > 2 else (lambda s: None))

    def branch(self, st, c, f, g):
        c = simp(c)
        if z3.is_true(c):
            return f(st)
        if z3.is_false(c):
            return g(st)
        a, b = st.fork(), st.fork()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        f(a)
        g(b)
        if a.dead and b.dead:
            st.set_to(a)
            return
        m = merge_states(self, a, b, c)
        st.set_to(m if m is not a and m is not b else m.fork())

    def s_WhileStmt(self, n, st):
        k = self.kids(n)
        cond, body = k[0], k[-1]
        self.loop(st, lambda s: self.cond(cond, s), lambda s: self.stmt(body, s), lambda s: None)

    def s_DoStmt(self, n, st):
        k = self.kids(n)
        body, cond = k[0], k[1]
        self.loops.append({"brk": [], "cont": [], "alive": len(st.alive)})
        # do B while(c)  ==  B; while(c) B     (with break/continue in the first B honoured)
        L = self.loops[-1]
        self.stmt(body, st)
        for s in L["cont"]:
            st.set_to(merge_states(self, s, st))
        brk = list(L["brk"])
        self.loops.pop()
        if not st.dead:
            self.loop(st, lambda s: self.cond(cond, s), lambda s: self.stmt(body, s), lambda s: None)
        for s in brk:
            st.set_to(merge_states(self, s, st))

    def s_ForStmt(self, n, st):
        raw = n.get("inner", [])
        init, cond, inc, body = raw[0], raw[2], raw[3], raw[4]
        if init:
            self.stmt(init, st)
        self.loop(st, (lambda s: self.cond(cond, s)) if cond else (lambda s: z3.BoolVal(True)),
                  lambda s: self.stmt(body, s), (lambda s: self.ev_discard(inc, s)) if inc else (lambda s: None))

    def s_CXXForRangeStmt(self, n, st):
        k = [c for c in n.get("inner", [])]
        # children: (init) range-decl begin end cond inc loopvar body
        decls = [c for c in k if isinstance(c, dict) and c.get("kind") == "DeclStmt"]
        rng = self.kids(decls[0])[0]
        var = self.kids(decls[-1])[0]
        body = [c for c in k if isinstance(c, dict)][-1]
        r = self.anyv(self.kids(rng)[0], st)
        lv = self.resolve(st, r) if isinstance(r, LV) else Temp(r)
        cv = self.read(st, lv)
        if cv.ty.k == "tmpl" and cv.ty.name in ("vector", "initializer_list"):
            et, skip = cv.ty.a[0], 1
            size = lambda s: self.read(s, lv).x
        elif cv.ty.k == "arr":
            et, skip = cv.ty.a, 0
            size = lambda s: ival(cv.ty.n)
        else:
            raise Unsupported("range-for over %r" % (cv.ty,))
        ikey = ("rangeidx", n["id"], len(self.frames))
        st.loc[ikey] = V(SIZE, [ival(0)])
        vkey = self.lkey(var["id"])
        isref = var["type"]["qualType"].rstrip().endswith("&")

        def body_fn(s):
            i = s.loc[ikey].x
            e = Elem(lv, i, et, skip)
            if isref:
                s.loc[vkey] = Alias(e)
            else:
                s.loc[vkey] = self.read(s, e)
            self.stmt(body, s)

        def inc(s):
            s.loc[ikey] = V(SIZE, [simp(s.loc[ikey].x + 1)])
        self.loop(st, lambda s: s.loc[ikey].x < size(s), body_fn, inc)

    def s_BreakStmt(self, n, st):
        if not self.loops:
            raise Unsupported("break")
        self.unwind(st, self.loops[-1].get("alive", len(st.alive)))
        self.loops[-1]["brk"].append(st.fork())
        st.dead = True

    def s_ContinueStmt(self, n, st):
        for L in reversed(self.loops):
            if "switch" not in L:
                self.unwind(st, L.get("alive", len(st.alive)))
                L["cont"].append(st.fork())
                st.dead = True
                return
        raise Unsupported("continue")

    def s_SwitchStmt(self, n, st):
        k = self.kids(n)
        v = self.rv(k[0], st)
        body = k[-1]
        # flatten to a list of (labels, stmts)
        items = []

        def flat(c):
            if c["kind"] in ("CaseStmt", "DefaultStmt"):
                cc = self.kids(c)
                if c["kind"] == "CaseStmt":
                    items.append(("case", cc[0]))
                    sub = cc[1:]
                else:
                    items.append(("default", None))
                    sub = cc
                for s in sub:
                    flat(s)
            else:
                items.append(("stmt", c))
        for c in self.kids(body):
            flat(c)
        labels = []
        for kind, c in items:
            if kind == "case":
                labels.append(self.rv(c, st).x)
        anyc = z3.Or([v.x == l for l in labels]) if labels else z3.BoolVal(False)
        self.loops.append({"brk": [], "cont": [], "switch": True, "alive": len(st.alive)})
        entry = st.fork()
        cur = entry.fork()
        cur.dead = True
        li = 0
        covered = False
        for kind, c in items:
            if kind == "stmt":
                if not cur.dead:
                    self.stmt(c, cur)
                continue
            s = entry.fork()
            if kind == "case":
                cnd = simp(v.x == labels[li])
                li += 1
            else:
                cnd = simp(z3.Not(anyc))
                covered = True
            if z3.is_false(cnd):
                continue
            if not z3.is_true(cnd):
                s.pc.append(cnd)
            cur = merge_states(self, s, cur, None) if not cur.dead else s
        L = self.loops.pop()
        outs = list(L["brk"])
        if not cur.dead:
            outs.append(cur)
        if not covered:
            s = entry.fork()
            c0 = simp(z3.Not(anyc))
            if not z3.is_false(c0):
                if not z3.is_true(c0):
                    s.pc.append(c0)
                outs.append(s)
        # continue inside switch
        if L["cont"]:
            for s in L["cont"]:
                for L2 in reversed(self.loops):
                    if "switch" not in L2:
                        L2["cont"].append(s)
                        break
        if not outs:
            st.dead = True
            return
        r = outs[-1]
        for s in reversed(outs[:-1]):
            nn = len(entry.pc)
            g = s.pc[nn] if len(s.pc) > nn else None
            r = merge_states(self, s, r, g)
        st.set_to(r.fork())

    def s_CXXTryStmt(self, n, st):
        k = self.kids(n)
        mark = len(st.alive)
        self.throws.append([])
        try:
            self.stmt(k[0], st)
        finally:
            thrown = self.throws.pop()
        outs = [] if st.dead else [st.fork()]
        for s, e in thrown:
            handled = False
            self.unwind(s, mark)
            if s.dead:
                continue
            for c in k[1:]:
                cc = self.kids(c)
                var = cc[0] if cc and cc[0].get("kind") == "VarDecl" else None
                body = cc[-1]
                if var is None or lib.exc_is_a(e.cls, node_type(var).name):
                    if var is not None:
                        s.loc[self.lkey(var["id"])] = Alias(Temp(e))
                    saved = s.ghost.get("curexc")
                    self.curexc = getattr(self, "curexc", [])
                    self.curexc.append(e)
                    self.stmt(body, s)
                    self.curexc.pop()
                    if not s.dead:
                        outs.append(s)
                    handled = True
                    break
            if not handled:
                self.throws[-1].append((s, e))
        if not outs:
            st.dead = True
            return
        r = outs[-1]
        for s in reversed(outs[:-1]):
            nn = common_prefix(s.pc, r.pc)
            r = merge_states(self, s, r, self.guard(s, r, nn))
        st.set_to(r.fork())

    # ------------------------------------------------------------------ loops
    UNROLL = 40

    def loop(self, st, cond, body, inc):
        from .loops import run_loop
        run_loop(self, st, cond, body, inc)

    # ------------------------------------------------------------------ expressions
    def cond(self, n, st):
        v = self.rv(n, st)
        return self.as_bool(st, v)

    def as_bool(self, st, v):
        if isinstance(v, PV):
            return z3.BoolVal(True)
        k = v.ty.k
        if k == "bool":
            return v.x
        if k in ("int", "real"):
            return v.x != 0
        if k in ("ptr", "fptr", "memptr", "str", "null", "class") or (k == "tmpl" and v.ty.name in ("shared_ptr", "unique_ptr")):
            return v.x != 0
        raise Unsupported("%r as condition" % (v.ty,))

    def anyv(self, n, st):
        """LV for glvalues, V for prvalues"""
        if n.get("valueCategory") in ("lvalue", "xvalue"):
            return self.lv(n, st)
        return self.ev(n, st)

    def rv(self, n, st, want=None):
        v = self.anyv(n, st)
        if isinstance(v, LV):
            v = self.read(st, v)
        return v

    def ev(self, n, st):
        """prvalue"""
        k = n["kind"]
        if n.get("_line"):
            self.line = n["_line"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            if n.get("valueCategory") in ("lvalue", "xvalue"):
                return self.read(st, self.lv(n, st))
            raise Unsupported("expression %s" % k)
        r = m(n, st)
        return r

    def lv(self, n, st):
        """glvalue"""
        k = n["kind"]
        m = getattr(self, "l_" + k, None)
        if m is None:
            raise Unsupported("lvalue expression %s" % k)
        return m(n, st)

    # --- literals
    def e_IntegerLiteral(self, n, st):
        self.numeric_literals.add(float(n["value"]))
        return V(node_type(n), [ival(int(n["value"]))])

    def e_FloatingLiteral(self, n, st):
        self.numeric_literals.add(float(n["value"]))
        return V(node_type(n), [z3.RealVal(lib.exact(n["value"]))])

    def e_CXXBoolLiteralExpr(self, n, st):
        return V(BOOL, [z3.BoolVal(bool(n["value"]))])

    def e_CharacterLiteral(self, n, st):
        return V(INT(8, True), [ival(int(n["value"]))])

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return V(NULLT, [ival(0)])

    def e_GNUNullExpr(self, n, st):
        return V(NULLT, [ival(0)])

    def e_StringLiteral(self, n, st):
        return V(STR, [strlit(_unq(n["value"]))])

    def l_StringLiteral(self, n, st):
        return Temp(V(STR, [strlit(_unq(n["value"]))]))

    def l_PredefinedExpr(self, n, st):
        return Temp(V(STR, [strlit("__func__")]))

    # --- wrappers
    def _first(self, n):
        k = self.kids(n)
        return k[0]

    def e_ParenExpr(self, n, st):
        return self.ev(self._first(n), st)

    def l_ParenExpr(self, n, st):
        return self.lv(self._first(n), st)

    def e_ExprWithCleanups(self, n, st):
        return self.ev(self._first(n), st)

    def l_ExprWithCleanups(self, n, st):
        return self.lv(self._first(n), st)

    def e_ConstantExpr(self, n, st):
        return self.ev(self._first(n), st)

    e_CXXBindTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def l_CXXBindTemporaryExpr(self, n, st):
        return self.lv(self._first(n), st)

    def l_MaterializeTemporaryExpr(self, n, st):
        v = self.anyv(self._first(n), st)
        if isinstance(v, LV):
            return v
        if v is None:
            return Temp(V(VOID, []))
        if v.ty.k == "class" and v.t is not None and self.lay.is_repo_class(v.ty):
            return Obj(v.x, v.ty)
        return Temp(v)

    def e_MaterializeTemporaryExpr(self, n, st):
        return self.rv(self._first(n), st)

    def e_CXXDefaultArgExpr(self, n, st):
        raise Unsupported("default argument")

    def e_CXXThisExpr(self, n, st):
        fr = self.frames[-1]
        th = fr.this
        if th is None:
            raise Unsupported("this")
        return V(node_type(n), [th.x])

    def e_ImplicitValueInitExpr(self, n, st):
        return self.lay.default(node_type(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return V(SIZE, [fresh("sizeof", I)])

    def e_LambdaExpr(self, n, st):
        rec = self._first(n)
        meth = None
        for c in self.kids(rec):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                meth = c
        if meth is None:
            raise Unsupported("generic lambda")
        f = self.tu().funcs.get(meth["id"]) or Func(self.tu(), meth, "lambda::operator()", "lambda")
        # captures by reference read the enclosing variables directly (by-copy captures are snapshotted lazily: equal unless modified)
        fr = self.frames[-1]
        return LamV(f, {}, fr.this)

    # --- casts
    def e_ImplicitCastExpr(self, n, st):
        return self.cast(n, st)

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def cast(self, n, st):
        ck = n.get("castKind")
        sub = [c for c in self.kids(n) if c.get("kind") != "CXXCtorInitializer"][0]
        ty = node_type(n)
        if ck == "LValueToRValue":
            return self.read(st, self.lv(sub, st))
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "ToVoid", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dependent"):
            if ck == "ToVoid":
                self.ev_discard(sub, st)
                return V(VOID, [])
            v = self.rv(sub, st)
            if ck == "BitCast":
                return self.bitcast(st, v, ty)
            if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived") and v.t is not None and ty.k == "ptr":
                return V(ty, v.t)
            if v.ty.k == "class" and ty.k == "class" and v.t is not None and len(v.t) == 1:
                return V(v.ty, v.t)
            return v
        if ck == "ArrayToPointerDecay":
            l = self.lv(sub, st)
            if isinstance(l, Temp) and l.v.ty.k == "str":
                return l.v
            l = self.resolve(st, l)
            at = l.ty
            if at.k == "str":
                return self.read(st, l)
            if at.k != "arr":
                raise Unsupported("decay of %r" % (at,))
            return PV(Ty("ptr", at.a), Elem(l, ival(0), at.a, 0))
        if ck == "FunctionToPointerDecay" or ck == "BuiltinFnToFnPtr":
            return self.ev_func(sub, st)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral", "MemberPointerToBoolean"):
            v = self.rv(sub, st)
            if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
                return V(BOOL, [self.as_bool(st, v)])
            return self.conv(st, v, ty, explicit=True)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            self.rv(sub, st)
            return V(ty, [ival(0) for _ in self.lay.sorts(ty)])
        raise Unsupported("cast %s" % ck)

    def ev_func(self, n, st):
        while n["kind"] in ("ParenExpr", "UnaryOperator"):
            n = self._first(n)
        if n["kind"] == "DeclRefExpr":
            f = self.find_callee(n["referencedDecl"])
            if f is None:
                return V(Ty("fptr", name=n["referencedDecl"].get("name")), [self.fcode(("ext", n["referencedDecl"].get("name")))])
            return V(Ty("fptr", name=f.qname), [self.fcode(f)])
        if n["kind"] == "ConditionalOperator":
            k = self.kids(n)
            c = simp(self.cond(k[0], st))
            a, b = self.ev_func(k[1], st), self.ev_func(k[2], st)
            return V(a.ty, [ite(c, a.x, b.x)])
        if n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "FunctionToPointerDecay"):
            return self.ev_func(self._first(n), st)
        l = self.lv(n, st)
        return self.read(st, l)

    def fcode(self, f):
        k = f if isinstance(f, tuple) else (f.tu.path, f.mangled or f.node["id"])
        if k not in self.fcodes:
            c = len(self.fcodes) + 1
            self.fcodes[k] = c
            self.fcode_rev[c] = f
        return ival(self.fcodes[k])

    def bitcast(self, st, v, ty):
        if isinstance(v, PV):
            return PV(ty, v.lv) if ty.k == "ptr" else v
        if v.t is not None and ty.k == "ptr" and len(self.lay.sorts(ty)) != len(v.t):
            if v.ty.k == "ptr" and len(v.t) == 2:
                return V(v.ty, v.t)
            if v.ty.k == "ptr" and v.ty.a == VOID and len(v.t) == 1 and self.hooks.get("void_is_base"):
                return V(ty, [v.x, ival(0)])
            return V(v.ty, v.t)
        return V(ty, v.t)

    def conv(self, st, v, ty, explicit=False):
        if v is None or ty is None or v.t is None:
            return v
        if isinstance(v, ExV):
            return v
        a, b = v.ty.k, ty.k
        isenum = lambda t: t.k == "class" and (t.name in self.lay.enums)
        if b == "real":
            if a == "int" or isenum(v.ty):
                x = v.x
                if z3.is_int_value(x):
                    return V(ty, [z3.RealVal(x.as_long())])
                return V(ty, [z3.ToReal(x)])
            if a == "bool":
                return V(ty, [z3.If(v.x, z3.RealVal(1), z3.RealVal(0))])
            return V(ty, v.t)
        if b == "int":
            if a == "real":
                x = v.x
                t = self.named(st, lib.trunc(x), "ix")
                if ty.n == 0:
                    self.oblige(st, "ub", x > -1, "conversion of a negative floating value to unsigned")
                    if z3.is_const(t) and not z3.is_int_value(t):
                        st.assume(t >= 0)
                        self.nnconst[t.get_id()] = t
                return V(ty, [t])
            if a == "bool":
                return V(ty, [z3.If(v.x, ival(1), ival(0))])
            if a == "int":
                return V(ty, [self.wrap(st, v.x, ty, v.ty)])
            return V(ty, v.t)
        if b == "bool" and a != "bool":
            return V(ty, [self.as_bool(st, v)])
        if b == "ptr" and a == "null":
            return V(ty, [ival(0) for _ in self.lay.sorts(ty)])
        if b == "tmpl" and ty.name in ("shared_ptr", "unique_ptr") and a == "null":
            return V(ty, [ival(0)])
        if b == "str":
            return V(ty, v.t)
        return v

    def named(self, st, t, nm):
        """definitional constant for a rounding term (keeps products over plain constants)"""
        t = simp(t)
        if self.insum or z3.is_const(t) or z3.is_int_value(t) or not lib.has_rounding(t):
            return t
        for c, d in self.defs:
            if d.eq(t) and any(q.eq(c == d) for q in st.pc):
                return c
        c = fresh(nm, I)
        self.defs.append((c, t))
        st.pc.append(c == t)
        return c

    def wrap(self, st, x, ty, frm=None):
        """value of integer term x in type ty"""
        if ty.k != "int":
            return x
        x = simp(x) if not z3.is_const(x) else x
        if z3.is_int_value(x):
            val = x.as_long()
            if ty.n == 0:
                return ival(val % (1 << ty.a))
            m = 1 << ty.a
            val %= m
            return ival(val - m if val >= m // 2 else val)
        if frm is not None and frm.k == "int":
            if ty.n == 0 and frm.n == 0 and frm.a <= ty.a:
                return x
            if ty.n == 1 and (frm.a < ty.a or (frm.a == ty.a and frm.n == 1)):
                return x
            if ty.n == 1:
                # unsigned -> signed, or narrowing: sizes are assumed to fit (listed assumption)
                self.notes.add("integer narrowing to %d-bit signed assumed in range" % ty.a)
                return x
            if ty.n == 0 and frm.n == 1:
                if self.nonneg(st, x):
                    return x
                return z3.If(x >= 0, x, x + (1 << ty.a))
            if ty.n == 0 and frm.a > ty.a:
                self.notes.add("integer narrowing to %d-bit unsigned assumed in range" % ty.a)
                return x
        return x

    def nonneg(self, st, x):
        if self.syn_nonneg(x):
            return True
        return self.valid(st, x >= 0, 400)

    def syn_nonneg(self, x):
        if z3.is_int_value(x):
            return x.as_long() >= 0
        if x.get_id() in self.nnconst:
            return True
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return self.syn_nonneg(x.arg(1)) and self.syn_nonneg(x.arg(2))
        if z3.is_add(x) or z3.is_mul(x):
            return all(self.syn_nonneg(c) for c in x.children())
        return False

    # --- references to declarations
    def l_DeclRefExpr(self, n, st):
        rd = n["referencedDecl"]
        kind = rd["kind"]
        if kind in ("VarDecl", "ParmVarDecl"):
            key = self.lkey(rd["id"])
            if key in st.loc:
                b = st.loc[key]
                if isinstance(b, Alias):
                    return b.lv
                return Local(key, node_type(rd) if not isinstance(b, V) or b.t is None else b.ty if b.ty.k != "null" else node_type(rd))
            return self.global_var(rd, st)
        if kind in ("FunctionDecl", "CXXMethodDecl"):
            return Temp(self.ev_func(n, st))
        if kind == "EnumConstantDecl":
            return Temp(self.enum_const(rd))
        if kind == "BindingDecl":
            raise Unsupported("structured binding")
        raise Unsupported("reference to %s" % kind)

    def global_var(self, rd, st):
        tu = self.tu()
        name = rd.get("name")
        d = tu.decl.get(rd["id"])
        if d is None:
            d = tu.find_global(name)
            if d is not None and d.get("kind") != "VarDecl":
                d = None
        q = tu.qn.get(rd["id"], name)
        if name in IOSMODES and "openmode" in ((rd.get("type") or {}).get("qualType") or "").lower():
            return Temp(V(INT32, [ival(IOSMODES[name])]))
        if d is not None and ("const" in d["type"]["qualType"]):
            init = [c for c in self.kids(d)]
            if init:
                return Temp(self.conv(st, self.rv(init[0], st), node_type(rd)))
        # definition may be elsewhere (static class constants, extern consts)
        for t2 in self.prog.tus.values():
            for i, qq in t2.qn.items():
                if qq == q and t2.decl.get(i, {}).get("kind") == "VarDecl":
                    init = self.kids(t2.decl[i])
                    if init and "const" in t2.decl[i]["type"]["qualType"]:
                        return Temp(self.conv(st, self.rv(init[0], st), node_type(rd)))
        key = ("global", q)
        if key not in st.loc:
            st.loc[key] = self.lay.const("G:" + q, node_type(rd))
        return Local(key, node_type(rd))

    def enum_const(self, rd):
        tu = self.tu()
        v = tu.enumerator(rd)
        if v is None:
            # enumerator of a library header: identified by name
            self.externals.add("enumerator " + rd.get("name", "?"))
            v = ENUMS.get(rd.get("name"))
            if v is None:
                return V(INT32, [z3.Int("E:" + rd["name"])])
        return V(node_type(rd) if node_type(rd).k != "class" else INT32, [ival(v)])

    def e_DeclRefExpr(self, n, st):
        rd = n["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return self.enum_const(rd)
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return self.ev_func(n, st)
        return self.read(st, self.l_DeclRefExpr(n, st))

    # --- member access
    def l_MemberExpr(self, n, st):
        base = self._first(n)
        name = n["name"]
        if n.get("isArrow"):
            p = self.rv(base, st)
            o = self.deref(st, p) if not (base.get("kind") == "CXXThisExpr" or (base.get("kind") == "ImplicitCastExpr" and self._first(base).get("kind") == "CXXThisExpr")) else Obj(p.x, p.ty.a)
        else:
            b = self.anyv(base, st)
            o = b if isinstance(b, LV) else Temp(b)
        o = self.resolve(st, o)
        oty = o.ty
        rm = n.get("referencedMemberDecl")
        if isinstance(o, Temp) and o.v is not None and o.v.ty.k == "class":
            o = Obj(o.v.x, o.v.ty)
            oty = o.ty
        if isinstance(o, MapEnt):
            return Temp(V(oty.a[0], [o.key])) if name == "first" else Elem(o.par, o.key, oty.a[1], 2)
        if oty.k == "tmpl" and oty.name == "pair":
            n1 = len(self.lay.sorts(oty.a[0]))
            n2 = len(self.lay.sorts(oty.a[1]))
            return Sub(o, 0, n1, oty.a[0]) if name == "first" else Sub(o, n1, n1 + n2, oty.a[1])
        if oty.k == "class" or isinstance(o, Obj):
            ref = o.ref if isinstance(o, Obj) else self.read(st, o).x
            cls = self.prog.cls(oty.name)
            fo = self.tu().owner.get(rm)
            if fo and fo in self.prog.classes:
                cls = fo
            q, t = self.prog.field_type(cls, name)
            if q is None:
                # struct of a library (e.g. PJ_COORD): opaque field
                t = node_type(n)
                return Field(ref, self.hkey(oty.name, name, t), t)
            fl = Field(ref, self.hkey(q, name, t), t)
            # reference members bound to non-object lvalues
            rf = getattr(self, "reffields", {}).get((q, name, str(ref)))
            if rf is not None:
                return rf
            if t.k == "class" and t.name not in self.lay.enums:
                return Obj(self.read(st, fl).x, t)
            return fl
        raise Unsupported("member %s of %r" % (name, oty))

    def e_MemberExpr(self, n, st):
        return self.read(st, self.l_MemberExpr(n, st))

    # --- operators
    def l_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub = self._first(n)
        if op == "*":
            return self.deref(st, self.rv(sub, st))
        if op in ("++", "--"):
            l = self.resolve(st, self.lv(sub, st))
            v = self.read(st, l)
            self.write(st, l, self.incr(st, v, 1 if op == "++" else -1))
            return l
        raise Unsupported("unary %s lvalue" % op)

    def incr(self, st, v, d):
        if isinstance(v, PV):
            if isinstance(v.lv, Elem):
                return PV(v.ty, Elem(v.lv.par, simp(v.lv.idx + d), v.lv.ty, v.lv.skip))
            if isinstance(v.lv, Mem):
                return PV(v.ty, Mem(v.lv.base, simp(v.lv.off + d), v.lv.ty))
            raise Unsupported("pointer increment")
        if isinstance(v, ItV):
            return ItV(v.ty, v.lv, simp(v.idx + d))
        if v.ty.k == "ptr" and len(v.t) == 2:
            return V(v.ty, [v.t[0], simp(v.t[1] + d)])
        if v.ty.k == "real":
            return V(v.ty, [v.x + d])
        x = simp(v.x + d)
        if d < 0 and v.ty.k == "int" and v.ty.n == 0:
            x = self.sub_unsigned(st, v.x, ival(1), v.ty)
        return V(v.ty, [x])

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub = self._first(n)
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.ev_func(sub, st)
            self.addrof = sub["kind"] == "ArraySubscriptExpr"
            l = self.resolve(st, self.lv(sub, st))
            self.addrof = False
            ty = node_type(n)
            if isinstance(l, Obj):
                return V(Ty("ptr", l.ty), [l.ref])
            if isinstance(l, Mem):
                return V(Ty("ptr", l.ty), [l.base, l.off])
            return PV(Ty("ptr", l.ty), l)
        if op in ("++", "--"):
            l = self.resolve(st, self.lv(sub, st))
            v = self.read(st, l)
            self.write(st, l, self.incr(st, v, 1 if op == "++" else -1))
            return v if n.get("isPostfix") else self.read(st, l)
        v = self.rv(sub, st)
        if op == "!":
            return V(BOOL, [z3.Not(self.as_bool(st, v))])
        if op == "-":
            if v.ty.k == "int" and v.ty.n == 0:
                return V(v.ty, [self.sub_unsigned(st, ival(0), v.x, v.ty)])
            return V(v.ty, [simp(-v.x)])
        if op == "+":
            return v
        if op == "*":
            return self.read(st, self.deref(st, v))
        raise Unsupported("unary %s" % op)

    def sub_unsigned(self, st, a, b, ty):
        d = simp(a - b)
        if self.nonneg(st, d):
            return d
        return z3.If(a >= b, d, d + (1 << ty.a))

    def binop(self, st, op, a, b, ty):
        if isinstance(a, (PV, ItV)) or isinstance(b, (PV, ItV)) or a.ty.k == "ptr" or b.ty.k == "ptr" or a.ty.k in ("null",) or b.ty.k == "null" or a.ty.k in ("fptr", "memptr"):
            return self.ptrop(st, op, a, b, ty)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            x, y = a.x, b.x
            if a.ty.k == "bool" or b.ty.k == "bool":
                if a.ty.k != "bool":
                    x = self.as_bool(st, a)
                if b.ty.k != "bool":
                    y = self.as_bool(st, b)
                if op in ("==", "!="):
                    return V(BOOL, [x == y if op == "==" else x != y])
                raise Unsupported("ordering of booleans")
            if x.sort() != y.sort():
                x, y = (z3.ToReal(x) if x.sort() == I else x), (z3.ToReal(y) if y.sort() == I else y)
            r = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            return V(BOOL, [r])
        x, y = a.x, b.x
        t = ty if ty.k in ("int", "real") else a.ty
        if t.k == "real" or x.sort() == R or y.sort() == R:
            x = z3.ToReal(x) if x.sort() == I else x
            y = z3.ToReal(y) if y.sort() == I else y
            if op == "+":
                return V(t, [simp(x + y)])
            if op == "-":
                return V(t, [simp(x - y)])
            if op == "*":
                return V(t, [simp(x * y)])
            if op == "/":
                self.oblige(st, "div", y != 0, "division by zero", assume=False)
                return V(t, [simp(x / y)])
            raise Unsupported("real %s" % op)
        if a.ty.k == "bool":
            x = z3.If(x, ival(1), ival(0))
        if b.ty.k == "bool":
            y = z3.If(y, ival(1), ival(0))
        if op == "+":
            r = simp(x + y)
            if t.n == 0 and not (self.syn_nonneg(x) and self.syn_nonneg(y)):
                pass
            return V(t, [r])
        if op == "-":
            if t.k == "int" and t.n == 0:
                return V(t, [self.sub_unsigned(st, x, y, t)])
            return V(t, [simp(x - y)])
        if op == "*":
            return V(t, [simp(x * y)])
        if op in ("/", "%"):
            self.oblige(st, "div", y != 0, "integer division by zero")
            if t.n == 0 or (self.nonneg(st, x) and self.nonneg(st, y)):
                return V(t, [simp(x / y) if op == "/" else simp(x % y)])
            q = z3.If(z3.And(x >= 0, y > 0), x / y, z3.If(z3.And(x < 0, y > 0), -((-x) / y), z3.If(z3.And(x >= 0, y < 0), -(x / (-y)), (-x) / (-y))))
            return V(t, [q if op == "/" else x - q * y])
        if op in ("<<", ">>") and z3.is_int_value(simp(y)):
            p = 1 << simp(y).as_long()
            return V(t, [simp(x * p)] if op == "<<" else [simp(x / p)])
        if op in ("&", "|", "^"):
            sx, sy = simp(x), simp(y)
            if z3.is_int_value(sx) and z3.is_int_value(sy):
                p, q = sx.as_long(), sy.as_long()
                return V(t, [ival({"&": p & q, "|": p | q, "^": p ^ q}[op])])
            if op == "&" and z3.is_int_value(sy) and sy.as_long() == 1:
                return V(t, [x % 2])
            return V(t, [z3.Function("bit" + op, I, I, I)(x, y)])
        raise Unsupported("binary %s" % op)

    def ptrop(self, st, op, a, b, ty):
        if op in ("==", "!="):
            if isinstance(a, ItV) and isinstance(b, ItV):
                if not a.lv.same(b.lv):
                    raise Unsupported("comparison of iterators of different containers")
                r = a.idx == b.idx
            elif isinstance(a, PV) and isinstance(b, PV):
                if a.lv.same(b.lv):
                    r = z3.BoolVal(True)
                elif isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
                    r = a.lv.idx == b.lv.idx
                else:
                    raise Unsupported("pointer comparison")
            elif isinstance(a, PV) or isinstance(b, PV):
                r = z3.BoolVal(False)
                o = b if isinstance(a, PV) else a
                if not (o.ty.k == "null" or z3.is_int_value(simp(o.t[0]))):
                    raise Unsupported("pointer comparison")
            else:
                if len(a.t) == 2 and len(b.t) == 2:
                    r = z3.And(a.t[0] == b.t[0], a.t[1] == b.t[1])
                    if b.ty.k == "null" or z3.is_int_value(simp(b.t[0])) and simp(b.t[0]).as_long() == 0:
                        r = a.t[0] == 0
                else:
                    r = a.t[0] == b.t[0]
            return V(BOOL, [r if op == "==" else z3.Not(r)])
        if op in ("+", "-"):
            if isinstance(b, (PV, ItV)) and op == "+":
                a, b = b, a
            if isinstance(b, ItV) or isinstance(b, PV) or (b.ty.k == "ptr"):
                if op == "-":
                    if isinstance(a, ItV) and isinstance(b, ItV) and a.lv.same(b.lv):
                        return V(INT(64, True), [simp(a.idx - b.idx)])
                    if isinstance(a, PV) and isinstance(b, PV) and isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
                        return V(INT(64, True), [simp(a.lv.idx - b.lv.idx)])
                    if a.t and b.t and len(a.t) == 2 and len(b.t) == 2:
                        return V(INT(64, True), [simp(a.t[1] - b.t[1])])
                raise Unsupported("pointer arithmetic")
            d = b.x if op == "+" else -b.x
            return self.incr(st, a, d) if not (isinstance(a, V) and a.t is not None) else V(a.ty, [a.t[0], simp(a.t[1] + d)])
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, ItV) and isinstance(b, ItV) and a.lv.same(b.lv):
                x, y = a.idx, b.idx
            elif a.t and b.t and len(a.t) == 2:
                x, y = a.t[1], b.t[1]
            elif isinstance(a, PV) and isinstance(b, PV) and isinstance(a.lv, Elem) and isinstance(b.lv, Elem) and a.lv.par.same(b.lv.par):
                x, y = a.lv.idx, b.lv.idx
            else:
                raise Unsupported("pointer ordering")
            return V(BOOL, [{"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]])
        raise Unsupported("pointer operator %s" % op)

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        k = self.kids(n)
        if op == ",":
            self.ev_discard(k[0], st)
            return self.rv(k[1], st)
        if op in ("&&", "||"):
            a = self.cond(k[0], st)
            sa = simp(a)
            if z3.is_true(sa) and op == "&&" or z3.is_false(sa) and op == "||":
                return V(BOOL, [self.cond(k[1], st)])
            if z3.is_false(sa) and op == "&&" or z3.is_true(sa) and op == "||":
                return V(BOOL, [sa])
            s2 = st.fork()
            s2.pc.append(a if op == "&&" else z3.Not(a))
            n0 = len(s2.pc)
            b = self.cond(k[1], s2)
            if s2.dead:
                st.assume(z3.Not(a) if op == "&&" else a)
                return V(BOOL, [z3.BoolVal(op == "||")])
            # keep facts learnt while evaluating the right operand (they are only true on that path)
            g = a if op == "&&" else z3.Not(a)
            if self.pure_change(st, s2):
                for f in s2.pc[n0:]:
                    st.pc.append(z3.Implies(g, f))
            else:
                s1 = st.fork()
                s1.pc.append(z3.Not(g))
                st.set_to(merge_states(self, s2, s1, g).fork())
            return V(BOOL, [z3.And(a, b) if op == "&&" else z3.Or(a, b)])
        if op in (".*", "->*"):
            raise Unsupported("member pointer data access")
        if op == "=":
            return self.read(st, self.l_BinaryOperator(n, st))
        a = self.rv(k[0], st)
        b = self.rv(k[1], st)
        return self.binop(st, op, a, b, node_type(n))

    def pure_change(self, a, b):
        return a.loc == b.loc and all(b.heap.get(k) is a.heap.get(k) for k in b.heap) and all(b.mem.get(k) is a.mem.get(k) for k in b.mem) and a.nalloc == b.nalloc and a.ghost == b.ghost

    def l_BinaryOperator(self, n, st):
        op = n["opcode"]
        k = self.kids(n)
        if op == "=":
            v = self.rv(k[1], st)
            l = self.resolve(st, self.lv(k[0], st))
            if isinstance(l, Obj):
                raise Unsupported("object assignment")
            self.write(st, l, self.conv(st, v, l.ty))
            return l
        if op == ",":
            self.ev_discard(k[0], st)
            return self.lv(k[1], st)
        raise Unsupported("lvalue %s" % op)

    def l_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        k = self.kids(n)
        b = self.rv(k[1], st)
        l = self.resolve(st, self.lv(k[0], st))
        a = self.read(st, l)
        ct = n.get("computeResultType", {})
        t = parse_type(ct.get("desugaredQualType") or ct.get("qualType") or "double") if ct else a.ty
        if a.t is None or a.ty.k == "ptr":
            r = self.ptrop(st, op, a, b, a.ty)
        else:
            r = self.binop(st, op, self.conv(st, a, t) if t.k in ("int", "real") else a, b, t)
            r = self.conv(st, r, a.ty, True)
        self.write(st, l, r)
        return l

    def e_CompoundAssignOperator(self, n, st):
        return self.read(st, self.l_CompoundAssignOperator(n, st))

    def e_ConditionalOperator(self, n, st):
        k = self.kids(n)
        if lib.is_assert(n):
            c = self.cond(k[0], st)
            self.oblige(st, "assert", c, "assertion holds")
            return V(VOID, [])
        c = self.cond(k[0], st)
        sc = simp(c)
        if z3.is_true(sc):
            return self.rv(k[1], st)
        if z3.is_false(sc):
            return self.rv(k[2], st)
        if node_type(n).k == "ptr":
            d = self.decide(st, c)
            if d is not None:
                return self.rv(k[1 if d else 2], st)
        a, b = st.fork(), st.fork()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        ty = node_type(n)
        x = self.rv(k[1], a)
        y = self.rv(k[2], b)
        if a.dead and b.dead:
            st.dead = True
            return x
        if a.dead or b.dead:
            st.set_to(b if a.dead else a)
            return y if a.dead else x
        x, y = self.conv(st, x, ty), self.conv(st, y, ty)
        if x is not None and y is not None and x.t is not None and y.t is not None and len(x.t) != len(y.t):
            raise Unsupported("conditional of differently shaped values")
        v = merge_val(c, x, y) if ty.k != "void" else V(VOID, [])
        st.set_to(merge_states(self, a, b, c).fork())
        return v

    def l_ConditionalOperator(self, n, st):
        k = self.kids(n)
        c = self.cond(k[0], st)
        sc = simp(c)
        if z3.is_true(sc):
            return self.lv(k[1], st)
        if z3.is_false(sc):
            return self.lv(k[2], st)
        a, b = st.fork(), st.fork()
        a.pc.append(c)
        b.pc.append(z3.Not(c))
        x, y = self.lv(k[1], a), self.lv(k[2], b)
        if isinstance(x, Obj) and isinstance(y, Obj):
            st.set_to(merge_states(self, a, b, c).fork())
            return Obj(ite(c, x.ref, y.ref), x.ty)
        # read-only use
        vx, vy = self.read(a, x), self.read(b, y)
        st.set_to(merge_states(self, a, b, c).fork())
        return Temp(merge_val(c, vx, vy))

    def l_ArraySubscriptExpr(self, n, st):
        k = self.kids(n)
        past, self.addrof = (1 if self.addrof else 0), False      # forming the address one past the end is fine
        p = self.rv(k[0], st)
        i = self.rv(k[1], st)
        if isinstance(i, PV) or i.ty.k == "ptr":
            p, i = i, p
        ix = i.x
        if isinstance(p, PV):
            if isinstance(p.lv, Elem):
                par, idx = p.lv.par, simp(p.lv.idx + ix)
                self.arr_bounds(st, par, idx, past)
                return Elem(par, idx, p.lv.ty, p.lv.skip)
            if isinstance(p.lv, Mem):
                off = simp(p.lv.off + ix)
                self.bounds(st, p.lv.base, off, p.lv.ty, past)
                return Mem(p.lv.base, off, p.lv.ty)
            if z3.is_int_value(simp(ix)) and simp(ix).as_long() == 0:
                return p.lv
            raise Unsupported("subscript of pointer to scalar")
        if p.ty.k == "ptr" and len(p.t) == 2:
            off = simp(p.t[1] + ix)
            self.oblige(st, "null", p.t[0] != 0, "non-null array")
            self.bounds(st, p.t[0], off, p.ty.a, past)
            return Mem(p.t[0], off, p.ty.a)
        if p.ty.k == "str" and z3.is_app(simp(p.x)) and simp(p.x).decl().eq(TXT):
            base = simp(p.x).arg(0)
            self.bounds(st, base, ix, INT(8, True), past)
            return Mem(base, ix, INT(8, True))
        raise Unsupported("subscript of %r" % (p.ty,))

    def arr_bounds(self, st, par, idx, past=0):
        t = par.ty
        if t.k == "arr" and t.n is not None:
            self.oblige(st, "bounds", z3.And(idx >= 0, idx < t.n + past), "array access in bounds")
        elif t.k == "tmpl" and t.name == "vector":
            v = self.read(st, par)
            self.oblige(st, "bounds", z3.And(idx >= 0, idx < v.x + past), "vector access in bounds")

    def e_InitListExpr(self, n, st):
        ty = node_type(n)
        k = self.kids(n)
        if ty.k == "arr":
            vals = [self.conv(st, self.rv(c, st), ty.a) for c in k if c.get("kind")]
            base = self.lay.default(ty)
            arrs = list(base.t)
            for i, v in enumerate(vals):
                if v.t is None:
                    raise Unsupported("array of pointers to locals")
                for j in range(len(arrs)):
                    arrs[j] = z3.Store(arrs[j], ival(i), v.t[j])
            return V(ty, arrs)
        if ty.k == "tmpl" and ty.name == "vector":
            vals = [self.conv(st, self.rv(c, st), ty.a[0]) for c in k]
            base = self.lay.default(ty)
            arrs = list(base.t[1:])
            for i, v in enumerate(vals):
                for j in range(len(arrs)):
                    arrs[j] = z3.Store(arrs[j], ival(i), v.t[j])
            return V(ty, [ival(len(vals))] + arrs)
        if len(k) == 1 and ty.k in ("int", "real", "bool", "str", "ptr"):
            return self.conv(st, self.rv(k[0], st), ty)
        if not k:
            return self.lay.default(ty)
        if ty.k == "class" and not self.lay.is_repo_class(ty):
            for c in k:                             # an external structure that only external functions read
                self.rv(c, st)
            return self.lay.default(ty)
        raise Unsupported("initialiser list for %r" % (ty,))

    def e_CXXStdInitializerListExpr(self, n, st):
        v = self.rv(self._first(n), st)
        if v.ty.k == "arr":
            return V(Ty("tmpl", (v.ty.a,), None, "vector"), [ival(v.ty.n)] + v.t)
        raise Unsupported("initializer_list")

    # --- new/delete/construct
    def e_CXXNewExpr(self, n, st):
        ty = node_type(n)
        e = ty.a if ty.k == "ptr" else INT(8, True)
        k = self.kids(n)
        if n.get("isArray"):
            size = self.rv(k[0], st)
            if e.k == "int" and e.a == 8:
                # a character buffer; as a string it stands for its final text
                base = self.new_base(st)
                self.oblige(st, "ub", size.x >= 0, "array size non-negative")
                st.assume(self.LEN(base) == size.x)
                t = TXT(base)
                st.assume(z3.And(t > 0, base > 0))
                return V(STR, [t])
            base = self.new_base(st)
            self.oblige(st, "ub", size.x >= 0, "array size non-negative")
            st.assume(self.LEN(base) == size.x)
            st.assume(base > 0)
            self.mkey(e)
            if len(k) > 1 and k[1].get("kind") in ("InitListExpr", "ImplicitValueInitExpr"):
                kk = self.mkey(e)
                m = self.cellof(st, "mem", kk)[0]
                st.mem[kk] = [z3.Store(m, base, z3.K(I, dflt(self.msorts[kk])))]
            return V(ty, [base, ival(0)])
        if e.k == "class" and self.lay.is_repo_class(e):
            r = self.new_ref(st)
            st.assume(r > 0)
            st.ghost[("cls", str(r))] = None
            self.dyncls = getattr(self, "dyncls", {})
            self.dyncls[str(r)] = self.prog.cls(e.name)
            st.assume(lib.CLSTAG(r) == lib.clstag(self.prog.cls(e.name)))
            obj = V(ty, [r])
            ce = [c for c in k if c.get("kind") == "CXXConstructExpr"]
            if ce:
                self.construct_at(ce[0], st, obj, e)
            return obj
        if e.k in ("real", "int", "bool"):
            base = self.new_base(st)
            st.assume(self.LEN(base) == 1)
            return V(ty, [base, ival(0)])
        # library object
        r = self.new_ref(st)
        st.assume(r > 0)
        for c in k:
            if c.get("kind") == "CXXConstructExpr":
                args = [self.anyv(a, st) for a in self.kids(c)]
                lib.construct_library_object(self, st, e, r, args)
        return V(ty, [r])

    def construct_at(self, ce, st, this, ty):
        """run the constructor named by a CXXConstructExpr on an allocated object"""
        cls = self.prog.cls(ty.name)
        args_n = self.kids(ce)
        cands = [f for f in self.prog.by_q.get(cls + "::" + cls.split("::")[-1], []) if len(f.params) == len(args_n)]
        sig = ce.get("ctorType", {}).get("qualType")
        exact = [f for f in cands if f.sig == sig]
        f = (exact or cands or [None])[0]
        c = self.contracts.get((cls + "::" + cls.split("::")[-1], len(args_n))) or self.contracts.get(cls + "::" + cls.split("::")[-1])
        if f is None and c is None:
            if not args_n:
                # implicit default constructor
                for nme, t, d in self.prog.classes[cls]["fields"]:
                    if t.k in ("str", "tmpl"):
                        self.write(st, self.field(st, this.x, cls, nme), self.lay.default(t))
                return
            raise Unsupported("constructor of %s" % cls)
        args = self.eval_args(f, args_n, st) if f is not None else [self.rv(a, st) for a in args_n]
        if c is not None:
            self.used_contracts.add(cls + "::" + cls.split("::")[-1])
            c(self, st, V(Ty("ptr", ty), this.t), args, f)
            return
        self.call_function(f, st, V(Ty("ptr", ty), this.t), args)

    def e_CXXDeleteExpr(self, n, st):
        p = self.rv(self._first(n), st)
        # destructors of repository classes: effects limited to the object being destroyed (listed assumption)
        lib.on_delete(self, st, p, n)
        return V(VOID, [])

    def e_CXXConstructExpr(self, n, st):
        ty = node_type(n)
        k = [c for c in self.kids(n) if c.get("kind") != "CXXDefaultArgExpr"]
        if ty.k == "class" and self.lay.is_repo_class(ty):
            if len(k) == 1:
                v = self.anyv(k[0], st)
                vt = v.ty
                if vt.k == "class" and self.prog.cls(vt.name) == self.prog.cls(ty.name):
                    if n.get("elidable") or not isinstance(v, LV):
                        return v if not isinstance(v, LV) else self.read(st, v)
                    raise Unsupported("copy of repository object")
            r = self.new_ref(st)
            st.assume(r > 0)
            st.assume(lib.CLSTAG(r) == lib.clstag(self.prog.cls(ty.name)))
            self.dyncls = getattr(self, "dyncls", {})
            self.dyncls[str(r)] = self.prog.cls(ty.name)
            obj = V(Ty("ptr", ty), [r])
            self.construct_at(n, st, obj, ty)
            return V(ty, [r])
        args = [self.anyv(c, st) for c in k]
        return lib.construct(self, st, ty, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # --- calls
    def find_callee(self, rd):
        tu = self.tu()
        f = tu.funcs.get(rd["id"])
        if f is not None and f.body is not None:
            return f
        d = tu.decl.get(rd["id"])
        if d is None and rd.get("kind") == "FunctionDecl" and rd.get("name") not in lib.KNOWN_FUNCS:
            tu.find_global(rd["name"])
            d = tu.decl.get(rd["id"])
            f = tu.funcs.get(rd["id"])
            if d is None:   # a helper outside the namespace, dumped by itself (its node ids are its own)
                for g in tu.funcs.values():
                    if g.qname == rd["name"] and g.body is not None and g.sig == (rd.get("type") or {}).get("qualType"):
                        return g
            if f is not None and f.body is None:
                for g in tu.funcs.values():
                    if g.qname == rd["name"] and g.body is not None and g.sig == f.sig:
                        return g
        if d is None:
            return None
        mg = d.get("mangledName")
        g = self.prog.by_mangled.get(mg)
        if g is not None and g.body is not None:
            return g
        q = tu.qn.get(rd["id"])
        cands = [x for x in self.prog.by_q.get(q, []) if x.sig == d["type"]["qualType"]] or \
                [x for x in tu.funcs.values() if x.qname == q and x.body is not None and x.sig == d["type"]["qualType"]]
        if cands:
            return cands[0]
        if f is not None:
            return f
        return None

    def eval_args(self, f, nodes, st):
        out = []
        for p, a in zip(f.params, nodes):
            q = p["type"]["qualType"].rstrip()
            if a.get("kind") == "CXXDefaultArgExpr":
                continue
            if q.endswith("&"):
                v = self.anyv(a, st)
                if isinstance(v, LV):
                    v = self.resolve(st, v)
                out.append(Alias(v if isinstance(v, LV) else Temp(v)))
            else:
                v = self.rv(a, st)
                out.append(self.conv(st, v, node_type(p)))
        return out

    def finish_call(self, r):
        if isinstance(r, LV):
            return r
        return r

    def call_node(self, n, st):
        k = self.kids(n)
        callee = k[0]
        while callee["kind"] in ("ImplicitCastExpr", "ParenExpr") and callee.get("castKind") in (None, "FunctionToPointerDecay", "BuiltinFnToFnPtr", "NoOp") and callee["kind"] != "DeclRefExpr":
            callee = self._first(callee)
        args = k[1:]
        if callee["kind"] == "DeclRefExpr" and callee["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            rd = callee["referencedDecl"]
            f = self.find_callee(rd)
            if f is not None:
                return self.call_function(f, st, None, self.eval_args(f, args, st), n)
            return lib.call(self, st, rd["name"], args, n, rd)
        # call through a function pointer
        v = self.rv(k[0], st)
        if isinstance(v, LamV):
            return self.call_function(v.func, st, v.this, self.eval_args(v.func, args, st), n)
        return self.call_code(st, v, args, n)

    def call_code(self, st, v, args, n, this=None):
        code = simp(v.x)
        if z3.is_int_value(code):
            return self.call_coded(code.as_long(), st, args, n, this)
        cands = []
        for c, f in self.fcode_rev.items():
            if isinstance(f, tuple):
                continue
            if len(f.params) == len(args) and self.check(st, [code == c], 800) != z3.unsat:
                cands.append(c)
        if not cands:
            raise Unsupported("indirect call with unknown target")
        self.oblige(st, "null", z3.Or([code == c for c in cands]), "indirect call has a known target")
        outs = []
        for c in cands:
            s = st.fork()
            s.pc.append(code == c)
            r = self.call_coded(c, s, args, n, this)
            if isinstance(r, LV):
                r = self.read(s, r)
            if not s.dead:
                outs.append((s, r, code == c))
        if not outs:
            st.dead = True
            return V(VOID, [])
        s, r, _ = outs[-1]
        for s2, r2, c2 in reversed(outs[:-1]):
            r = merge_val(c2, r2, r) if r is not None and r.ty.k != "void" else r
            s = merge_states(self, s2, s, c2)
        st.set_to(s.fork())
        return r

    def call_coded(self, c, st, args, n, this):
        f = self.fcode_rev.get(c)
        if f is None or isinstance(f, tuple):
            if f is not None:
                return lib.call(self, st, f[1], args, n, None)
            raise Unsupported("unknown function code")
        return self.call_function(f, st, this, self.eval_args(f, args, st), n)

    def e_CallExpr(self, n, st):
        r = self.call_node(n, st)
        if isinstance(r, LV):
            r = self.read(st, r)
        return r if r is not None else V(VOID, [])

    def l_CallExpr(self, n, st):
        r = self.call_node(n, st)
        return r if isinstance(r, LV) else Temp(r)

    def member_call(self, n, st):
        k = self.kids(n)
        me = k[0]
        while me["kind"] == "ParenExpr":
            me = self._first(me)
        args = k[1:]
        if me["kind"] == "BinaryOperator" and me["opcode"] in (".*", "->*"):
            mk = self.kids(me)
            o = self.anyv(mk[0], st)
            if me["opcode"] == "->*":
                ov = o if isinstance(o, V) else self.read(st, o)
                this = V(ov.ty, ov.t)
            else:
                ol = self.resolve(st, o) if isinstance(o, LV) else o
                this = V(Ty("ptr", ol.ty), [ol.ref if isinstance(ol, Obj) else self.read(st, ol).x])
            fp = self.rv(mk[1], st)
            return self.call_code(st, fp, args, n, this)
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through %s" % me["kind"])
        base = self._first(me)
        name = me["name"]
        rm = me.get("referencedMemberDecl")
        tu = self.tu()
        # qualified to a repository class?
        cls = tu.owner.get(rm)
        if me.get("isArrow"):
            ov = self.rv(base, st)
            if isinstance(ov, PV):
                o = ov.lv
            elif base["kind"] == "CXXThisExpr" or (base["kind"] == "ImplicitCastExpr" and self._first(base)["kind"] == "CXXThisExpr"):
                o = Obj(ov.x, ov.ty.a)
            else:
                o = self.deref(st, ov)
        else:
            b = self.anyv(base, st)
            o = self.resolve(st, b) if isinstance(b, LV) else Temp(b)
        if isinstance(o, (Field, Local, Elem, Temp)) and o.ty.k == "class" and self.lay.is_repo_class(o.ty):
            o = Obj(self.read(st, o).x, o.ty)
        if cls is not None and isinstance(o, Obj) and self.lay.is_repo_class(o.ty):
            d = tu.decl.get(rm, {})
            return self.invoke_method(st, o, rm, name, args, n, d)
        return lib.method(self, st, o, name, args, n)

    def invoke_method(self, st, o, rm, name, args, n, d):
        tu = self.tu()
        f = self.find_callee({"id": rm, "kind": "CXXMethodDecl", "name": name})
        virt = d.get("virtual") or (f is not None and f.node.get("virtual")) or self.is_virtual(tu.owner.get(rm), name)
        if not isinstance(f, Func):
            f = None
        if virt:
            base_cls = tu.owner.get(rm)
            q = base_cls + "::" + name
            if q in self.contracts:
                self.used_contracts.add(q)
                av = [self.rv(a, st) for a in args]
                return self.contracts[q](self, st, V(Ty("ptr", o.ty), [o.ref]), av, f)
            return self.virtual_call(st, o, base_cls, name, args, n)
        if f is None:
            q = (tu.owner.get(rm) or "?") + "::" + name
            c = self.contracts.get(q)
            if c is None:
                raise Unsupported("no body for %s" % q)
            self.used_contracts.add(q)
            return c(self, st, V(Ty("ptr", o.ty), [o.ref]), [self.rv(a, st) for a in args], None)
        this = None if f.is_static else V(Ty("ptr", Ty("class", name=f.cls)), [o.ref])
        return self.call_function(f, st, this, self.eval_args(f, args, st), n)

    def is_virtual(self, cls, name):
        seen = [cls]
        while seen:
            c = seen.pop()
            info = self.prog.classes.get(c or "")
            if not info:
                continue
            for m in info["node"].get("inner", []):
                if m.get("name") == name and m.get("virtual"):
                    return True
            seen += info["bases"]
        return False

    def virtual_call(self, st, o, base, name, args, n):
        classes = [base] + [c for c in self.prog.subclasses(base)]
        impls = []
        for c in classes:
            fs = [f for f in self.prog.by_q.get(c + "::" + name, []) if len(f.params) == len(args) and f.body is not None]
            if fs:
                impls.append((c, fs[0]))
        if not impls:
            raise Unsupported("virtual call %s::%s without implementations" % (base, name))
        tag = lib.CLSTAG(o.ref)
        live = []
        for c, f in impls:
            if len(impls) == 1 or self.check(st, [tag == lib.clstag(c)], 800) != z3.unsat:
                live.append((c, f))
        if len(live) == 1:
            c, f = live[0]
            return self.call_function(f, st, V(Ty("ptr", Ty("class", name=c)), [o.ref]), self.eval_args(f, args, st), n)
        st.assume(z3.Or([tag == lib.clstag(c) for c, f in live]))
        outs = []
        for c, f in live:
            s = st.fork()
            s.pc.append(tag == lib.clstag(c))
            r = self.call_function(f, s, V(Ty("ptr", Ty("class", name=c)), [o.ref]), self.eval_args(f, args, s), n)
            if isinstance(r, LV):
                r = self.read(s, r)
            if not s.dead:
                outs.append((s, r, tag == lib.clstag(c)))
        if not outs:
            st.dead = True
            return V(VOID, [])
        s, r, _ = outs[-1]
        for s2, r2, c2 in reversed(outs[:-1]):
            r = merge_val(c2, r2, r) if r is not None and r.ty.k != "void" else r
            s = merge_states(self, s2, s, c2)
        st.set_to(s.fork())
        return r

    def e_CXXMemberCallExpr(self, n, st):
        r = self.member_call(n, st)
        if isinstance(r, LV):
            r = self.read(st, r)
        return r if r is not None else V(VOID, [])

    def l_CXXMemberCallExpr(self, n, st):
        r = self.member_call(n, st)
        return r if isinstance(r, LV) else Temp(r)

    def op_call(self, n, st):
        k = self.kids(n)
        c = k[0]
        while c["kind"] != "DeclRefExpr":
            c = self._first(c)
        rd = c["referencedDecl"]
        name = rd["name"]
        if name == "operator()" and len(k) >= 2:
            o = self.anyv(k[1], st)
            v = self.read(st, o) if isinstance(o, LV) else o
            if isinstance(v, LamV):
                return self.call_function(v.func, st, v.this, self.eval_args(v.func, k[2:], st), n)
        f = self.tu().funcs.get(rd["id"])
        if f is not None:
            f = self.find_callee(rd)
            if rd["kind"] == "FunctionDecl":
                return self.call_function(f, st, None, self.eval_args(f, k[1:], st), n)
            o = self.resolve(st, self.lv(k[1], st))
            return self.call_function(f, st, V(Ty("ptr", o.ty), [o.ref]), self.eval_args(f, k[2:], st), n)
        return lib.operator(self, st, name[len("operator"):], k[1:], n)

    def e_CXXOperatorCallExpr(self, n, st):
        r = self.op_call(n, st)
        if isinstance(r, LV):
            r = self.read(st, r)
        return r if r is not None else V(VOID, [])

    def l_CXXOperatorCallExpr(self, n, st):
        r = self.op_call(n, st)
        return r if isinstance(r, LV) else Temp(r)

    def l_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
            return self.lv(self._first(n), st)
        return Temp(self.cast(n, st))

    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CXXConstCastExpr = l_ImplicitCastExpr
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXFunctionalCastExpr = l_ImplicitCastExpr

    def l_CXXThrowExpr(self, n, st):
        raise Unsupported("throw lvalue")

    def e_CXXThrowExpr(self, n, st):
        k = self.kids(n)
        if not k:
            e = getattr(self, "curexc", [ExV("std::exception", fresh("exc", I))])[-1]
        else:
            v = self.rv(k[0], st)
            if isinstance(v, ExV):
                e = v
            else:
                e = ExV(v.ty.name or repr(v.ty), v.x if v.t else fresh("exc", I))
        self.throw(st, e)
        return V(VOID, [])


# enumerators and constants of libstdc++ (std::ios_base)
ENUMS = {"_S_app": 1, "_S_ate": 2, "_S_bin": 4, "_S_in": 8, "_S_out": 16, "_S_trunc": 32}
IOSMODES = {"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}


def _unq(s):
    import ast
    try:
        return ast.literal_eval(s)
    except Exception:
        return s.strip('"')
