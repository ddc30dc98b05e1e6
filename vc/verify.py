"""Verification tasks: one function under contract, one case.  Generation and solving run in a forked worker."""
import os, time, signal, traceback, json, multiprocessing as mp
import z3
from .core import *
from .execu import Exec, Frame
from . import lib, core
from .nl import prove_nl, has_quant

TIMEOUT = int(os.environ.get("VC_TIMEOUT_MS", "20000"))


class Task:
    """name, func qname, setup(ex, st) -> env dict with keys this,args ; post(ex, st, env, ret) -> [(name, goal)];
    exc_post(ex, st, env, exc) -> [(name, goal)] (default: the function must not throw)"""

    def __init__(self, func, setup, post, exc_post=None, name=None, contracts=None, nparams=None, hooks=None, kinds=None,
                 timeout=None, budget=240, vacuity=True, groups=None):
        self.func, self.setup, self.post, self.exc_post = func, setup, post, exc_post
        self.name = name or func
        self.contracts, self.nparams, self.hooks = contracts or {}, nparams, hooks or {}
        self.kinds = kinds          # implicit obligation kinds that belong to the property (None: all)
        self.timeout, self.budget, self.vacuity = timeout, budget, vacuity
        self.groups = groups


class AnyOf:
    """an existential goal given by alternative witnesses"""

    def __init__(self, goals):
        self.goals = goals


class Lemma:
    """pure mathematical lemmas used by the contracts: items() -> [(name, hypotheses, goal)]"""

    def __init__(self, name, items, budget=60):
        self.name, self.items, self.budget = name, items, budget
        self.func, self.timeout = None, None


def run_lemma(task):
    r = Result(task.name)
    t0 = time.time()
    for nm, hyps, goal in (task.items() if callable(task.items) else task.items):
        st, be, m, tm = solve(hyps, goal, 10000)
        if st == "unknown" and prove_nl(hyps, goal, 5000):
            st, be = "proved", "z3"
        s = z3.Solver()
        s.add(*hyps)
        if s.check() == z3.unsat:
            r.vacuous = True
        r.obligations.append({"name": nm, "kind": "lemma", "func": task.name, "line": 0, "task": task.name, "status": st, "backend": be, "time": round(tm, 4)})
        r.solver_time += tm
    r.vacuous = bool(r.vacuous)
    r.time = time.time() - t0
    return r


class Result:
    def __init__(self, task):
        self.task = task
        self.obligations = []   # dicts
        self.error = None
        self.unsupported = None
        self.inlined, self.contracts_used, self.externals, self.notes = [], [], [], []
        self.literals = []
        self.time = 0.0
        self.solver_time = 0.0
        self.vacuous = None


def solve(pc, goal, timeout):
    """(status, backend, model, seconds)"""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    for c in pc:
        s.add(c)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", None, time.time() - t0
    if r == z3.sat:
        return "failed", "z3", s.model(), time.time() - t0
    # second attempt: simplified goal, other tactics
    for tac in ("nl", "cvc5"):
        try:
            if tac == "nl":
                s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
                s2.set("timeout", timeout // 2)
                for c in pc:
                    s2.add(c)
                s2.add(z3.Not(goal))
                r = s2.check()
                if r == z3.unsat:
                    return "proved", "z3(solve-eqs)", None, time.time() - t0
                if r == z3.sat:
                    return "failed", "z3(solve-eqs)", s2.model(), time.time() - t0
            else:
                q = cvc5_try(s, timeout)
                if q is True:
                    return "proved", "cvc5", None, time.time() - t0
        except z3.Z3Exception:
            pass
    return "unknown", "z3", None, time.time() - t0


def cvc5_try(s, timeout):
    import subprocess, tempfile
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
    if "lambda" in txt or "as-array" in txt:
        return None
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout / 1000 + 5)
        return r.stdout.strip().startswith("unsat")
    except Exception:
        return None
    finally:
        os.unlink(f.name)


def prove(o, timeout):
    """discharge one obligation: witnesses first, then contextual rewriting, then the plain query"""
    t0 = time.time()
    for g in (o.witness or []):
        ok, be = try_goal(o.pc, g, timeout)
        if ok:
            return "proved", be, None, time.time() - t0
    ok, be = try_goal(o.pc, o.goal, timeout) if not o.witness else (False, None)
    if ok:
        return "proved", be, None, time.time() - t0
    st, be, m, tm = solve(o.pc, o.goal, timeout)
    return st, be, m, time.time() - t0


def try_goal(pc, g, timeout):
    if not isinstance(g, list):
        g = [g]
    for h in g:
        hs = list(h.children()) if z3.is_and(h) else [h]
        for q in hs:
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(*pc)
            s.add(z3.Not(q))
            r = s.check()
            if r == z3.unsat:
                continue
            if r == z3.sat:
                return False, None
            try:
                if prove_nl(pc, q, 5000):
                    continue
            except z3.Z3Exception:
                pass
            if by_single_quantifier(pc, q):
                continue
            s.set("timeout", min(timeout, 4000))
            if s.check() == z3.unsat:
                continue
            q2 = rewrite(pc, q)
            q2 = z3.simplify(q2, som=True)
            if z3.is_true(q2):
                continue
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*pc)
            s.add(z3.Not(q2))
            if s.check() == z3.unsat:
                continue
            return False, None
    return True, "z3"


def by_single_quantifier(pc, q):
    """the quantifier-free hypotheses and one quantified hypothesis (sound: fewer hypotheses)"""
    qs = [c for c in pc if has_quant(c)]
    if not 1 < len(qs) <= 12:
        return False
    rest = [c for c in pc if not has_quant(c)]
    for c in qs:
        s = z3.Solver()
        s.set("timeout", 700)
        s.add(*rest)
        s.add(c)
        s.add(z3.Not(q))
        if s.check() == z3.unsat:
            return True
    return False


def rewrite(pc, g, depth=3):
    """replace every if-then-else whose condition the path condition decides (each replacement is itself proved)"""
    s = z3.Solver()
    s.set("timeout", 700)
    s.add(*pc)

    def dec(c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if s.check(z3.Not(c)) == z3.unsat:
            return True
        if s.check(c) == z3.unsat:
            return False
        return None
    cache = {}

    def bound(t):
        return any(True for _ in ()) if not z3.is_var(t) else True

    def has_var(t, memo={}):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_var(x) or z3.is_quantifier(x):
                return True
            st.extend(x.children())
        return False

    def walk(t):
        i = t.get_id()
        if i in cache:
            return cache[i]
        r = t
        if z3.is_app(t) and t.num_args():
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                c, a, b = t.children()
                c2 = walk(c)
                d = dec(c2) if not has_var(c2) else None
                r = walk(a) if d is True else walk(b) if d is False else z3.If(c2, walk(a), walk(b))
            else:
                ch = [walk(x) for x in t.children()]
                if any(not x.eq(y) for x, y in zip(ch, t.children())):
                    if z3.is_and(t):
                        r = z3.And(ch)
                    elif z3.is_or(t):
                        r = z3.Or(ch)
                    elif z3.is_add(t):
                        r = z3.Sum(ch)
                    elif z3.is_mul(t):
                        r = z3.Product(ch)
                    else:
                        r = t.decl()(*ch)
        cache[i] = r
        return r
    return z3.simplify(walk(z3.simplify(g)))


def mval(m, t):
    try:
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return str(v)[:80]
    except Exception:
        return None


def run_task(prog, task, want_model=True):
    if isinstance(task, Lemma):
        return run_lemma(task)
    if hasattr(task, 'lib'):
        from .pyvc import run_pytask
        return run_pytask(prog, task)
    r = Result(task.name)
    t0 = time.time()
    ex = Exec(prog, task.contracts)
    ex.hooks = dict(task.hooks)
    ex.deadline = t0 + task.budget
    env = {}
    try:
        f = prog.func(task.func, task.nparams)
        st = State()
        env = task.setup(ex, st) or {}
        ex.pre_pc = list(st.pc)
        ex.pre = st.fork()
        if task.vacuity:
            r.vacuous = (ex.check(st, timeout=8000) == z3.unsat)
        ex.throws = [[]]
        s = st.fork()
        c = ex.contracts.pop(task.func, None)      # the function itself is verified against its body
        c2 = ex.contracts.pop((task.func, len(f.params)), None)
        ex.frames.append(Frame(f, None, f.cls))
        ret = ex.run_body(f, s, env.get("this"), env["args"])
        goals = []
        ex.line = f.line or 0
        if not s.dead:
            for nm, g in task.post(ex, s, env, ret):
                ex.frames[-1] = Frame(f, None, f.cls)
                alts = None
                if isinstance(g, AnyOf):
                    alts, g = g.goals, z3.Or(g.goals)
                n_ob = len(ex.obls)
                ex.oblige(s, "post", g, nm, assume=False)
                if alts and len(ex.obls) > n_ob:
                    ex.obls[-1].witness = alts
        for s2, e in list(ex.throws[-1]):
            ex.unwind(s2, 0)
            if s2.dead:
                continue
            gs = task.exc_post(ex, s2, env, e) if task.exc_post else [("no exception escapes (%s)" % e.cls, z3.BoolVal(False))]
            for nm, g in gs:
                ex.oblige(s2, "post", g, nm, assume=False)
    except Unsupported as e:
        r.unsupported = "%s (line %s)" % (e, ex.line)
    except Exception as e:
        r.error = traceback.format_exc()
    r.inlined = sorted(ex.inlined)
    r.contracts_used = sorted(ex.used_contracts)
    r.externals = sorted(ex.externals)
    r.notes = sorted(ex.notes) + ["imprecise: " + x for x in ex.imprecise]
    r.literals = sorted(ex.numeric_literals)
    obls = ex.obls if not r.error else []
    if task.kinds is not None:
        obls = [o for o in obls if o.kind in task.kinds]
    for o in obls:
        d = {"name": o.name, "kind": o.kind, "func": o.func, "line": o.line, "task": task.name}
        if o.status == "proved":
            d.update(status="proved", backend=o.backend, time=0.0)
        elif time.time() > t0 + task.budget:
            d.update(status="unknown", backend="budget", time=0.0)
        else:
            status, be, m, tm = prove(o, task.timeout or TIMEOUT)
            if status == "failed" and not o.imprecise and ex.hvnames:
                from .loops import declnames
                o.imprecise = any(declnames(c) & ex.hvnames for c in [o.goal] + [c for c in o.pc if c.get_id() not in ex.hvfacts])
            d.update(status=status, backend=be, time=round(tm, 4), imprecise=o.imprecise)
            r.solver_time += tm
            if m is not None and want_model:
                d["model"] = {k: mval(m, t) for k, t in env.get("inputs", {}).items()}
        r.obligations.append(d)
    r.solver_time += ex.solver_time
    r.time = time.time() - t0
    return r


_G = {}


def _worker(i):
    prog, tasks = _G["prog"], _G["tasks"]
    try:
        return i, run_task(prog, tasks[i])
    except BaseException as e:
        r = Result(tasks[i].name)
        r.error = traceback.format_exc()
        return i, r


def run_tasks(prog, tasks, procs=8, wall=700):
    """run all tasks in forked workers; a worker that dies or overruns yields an 'unknown' result"""
    _G["prog"], _G["tasks"] = prog, tasks
    ctx = mp.get_context("fork")
    out = [None] * len(tasks)
    t0 = time.time()
    pend = list(range(len(tasks)))
    live = {}

    def child(i, conn):
        try:
            _, r = _worker(i)
            conn.send(r)
        except BaseException:
            pass
        finally:
            conn.close()
            os._exit(0)
    while pend or live:
        while pend and len(live) < procs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        for i, (p, a, ts) in list(live.items()):
            if a.poll(0.02):
                try:
                    out[i] = a.recv()
                except EOFError:
                    r = Result(tasks[i].name)
                    r.error = "worker died"
                    out[i] = r
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
            elif time.time() - ts > tasks[i].budget + 60 or time.time() - t0 > wall:
                p.kill()
                r = Result(tasks[i].name)
                r.unsupported = "time budget exhausted"
                out[i] = r
                del live[i]
    return out
