"""Contracts of the C interface (cquery.cc, cerrorhandler.cc) and of ErrorHandler."""
from ..spec import *
from ..core import str_contains, ExV
from .hyperslab import NODATA
from .query import QU, EH

EREF, QREF = 71, 72
WHAT = z3.Const("exception_message", I)
OKS, WARNS, ERRS = 0, 1, 2


def opt(name):
    return z3.Bool(name)


def throwing(ghost, result):
    """contract of a Query method as the C layer sees it: it records the call, and either returns or throws an exception derived from std::exception"""
    def f(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, ghost + ": query exists")
        st.ghost["calls"] = V(INT32, [simp(st.ghost["calls"].x + 1)])
        st.ghost["called"] = V(STR, [strlit(ghost)])
        for i, a in enumerate(args):
            st.ghost["arg%d" % i] = a
        for c in ("std::runtime_error", "std::logic_error", "std::bad_alloc"):
            ex.throw(st, ExV(c, WHAT), z3.Bool("throws_" + c))
        return result(ex, st, args)
    return f


def plain(ghost):
    def f(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, ghost + ": query exists")
        st.ghost["calls"] = V(INT32, [simp(st.ghost["calls"].x + 1)])
        st.ghost["called"] = V(STR, [strlit(ghost)])
        for i, a in enumerate(args):
            st.ghost["arg%d" % i] = a
        return V(VOID, [])
    return f


def c_log(ex, st, this, args, fn):
    """contract of ErrorHandler::logMessage (C13): status and message are unchanged"""
    ex.oblige(st, "null", this.x != 0, "logMessage: error handler exists")
    return V(VOID, [])


NTHROW = z3.And(*[z3.Not(z3.Bool("throws_" + c)) for c in ("std::runtime_error", "std::logic_error", "std::bad_alloc")])
ELEV = z3.Real("elevation")
QST = z3.Int("query_status")
CON = {QU + "::initialize": throwing("initialize", lambda ex, st, a: V(VOID, [])),
       QU + "::queryTopElevation": throwing("queryTopElevation", lambda ex, st, a: V(REAL, [ELEV])),
       QU + "::queryTopoBathyElevation": throwing("queryTopoBathyElevation", lambda ex, st, a: V(REAL, [ELEV])),
       QU + "::query": throwing("query", lambda ex, st, a: V(INT32, [QST])),
       QU + "::finalize": throwing("finalize", lambda ex, st, a: V(VOID, [])),
       QU + "::setSquashMinElev": plain("setSquashMinElev"), QU + "::setSquashing": plain("setSquashing"),
       EH + "::logMessage": c_log}


def qobj(ex, st, null):
    st.ghost["calls"] = V(INT32, [ival(0)])
    st.ghost["called"] = V(STR, [strlit("")])
    this_obj(ex, st, QU, QREF)
    this_obj(ex, st, EH, EREF)
    setf(ex, st, QREF, QU, "_errorHandler", [ival(EREF)])
    s0, m0 = z3.Ints("status0 message0")
    st.assume(z3.And(s0 >= 0, s0 <= 2, WHAT > 0, m0 > 0))
    setf(ex, st, EREF, EH, "_status", s0)
    setf(ex, st, EREF, EH, "_message", m0)
    st.assume(z3.And(QST >= 0, QST <= 2))
    return dict(this=None, h=V(ptr(VOID), [ival(0 if null else QREF)]), s0=s0, m0=m0, inputs={})


def eh(ex, st):
    return getf(ex, st, EREF, EH, "_status").x, getf(ex, st, EREF, EH, "_message").x


def unchanged(ex, st, o):
    s, m = eh(ex, st)
    return z3.And(s == o["s0"], m == o["m0"])


def contains_what(m):
    """the message term is, or is a concatenation that contains, the exception's message"""
    def parts(t):
        if z3.is_app(t) and t.decl().eq(CAT_):
            return parts(t.arg(0)) or parts(t.arg(1))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return parts(t.arg(1)) and parts(t.arg(2))
        return t.eq(WHAT)
    return z3.BoolVal(parts(z3.simplify(m))) if not z3.is_true(z3.simplify(m == WHAT)) else z3.BoolVal(True)


from ..core import CAT as CAT_
FLATEQ = z3.Function("has_exception_message", I, B)


def message_has_what(ex, st, m):
    """axioms: the exception's text occurs in itself and in every concatenation with an operand that has it"""
    st.assume(FLATEQ(WHAT))
    seen, todo = set(), [m] + [c for c in st.pc]
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().eq(CAT_):
            st.assume(z3.Implies(z3.Or(FLATEQ(t.arg(0)), FLATEQ(t.arg(1))), FLATEQ(t)))
        todo.extend(t.children())
    return FLATEQ(m)


XYZ = [V(REAL, [z3.Real(a)]) for a in "xyz"]


def same_args(st, *vals):
    g = []
    for i, v in enumerate(vals):
        a = st.ghost.get("arg%d" % i)
        if a is None:
            return z3.BoolVal(False)
        if isinstance(a, Alias):
            return z3.BoolVal(False)
        g += [x == y for x, y in zip(a.t, v.t)]
    return z3.And(g)


def ghost_args(st, kinds):
    for i, v in enumerate(kinds):
        st.ghost["arg%d" % i] = V(v.ty, [z3.Const(fresh_name("noarg"), x.sort()) for x in v.t])


def once(st, name):
    return z3.And(st.ghost["calls"].x == 1, st.ghost["called"].x == strlit(name))


def t_value(cname, method, null, kind):
    """kind: elev (two coordinates, returns the elevation) or query (values, three coordinates, returns a status)"""
    def setup(ex, st):
        o = qobj(ex, st, null)
        vals, vrow = symarr(ex, st, 721, z3.Int("nv"), REAL, "values")
        a = XYZ[:2] if kind == "elev" else [vals] + XYZ
        ghost_args(st, a)
        o["args"] = [o["h"]] + a
        o["a"] = a
        return o

    def post(ex, st, o, ret):
        s, m = eh(ex, st)
        if null:
            return [("null handle: " + ("NODATA" if kind == "elev" else "ERROR") + ", nothing else", z3.And(ret.x == (NODATA if kind == "elev" else ERRS), st.ghost["calls"].x == 0))]
        g = [("exactly the C++ operation", once(st, method)), ("with the same arguments", same_args(st, *o["a"])),
             ("an exception becomes an ERROR status", z3.Implies(z3.Not(NTHROW), s == ERRS)),
             ("carrying its message", z3.Implies(z3.Not(NTHROW), message_has_what(ex, st, m)))]
        if kind == "elev":
            g += [("the elevation is returned", z3.Implies(NTHROW, ret.x == ELEV)), ("NODATA after an exception", z3.Implies(z3.Not(NTHROW), ret.x == NODATA)),
                  ("outside all models sets WARNING", z3.Implies(z3.And(NTHROW, ELEV == NODATA), s == WARNS)),
                  ("otherwise the error handler is unchanged", z3.Implies(z3.And(NTHROW, ELEV != NODATA), unchanged(ex, st, o)))]
        else:
            g += [("the error handler's status is returned", ret.x == s), ("outside all models sets WARNING", z3.Implies(z3.And(NTHROW, QST == WARNS), s == WARNS)),
                  ("otherwise the error handler is unchanged", z3.Implies(z3.And(NTHROW, QST != WARNS), unchanged(ex, st, o)))]
        return g
    return Task(cname, setup, post, name="%s, %s" % (cname, "null handle" if null else "valid handle"), contracts=CON)


def t_simple(cname, method, null, args, canthrow, expect=None, extra=None):
    def setup(ex, st):
        o = qobj(ex, st, null)
        o["a"] = args(ex, st)
        ghost_args(st, expect(o["a"]) if expect else o["a"])
        o["args"] = [o["h"]] + o["a"]
        return o

    def post(ex, st, o, ret):
        s, m = eh(ex, st)
        if null:
            return [("null handle: ERROR, nothing else", z3.And(ret.x == ERRS, st.ghost["calls"].x == 0))]
        g = [("exactly the C++ operation", once(st, method)), ("the error handler's status is returned", ret.x == s)]
        if extra:
            return g + extra(ex, st, o, ret)
        g += [("with the same arguments", same_args(st, *o["a"]))] if o["a"] else []
        if canthrow:
            g += [("an exception becomes an ERROR status carrying its message", z3.Implies(z3.Not(NTHROW), z3.And(s == ERRS, message_has_what(ex, st, m)))),
                  ("otherwise the error handler is unchanged", z3.Implies(NTHROW, unchanged(ex, st, o)))]
        else:
            g += [("the error handler is unchanged", unchanged(ex, st, o))]
        return g
    return Task(cname, setup, post, name="%s, %s" % (cname, "null handle" if null else "valid handle"), contracts=CON)


# ------------------------------------------------------------------------------------------ initialize
def t_init(null):
    def setup(ex, st):
        o = qobj(ex, st, null)
        nf, nv = z3.Ints("nfiles nvalues")
        st.assume(z3.And(nf >= 0, nv >= 0))
        files, frow = symarr(ex, st, 731, nf, STR, "files")
        names, nrow = symarr(ex, st, 732, nv, STR, "names")
        i = z3.Int("ci")
        for n, rw in ((nf, frow), (nv, nrow)):
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(rw, i) > 0), patterns=[z3.Select(rw, i)]))
        crs = z3.Int("crs")
        st.assume(crs >= 0)
        VS = Ty("tmpl", (STR,), None, "vector")
        st.ghost["arg0"] = V(VS, [z3.Int("g0n"), z3.Const("g0", z3.ArraySort(I, I))])
        st.ghost["arg1"] = V(VS, [z3.Int("g1n"), z3.Const("g1", z3.ArraySort(I, I))])
        st.ghost["arg2"] = V(STR, [z3.Int("g2")])
        o.update(nf=nf, nv=nv, frow=frow, nrow=nrow, crs=crs, args=[o["h"], files, V(INT32, [nf]), names, V(INT32, [nv]), V(STR, [crs])])
        return o

    def post(ex, st, o, ret):
        s, m = eh(ex, st)
        if null:
            return [("null handle: ERROR, nothing else", z3.And(ret.x == ERRS, st.ghost["calls"].x == 0))]
        i = z3.Int("i")
        a0, a1, a2 = [st.ghost["arg%d" % k] for k in range(3)]
        ok = o["crs"] != 0
        return [("the error handler's status is returned", ret.x == s),
                ("exactly the C++ operation", z3.Implies(ok, once(st, "initialize"))),
                ("with the same model files", z3.Implies(ok, z3.And(a0.t[0] == o["nf"], z3.Implies(z3.And(i >= 0, i < o["nf"]), z3.Select(a0.t[1], i) == z3.Select(o["frow"], i))))),
                ("with the same value names", z3.Implies(ok, z3.And(a1.t[0] == o["nv"], z3.Implies(z3.And(i >= 0, i < o["nv"]), z3.Select(a1.t[1], i) == z3.Select(o["nrow"], i))))),
                ("with the same CRS", z3.Implies(ok, a2.x == o["crs"])),
                ("an exception becomes an ERROR status", z3.Implies(z3.Or(z3.Not(ok), z3.Not(NTHROW)), s == ERRS)),
                ("carrying its message", z3.Implies(z3.And(ok, z3.Not(NTHROW)), message_has_what(ex, st, m))),
                ("otherwise the error handler is unchanged", z3.Implies(z3.And(ok, NTHROW), unchanged(ex, st, o)))]
    con = dict(CON)

    def init(ex, st, this, args, fn):
        vs = [ex.read(st, a.lv) if isinstance(a, Alias) else a for a in args]
        return CON[QU + "::initialize"](ex, st, this, vs, fn)
    con[QU + "::initialize"] = init
    return Task("geomodelgrids_squery_initialize", setup, post, name="geomodelgrids_squery_initialize, %s" % ("null handle" if null else "valid handle"), contracts=con)


def t_geteh(null):
    def setup(ex, st):
        o = qobj(ex, st, null)
        o["args"] = [o["h"]]
        return o
    return Task("geomodelgrids_squery_getErrorHandler", setup, lambda ex, st, o, ret: [("null for a null handle" if null else "the query's error handler", ret.x == (0 if null else EREF))],
                name="geomodelgrids_squery_getErrorHandler, %s" % ("null handle" if null else "valid handle"), contracts=CON)


def t_destroy(null):
    def setup(ex, st):
        o = qobj(ex, st, False)
        P = ptr(ptr(VOID))
        if null:
            o["args"] = [V(P, [ival(0), ival(0)])]
        else:
            p, rw = symarr(ex, st, 733, ival(1), ptr(VOID), "handle")
            o["p"] = p
            o["args"] = [p]
        st.ghost["deleted"] = V(INT32, [ival(0)])
        return o

    def on_del(ex, st, p, c):
        st.ghost["deleted"] = V(INT32, [p.x])

    def post(ex, st, o, ret):
        if null:
            return [("nothing is done for a null pointer", st.ghost["deleted"].x == 0)]
        return [("the query is deleted", st.ghost["deleted"].x == z3.Select(z3.Const("handle", z3.ArraySort(I, I)), 0)), ("the handle is nulled", elem(ex, st, o["p"], 0) == 0)]
    return Task("geomodelgrids_squery_destroy", setup, post, name="geomodelgrids_squery_destroy, %s" % ("null pointer" if null else "valid handle"), contracts=CON, hooks={"delete": on_del})


def tasks_cquery():
    t = []
    for null in (False, True):
        t += [t_value("geomodelgrids_squery_queryTopElevation", "queryTopElevation", null, "elev"), t_value("geomodelgrids_squery_queryTopoBathyElevation", "queryTopoBathyElevation", null, "elev"),
              t_value("geomodelgrids_squery_query", "query", null, "query"),
              t_simple("geomodelgrids_squery_setSquashMinElev", "setSquashMinElev", null, lambda ex, st: [V(REAL, [z3.Real("value")])], False),
              t_simple("geomodelgrids_squery_setSquashing", "setSquashing", null, lambda ex, st: [V(INT32, [z3.Int("value")])], False, extra=lambda ex, st, o, ret: [
                  ("the same surface is chosen", z3.Implies(z3.And(z3.Int("value") >= 0, z3.Int("value") <= 2), z3.And(same_args(st, *o["a"]), unchanged(ex, st, o)))),
                  ("an unknown type is an error", z3.Implies(z3.Or(z3.Int("value") < 0, z3.Int("value") > 2), eh(ex, st)[0] == ERRS))]),
              t_simple("geomodelgrids_squery_finalize", "finalize", null, lambda ex, st: [], True),
              t_init(null), t_geteh(null), t_destroy(null)]
    return t


# ------------------------------------------------------------------------------------------ ErrorHandler
LOGREF = 75
NULLFILE = "/dev/null"


def stream_hook(ex, st, o, name, argnodes, node):
    """ghost model of the log stream: the file it is open on (0: closed) and how it was opened"""
    if name == "open":
        a = [ex.rv(x, st) for x in argnodes]
        st.ghost["open"] = V(STR, [a[0].x])
        st.ghost["mode"] = V(INT32, [a[1].x if len(a) > 1 and a[1].t is not None and a[1].ty.k == "int" else ival(16)])
        return V(VOID, [])
    if name == "close":
        st.ghost["open"] = V(STR, [ival(0)])
        return V(VOID, [])
    if name == "is_open":
        return V(BOOL, [st.ghost["open"].x != 0])
    if name == "clear":
        return V(VOID, [])
    return NotImplemented


def out_hook(ex, st, o, txt):
    st.ghost["written"] = V(STR, [txt])
    st.ghost["writes"] = V(INT32, [simp(st.ghost["writes"].x + 1)])


EHOOKS = {"stream": stream_hook, "out": out_hook}


def eh_obj(ex, st):
    this = this_obj(ex, st, EH, EREF)
    s0, m0, f0, op0 = z3.Ints("status0 message0 logfile0 open0")
    st.assume(z3.And(s0 >= 0, s0 <= 2, m0 > 0, z3.Or(f0 > 0, f0 == strlit(NULLFILE), f0 == strlit(""))))
    setf(ex, st, EREF, EH, "_status", s0)
    setf(ex, st, EREF, EH, "_message", m0)
    setf(ex, st, EREF, EH, "_logFilename", f0)
    setf(ex, st, EREF, EH, "_log", [ival(LOGREF)])
    st.ghost["open"] = V(STR, [op0])
    st.ghost["mode"] = V(INT32, [z3.Int("mode0")])
    st.ghost["written"] = V(STR, [z3.Int("written0")])
    st.ghost["writes"] = V(INT32, [ival(0)])
    return dict(this=this, s0=s0, m0=m0, f0=f0, op0=op0, inputs={})


def ehtask(m, args, post, nparams=None):
    def setup(ex, st):
        o = eh_obj(ex, st)
        o["a"] = args(st)
        o["args"] = o["a"]
        return o
    return Task(EH + "::" + m, setup, post, name="ErrorHandler::" + m, hooks=EHOOKS)


def logfile(ex, st):
    return getf(ex, st, EREF, EH, "_logFilename").x


def frame_log(ex, st, o):
    return ("frame: the log is unchanged", z3.And(logfile(ex, st) == o["f0"], st.ghost["open"].x == o["op0"], st.ghost["writes"].x == 0))


def frame_status(ex, st, o):
    return ("frame: status and message are unchanged", unchanged(ex, st, o))


def text(name):
    def f(st):
        t = z3.Int(name)
        st.assume(t > 0)
        return [V(STR, [t])]
    return f


APP, TRUNC = 1, 32      # std::ios::app, std::ios::trunc (libstdc++)


def hasbit(v, b):
    return (v / ival(b)) % 2 == 1


def tasks_handler():
    msg = z3.Int("msg")

    def rep(status):
        return lambda ex, st, o, ret: [("that status is reported", eh(ex, st)[0] == status), ("that message is reported", eh(ex, st)[1] == msg), frame_log(ex, st, o)]
    t = [ehtask("setError", text("msg"), rep(ERRS)), ehtask("setWarning", text("msg"), rep(WARNS)),
         ehtask("resetStatus", lambda st: [], lambda ex, st, o, ret: [("OK and an empty message", z3.And(eh(ex, st)[0] == OKS, eh(ex, st)[1] == strlit(""))), frame_log(ex, st, o)]),
         ehtask("getStatus", lambda st: [], lambda ex, st, o, ret: [("the last reported status", ret.x == o["s0"]), frame_status(ex, st, o), frame_log(ex, st, o)]),
         ehtask("getMessage", lambda st: [], lambda ex, st, o, ret: [("the last reported message", ret.x == o["m0"]), frame_status(ex, st, o), frame_log(ex, st, o)]),
         ehtask("getLogFilename", lambda st: [], lambda ex, st, o, ret: [("the log file", ret.x == o["f0"]), frame_status(ex, st, o), frame_log(ex, st, o)]),
         ehtask("setLogFilename", text("filename"), lambda ex, st, o, ret: [("the log file is kept", logfile(ex, st) == z3.Int("filename")), ("the log is open on it", st.ghost["open"].x == z3.Int("filename")),
                                                                           ("nothing is written", st.ghost["writes"].x == 0), frame_status(ex, st, o)]),
         ehtask("logMessage", text("msg"), lambda ex, st, o, ret: [("the text is written to the log, once", z3.And(st.ghost["writes"].x == 1, st.ghost["written"].x == msg)),
                                                                    ("the log stays open on the same file", z3.And(st.ghost["open"].x == o["op0"], logfile(ex, st) == o["f0"])), frame_status(ex, st, o)])]
    on = z3.Bool("turnOn")

    def post_on(ex, st, o, ret):
        named = o["f0"] != strlit("")
        return [("on: the log is open on the log file", z3.Implies(z3.And(on, named), st.ghost["open"].x == o["f0"])),
                ("on: text already in the log file is kept", z3.Implies(z3.And(on, named), z3.And(hasbit(st.ghost["mode"].x, APP), z3.Not(hasbit(st.ghost["mode"].x, TRUNC))))),
                ("off: the log is not open on the log file", z3.Implies(z3.And(z3.Not(on), o["f0"] != strlit(NULLFILE)), st.ghost["open"].x != o["f0"])),
                ("the log file is kept", logfile(ex, st) == o["f0"]), ("nothing is written", st.ghost["writes"].x == 0), frame_status(ex, st, o)]
    t.append(ehtask("setLoggingOn", lambda st: [V(BOOL, [on])], post_on))
    return t


# ------------------------------------------------------------------------------------------ C interface of the error handler
CE = "geomodelgrids_cerrorhandler_"


def t_ceh(cname, method, args, nullret, retty, null):
    def setup(ex, st):
        o = qobj(ex, st, null)
        a = args(st)
        ghost_args(st, a)
        o.update(a=a, args=[V(ptr(VOID), [ival(0 if null else EREF)])] + a)
        return o

    def con(ex, st, this, cargs, fn):
        plain(method)(ex, st, this, cargs, fn)
        ex.oblige(st, "null", this.x == EREF, method + ": the handle's error handler")
        return V(VOID, []) if retty is None else V(retty, [z3.Int("result")])

    def post(ex, st, o, ret):
        g = []
        if null:
            g.append(("null handle: nothing is done", st.ghost["calls"].x == 0))
            if retty is not None:
                g.append(("null handle: default result", ret.x == nullret))
            return g
        g.append(("exactly the C++ operation", once(st, method)))
        if o["a"]:
            b = o["a"][0]
            a = st.ghost["arg0"]
            ax, bx = a.x, b.x
            if ax.sort() != bx.sort():
                ax = z3.If(ax, 1, 0) if ax.sort() == B else ax
                bx = z3.If(bx != 0, 1, 0)
            g.append(("with the same argument", ax == bx))
        if retty is not None:
            g.append(("its result is returned", ret.x == z3.Int("result")))
        return g

    def setup2(ex, st):
        o = setup(ex, st)
        st.assume(z3.And(z3.Int("result") >= 0, z3.Int("result") <= 2) if method == "getStatus" else z3.Int("result") > 0)
        return o
    return Task(CE + method, setup2, post, name=CE + method + (", null handle" if null else ", valid handle"), contracts={EH + "::" + method: con})


def tasks_ceh():
    t = []
    for null in (False, True):
        t += [t_ceh("", "setLogFilename", text("filename"), None, None, null), t_ceh("", "setLoggingOn", lambda st: [V(INT32, [z3.Int("value")])], None, None, null),
              t_ceh("", "resetStatus", lambda st: [], None, None, null), t_ceh("", "getStatus", lambda st: [], 0, INT32, null),
              t_ceh("", "getMessage", lambda st: [], 0, STR, null), t_ceh("", "getLogFilename", lambda st: [], 0, STR, null)]
    return t
