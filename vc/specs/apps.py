"""Contracts of the command line programs: geomodelgrids_query, geomodelgrids_queryelev (C18), geomodelgrids_borehole (C19)."""
from ..spec import *
from ..core import ExV
from .hyperslab import NODATA

QU, EH = S + "Query", U + "ErrorHandler"
AREF, EHREF = 81, 82
VALQ = z3.Function("QVAL", I, R, R, R, R)
TOPEL, TBEL = z3.Function("Q_TOPELEV", R, R, R), z3.Function("Q_TBELEV", R, R, R)
IN = z3.Function("INPUT_NUMBER", I, R)
NIN, NVAL = z3.Int("numbers_in_file"), z3.Int("nvalues")
NONL, MALFORMED, INOK, OUTOK = z3.Bools("no_newline_at_end junk_after_numbers input_opens output_opens")
FLAGS = ("eof", "fail")


class World:
    """ghost model of the point file, the output file and the query the program opens"""

    def __init__(self, app, per, ncol, expected, nrows, reads=True):
        self.app, self.per, self.ncol, self.expected, self.nrows, self.reads = A + app, per, ncol, expected, nrows, reads

    def init(self, ex, st):
        g = st.ghost
        for k in ("inpos", "rows", "col", "headers", "opened", "initialized", "messages", "order"):
            g[k] = V(SIZE, [ival(0)])
        st.assume(z3.And(NIN >= 0, NVAL >= 1, z3.Implies(MALFORMED, z3.Not(NONL)), z3.Implies(NONL, NIN > 0)))

    def is_in(self, o):
        return "ifstream" in (o.ty.name or "")

    # ---- streams
    def sctor(self, ex, st, nm, v):
        if "ifstream" in nm:
            ex.oblige(st, "pre", v.x == getf(ex, st, AREF, self.app, "_pointsFilename").x, "points are read from the file asked for")
        elif "ofstream" in nm:
            ex.oblige(st, "pre", v.x == getf(ex, st, AREF, self.app, "_outputFilename").x, "output is written to the file asked for")
            st.ghost["opened"] = V(SIZE, [simp(st.ghost["opened"].x + 1)])
        else:
            return NotImplemented
        return V(Ty("class", name=nm), [v.x])

    def stream(self, ex, st, o, name, argnodes, node):
        g = lambda k: st.ghost[k].x
        inp = self.is_in(o)
        if "stringstream" in (o.ty.name or ""):
            return NotImplemented
        tried = g("inpos")            # extractions so far
        bad = z3.Or(z3.Not(INOK), tried > NIN) if inp else z3.Not(OUTOK)
        eof = z3.And(INOK, z3.Or(z3.And(NONL, tried >= NIN), z3.And(tried > NIN, z3.Not(MALFORMED)))) if inp else z3.BoolVal(False)
        if name == "is_open":
            return V(BOOL, [INOK if inp else OUTOK])
        if name in ("fail", "operator!"):
            return V(BOOL, [bad])
        if name == "operator bool":
            return V(BOOL, [z3.Not(bad)])
        if name == "eof":
            return V(BOOL, [eof])
        if name == "good":
            return V(BOOL, [z3.Not(z3.Or(bad, eof))])
        if name == "bad":
            return V(BOOL, [z3.BoolVal(False)])
        if name in ("close", "flush"):
            return V(VOID, [])
        return NotImplemented

    def inp(self, ex, st, o, arg):
        """an extraction reads the next number of the file; past the last one it fails and leaves an unspecified number"""
        l = ex.lv(arg, st)
        pos = st.ghost["inpos"].x
        ex.write(st, l, V(REAL, [IN(pos)]))
        st.ghost["inpos"] = V(SIZE, [simp(pos + 1)])
        return o

    def out(self, ex, st, o, txt):
        if "ofstream" not in (o.ty.name or ""):
            if "stringstream" not in (o.ty.name or ""):
                st.ghost["messages"] = V(SIZE, [simp(st.ghost["messages"].x + 1)])
            return
        g = lambda k: st.ghost[k].x
        if z3.is_int_value(txt):
            t = str_of(txt)
            if t == "":
                return
            if t is not None and t.strip() == "" or t is not None and "\n" in t:
                if "\n" in t:
                    ex.oblige(st, "pre", z3.And(t.count("\n") == 1, g("col") == self.ncol), "a row ends after the last of its columns")
                    st.ghost["rows"] = V(SIZE, [simp(g("rows") + 1)])
                    st.ghost["col"] = V(SIZE, [ival(0)])
                return
        if txt.decl().eq(REALSTR) or txt.decl().eq(NUMSTR):
            v = txt.arg(0)
            v = v if v.sort() == R else z3.ToReal(v)
            r, c = g("rows"), g("col")
            ex.oblige(st, "pre", g("headers") == 1, "numbers follow the header")
            ex.oblige(st, "pre", c < self.ncol, "no more columns than expected")
            for nm, cond, want in self.expected(r, c):
                ex.oblige(st, "pre", z3.Implies(cond, v == want), nm)
            st.ghost["col"] = V(SIZE, [simp(c + 1)])
            return
        ex.oblige(st, "pre", z3.And(g("rows") == 0, g("col") == 0, g("headers") == 0, txt == z3.Int("HEADER")), "one header, at the start")
        st.ghost["headers"] = V(SIZE, [simp(g("headers") + 1)])

    def hooks(self):
        return {"sctor": self.sctor, "stream": self.stream, "in": self.inp, "out": self.out}

    # ---- the query
    def qinit(self, values):
        def f(ex, st, this, args, fn):
            a = [ex.read(st, x.lv) if isinstance(x, Alias) else x for x in args]
            models, crs = getf(ex, st, AREF, self.app, "_modelFilenames"), getf(ex, st, AREF, self.app, "_pointsCRS")
            ex.oblige(st, "pre", z3.And([x == y for x, y in zip(a[0].t, models.t)]), "the models asked for are opened")
            if values:
                vn = getf(ex, st, AREF, self.app, "_valueNames")
                ex.oblige(st, "pre", z3.And([x == y for x, y in zip(a[1].t, vn.t)]), "the values asked for are queried")
            ex.oblige(st, "pre", a[2].x == crs.x, "points are in the CRS given")
            st.ghost["initialized"] = V(SIZE, [simp(st.ghost["initialized"].x + 1)])
            ex.throw(st, ExV("std::runtime_error", z3.Int("init_error")), z3.Bool("query_not_opened"))
            return V(VOID, [])
        return f

    def query(self, ex, st, this, args, fn):
        p, x, y, z = args[0], args[1].x, args[2].x, args[3].x
        if not (isinstance(p, PV) and isinstance(p.lv, Elem)):
            raise Unsupported("query into %r" % (p,))
        ex.oblige(st, "pre", st.ghost["initialized"].x == 1, "the query is open")
        v = ex.read(st, p.lv.par)
        ex.oblige(st, "bounds", z3.And(p.lv.idx == 0, v.t[0] >= NVAL), "room for every value")
        j = z3.Int(fresh_name("j"))
        ex.write(st, p.lv.par, V(v.ty, [v.t[0], z3.Lambda([j], VALQ(j, x, y, z))]))
        return V(INT32, [fresh("status", I)])

    def elev(self, F):
        def f(ex, st, this, args, fn):
            ex.oblige(st, "pre", st.ghost["initialized"].x == 1, "the query is open")
            return V(REAL, [F(args[0].x, args[1].x)])
        return f

    def contracts(self, values=True):
        noop = lambda ex, st, this, args, fn: V(VOID, [])
        return {self.app + "::_parseArgs": noop, self.app + "::_printHelp": noop,
                self.app + "::_createOutputHeader": lambda ex, st, this, args, fn: V(STR, [z3.Int("HEADER")]),
                QU + "::Query": noop, QU + "::~Query": noop, QU + "::initialize": self.qinit(values), QU + "::query": self.query, QU + "::finalize": noop,
                QU + "::queryTopElevation": self.elev(TOPEL), QU + "::queryTopoBathyElevation": self.elev(TBEL),
                QU + "::getErrorHandler": lambda ex, st, this, args, fn: V(Ty("tmpl", (cls(EH),), None, "shared_ptr"), [ival(EHREF)]),
                EH + "::setLogFilename": noop, EH + "::setLoggingOn": noop}


def str_of(t):
    from ..core import _strs_rev
    return _strs_rev.get(t.as_long())


def base_setup(w, ex, st, help_=False, values=True):
    t = this_obj(ex, st, w.app, AREF)
    w.init(ex, st)
    setf(ex, st, AREF, w.app, "_showHelp", z3.BoolVal(help_))
    if values:
        st.assume(getf(ex, st, AREF, w.app, "_valueNames").t[0] == NVAL)
    return dict(this=t, args=[V(INT32, [z3.Int("argc")]), V(ptr(STR), [z3.Int("argv"), ival(0)])])


def t_points(app, help_=False):
    query = app == "Query"
    per, ncol = (3, 3 + NVAL) if query else (2, z3.IntVal(3))

    def expected(r, c):
        pt = [IN(per * r + i) for i in range(per)]
        out = [("column %d is the point's own coordinate" % (i + 1), c == i, pt[i]) for i in range(per)]
        if query:
            out.append(("the values of that point follow in the order asked for", c >= 3, VALQ(c - 3, *pt)))
        else:
            out.append(("the elevation of the surface asked for at that point", c == 2, z3.If(z3.Bool("use_topography"), TBEL(*pt), TOPEL(*pt))))
        return out
    w = World(app, per, ncol, expected, None)

    def setup(ex, st):
        o = base_setup(w, ex, st, help_, query)
        if not query:
            setf(ex, st, AREF, w.app, "_useTopoBathy", z3.Bool("use_topography"))
        else:
            pass
        o["inputs"] = {"numbers in the file": NIN, "no newline at the end": NONL}
        return o

    def sq(k):
        def f(ex, st, this, args, fn):
            ex.oblige(st, "pre", st.ghost["rows"].x == 0, "squashing is set before the points are queried")
            ex.oblige(st, "pre", args[0].x == getf(ex, st, AREF, w.app, {"squash": "_squash", "sqmin": "_squashMinElev"}[k]).x, "squashing asked for: " + k)
            st.ghost["order"] = V(SIZE, [simp(st.ghost["order"].x + 1)])
            return V(VOID, [])
        return f
    con = w.contracts(query)
    if query:
        con[QU + "::setSquashing"] = sq("squash")
        con[QU + "::setSquashMinElev"] = sq("sqmin")

    def post(ex, st, o, ret):
        if help_:
            return [("returns success", ret.x == 0), ("nothing is written", st.ghost["opened"].x == 0)]
        g = lambda k: st.ghost[k].x
        out = [("returns success", ret.x == 0), ("one header", g("headers") == 1),
               ("one row per point", z3.And(per * g("rows") <= NIN, NIN < per * g("rows") + per)), ("no partial row", g("col") == 0),
               ("a file that cannot be opened is an error", z3.And(INOK, OUTOK))]
        if query:
            out.append(("squashing is set as asked for", (g("order") == 2) == (getf(ex, st, AREF, w.app, "_squash").x != 0)))
        return out

    def exc(ex, st, o, e):
        return [("an error is raised only when the models, the points or the output cannot be opened", z3.Or(z3.Bool("query_not_opened"), z3.Not(INOK), z3.Not(OUTOK))),
                ("nothing is written then", st.ghost["rows"].x == 0)]
    return Task(w.app + "::run", setup, post, exc, name="%s::run%s" % (app, " help" if help_ else ""), contracts=con, hooks=w.hooks(), budget=100)


# ------------------------------------------------------------------------------------------ borehole
BX, BY, DZ, DEPTH = z3.Reals("location_x location_y dz max_depth")


def t_borehole(help_=False):
    ground = z3.If(TOPEL(BX, BY) != 0, TOPEL(BX, BY) - z3.Q(1, 1000000), z3.RealVal(0))

    def expected(r, c):
        e = ground - z3.ToReal(r) * DZ
        return [("first the elevation", c == 0, e), ("then the depth", c == 1, z3.ToReal(r) * DZ), ("then the values there in the order asked for", c >= 2, VALQ(c - 2, BX, BY, e))]
    w = World("Borehole", 0, 2 + NVAL, expected, None)

    def setup(ex, st):
        o = base_setup(w, ex, st, help_)
        q, lt = ex.prog.field_type(w.app, "_location")
        setf(ex, st, AREF, w.app, "_location", V(lt, [z3.Store(z3.Store(z3.Const("location", z3.ArraySort(I, R)), 0, BX), 1, BY)]))
        setf(ex, st, AREF, w.app, "_dz", DZ)
        setf(ex, st, AREF, w.app, "_maxDepth", DEPTH)
        st.assume(z3.And(DZ > 0, DEPTH >= 0))
        o["inputs"] = {"dz": DZ, "max_depth": DEPTH, "surface": TOPEL(BX, BY)}
        return o

    def post(ex, st, o, ret):
        g = lambda k: st.ghost[k].x
        if help_:
            return [("returns success", ret.x == 0), ("nothing is written", g("opened") == 0)]
        out = TOPEL(BX, BY) == NODATA
        r, q = z3.ToReal(g("rows")), DEPTH / DZ
        eps = z3.Q(1, 1000000)
        return [("outside the models: a message and a nonzero status", z3.Implies(out, z3.And(ret.x != 0, g("messages") >= 1))),
                ("inside: success and one header", z3.Implies(z3.Not(out), z3.And(ret.x == 0, g("headers") == 1, OUTOK))),
                ("rows down to the maximum depth", z3.Implies(z3.Not(out), z3.And((r - 1) <= q + eps, r > q))), ("no partial row", g("col") == 0)]

    def exc(ex, st, o, e):
        return [("an error is raised only when the models or the output cannot be opened", z3.Or(z3.Bool("query_not_opened"), z3.Not(OUTOK))), ("nothing is written then", st.ghost["rows"].x == 0)]
    return Task(w.app + "::run", setup, post, exc, name="Borehole::run%s" % (" help" if help_ else ""), contracts=w.contracts(), hooks=w.hooks(), budget=100)


# ------------------------------------------------------------------------------------------ required arguments
def t_args(app, required, extra=None):
    """after the options are parsed (any state), a missing required argument is an error and nothing else is"""
    c = A + app

    def setup(ex, st):
        t = this_obj(ex, st, c, AREF)
        argc = z3.Int("argc")
        st.assume(argc >= 2)
        setf(ex, st, AREF, c, "_showHelp", z3.BoolVal(False))
        o = dict(this=t, args=[V(INT32, [argc]), V(ptr(STR), [z3.Int("argv"), ival(0)])])
        if extra:
            extra[0](ex, st)
        return o

    def missing(ex, st):
        m = []
        for f in required:
            v = getf(ex, st, AREF, c, f)
            m.append(v.t[0] == 0 if v.ty.k == "tmpl" else v.x == strlit(""))
        return z3.Or(m + (extra[1](ex, st) if extra else []))

    def post(ex, st, o, ret):
        return [("every required argument is there", z3.Not(missing(ex, st)))]

    def exc(ex, st, o, e):
        return [("an error means that a required argument is missing", missing(ex, st))]
    return Task(c + "::_parseArgs", setup, post, exc, name=app + "::_parseArgs, after the options", contracts={"::getopt_long": lambda ex, st, this, args, fn: V(INT32, [ival(-1)])}, kinds=NODIV if app == "Isosurface" else None)


# geomodelgrids_isosurface divides by the horizontal resolution before it reports that it is missing (0): IEEE division is defined
NODIV = ("assert", "bounds", "null", "post", "pre", "ub", "exc", "inv", "sort")


def borehole_extra():
    def s(ex, st):
        q, lt = ex.prog.field_type(A + "Borehole", "_location")
        setf(ex, st, AREF, A + "Borehole", "_location", V(lt, [z3.Const("location", z3.ArraySort(I, R))]))
        setf(ex, st, AREF, A + "Borehole", "_dz", DZ)
        setf(ex, st, AREF, A + "Borehole", "_maxDepth", DEPTH)

    def m(ex, st):
        l = z3.Const("location", z3.ArraySort(I, R))
        return [l[0] == NODATA, l[1] == NODATA, DZ <= 0, DEPTH < 0]
    return s, m




# ------------------------------------------------------------------------------------------ one option at a time
ATOF = z3.Function("NUMBER_OF_TEXT", I, R)
TOKEN, NTOK = z3.Function("TOKEN", I, I, I), z3.Function("NTOKENS", I, I)
OPTARG, OPTARG2 = z3.Ints("optarg optarg_second")
ATOI = z3.Function("INTEGER_OF_TEXT", I, I)


NPOS = z3.Int("G:npos")


def t_option(app, ch, want, reps=1):
    """from any state of the program, parsing option `ch` (then no more options) sets what it stands for and nothing else;
    given twice (reps 2), the texts are OPTARG and OPTARG2"""
    c = A + app

    def text(st):
        return simp(z3.If(st.ghost["calls"].x <= 1, OPTARG, OPTARG2)) if reps > 1 else OPTARG

    def getopt(ex, st, this, args, fn):
        n = st.ghost["calls"].x
        st.ghost["calls"] = V(SIZE, [simp(n + 1)])
        if reps > 1:
            st.loc[("global", "optarg")] = V(STR, [text(st)])
        return V(INT32, [simp(z3.If(n < reps, ival(ord(ch)), ival(-1)))])

    def num(ex, st, this, argnodes, node):
        return V(REAL, [ATOF(ex.rv(argnodes[0], st).x)])

    def num_i(ex, st, this, argnodes, node):
        return V(INT32, [ATOI(ex.rv(argnodes[0], st).x)])

    def sctor(ex, st, nm, v):
        if "istringstream" not in nm:
            return NotImplemented
        st.ghost["token"] = V(SIZE, [ival(0)])
        return V(Ty("class", name=nm), [v.x])

    def getline(ex, st, this, argnodes, node):
        """the next part of the option's text, up to a comma; false past the last one"""
        k = st.ghost["token"].x
        if len(argnodes) != 3:
            raise Unsupported("getline without a separator")
        ex.oblige(st, "pre", z3.And(ex.rv(argnodes[2], st).x == ord(","), ex.rv(argnodes[0], st).x == text(st)), "the option's text is split at commas")
        ex.write(st, ex.lv(argnodes[1], st), V(STR, [TOKEN(text(st), k)]))
        st.ghost["token"] = V(SIZE, [simp(k + 1)])
        return V(Ty("class", name="std::istringstream"), [text(st)])

    def stream(ex, st, o, name, argnodes, node):
        if name == "operator bool" and "istringstream" in o.ty.name:
            return V(BOOL, [st.ghost["token"].x <= NTOK(text(st))])
        return NotImplemented

    def setup(ex, st):
        t = this_obj(ex, st, c, AREF)
        st.loc[("global", "optarg")] = V(STR, [OPTARG])
        st.ghost["calls"] = V(SIZE, [ival(0)])
        st.ghost["token"] = V(SIZE, [ival(0)])
        st.assume(z3.And(z3.Int("argc") >= 2, NTOK(OPTARG) >= 0, NTOK(OPTARG2) >= 0, OPTARG != 0, OPTARG2 != 0))
        # a text without a comma is its only part
        f = z3.Function("str_find", I, I, I)
        st.assume(z3.Implies(z3.And(f(OPTARG, strlit(",")) == NPOS, OPTARG != strlit("")), z3.And(NTOK(OPTARG) == 1, TOKEN(OPTARG, 0) == OPTARG)))
        for f, n in (("_location", 2), ("_bbox", 4)):
            q, lt = ex.prog.field_type(c, f)
            if lt is not None:
                setf(ex, st, AREF, c, f, V(lt, [z3.Const("old" + f, z3.ArraySort(I, R))]))
        return dict(this=t, args=[V(INT32, [z3.Int("argc")]), V(ptr(STR), [z3.Int("argv"), ival(0)])], old=st.fork())

    def check(ex, st, o):
        out = []
        w = want(ex, o["old"], lambda f: getf(ex, o["old"], AREF, c, f))
        for f, t, _ in ex.prog.classes[ex.prog.cls(c)]["fields"]:
            now, old = getf(ex, st, AREF, c, f), getf(ex, o["old"], AREF, c, f)
            if f in w:
                if callable(w[f]):
                    out += [("-%s: %s" % (ch, n), g) for n, g in w[f](now)]
                else:
                    out.append(("-%s sets %s" % (ch, f), now.x == w[f]))
            else:
                for a, b in zip(now.t, old.t):
                    out.append(("-%s leaves %s as it was" % (ch, f), a == b))
        return out
    return Task(c + "::_parseArgs", setup, lambda ex, st, o, ret: check(ex, st, o), lambda ex, st, o, e: check(ex, st, o) if e.cls == "std::runtime_error" else [],
                name="%s::_parseArgs, option -%s%s" % (app, ch, " twice" if reps > 1 else ""), hooks={"sctor": sctor, "stream": stream},
                contracts={"::getopt_long": getopt, "::atof": num, "::stod": num, "::atoi": num_i, "::stoi": num_i, "::getline": getline}, kinds=NODIV if app == "Isosurface" else None)


def names(v):
    k = z3.Int("k")
    return [("as many names as the option lists", v.t[0] == NTOK(OPTARG)),
            ("the names in the order given", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < NTOK(OPTARG)), z3.Select(v.t[1], k) == TOKEN(OPTARG, k))))]


def options(app):
    s = {"c": lambda ex, old, g: {"_pointsCRS": OPTARG}, "o": lambda ex, old, g: {"_outputFilename": OPTARG}, "l": lambda ex, old, g: {"_logFilename": OPTARG},
         "m": lambda ex, old, g: {"_modelFilenames": names}, "h": lambda ex, old, g: {"_showHelp": z3.BoolVal(True)}}
    if app != "Borehole":
        s["p"] = lambda ex, old, g: {"_pointsFilename": OPTARG}
    if app != "QueryElev":
        s["v"] = lambda ex, old, g: {"_valueNames": names}
    if app == "Query":
        surf = z3.If(OPTARG == strlit("top_surface"), ival(1), z3.If(OPTARG == strlit("topography_bathymetry"), ival(2), ival(0)))
        s["s"] = lambda ex, old, g: {"_squashMinElev": ATOF(OPTARG), "_squash": z3.If(g("_squash").x == 0, ival(1), g("_squash").x)}
        s["r"] = lambda ex, old, g: {"_squash": surf}
    if app == "QueryElev":
        s["s"] = lambda ex, old, g: {"_useTopoBathy": OPTARG == strlit("topography_bathymetry")}
    if app == "Borehole":
        s["d"] = lambda ex, old, g: {"_maxDepth": ATOF(OPTARG)}
        s["r"] = lambda ex, old, g: {"_dz": ATOF(OPTARG)}
        s["p"] = lambda ex, old, g: {"_location": lambda v: [("coordinate %d" % i, z3.Implies(NTOK(OPTARG) > i, z3.Select(v.t[0], i) == ATOF(TOKEN(OPTARG, ival(i))))) for i in range(2)]}
    return [t_option(app, ch, w) for ch, w in s.items()]


def t_main(app):
    """main: the status of run; an exception of run gives another exit status than 0 and escapes nowhere"""
    R = z3.Int("result")

    def setup(ex, st):
        st.ghost["runs"] = V(INT32, [ival(0)])
        return dict(args=[V(INT32, [z3.Int("argc")]), V(ptr(ptr(INT(8, True))), [z3.Int("argv")])])

    def c_run(ex, st, this, args, fn):
        st.ghost["runs"] = V(INT32, [simp(st.ghost["runs"].x + 1)])
        ex.oblige(st, "frame", z3.And(args[0].x == z3.Int("argc"), args[1].x == z3.Int("argv")), "run gets the command line")
        for c in ("std::runtime_error", "std::logic_error", "std::bad_alloc", "int"):
            ex.throw(st, ExV(c, z3.Const("exception_message", I)), z3.Bool("throws_" + c))
        return V(INT32, [R])

    def post(ex, st, o, ret):
        threw = z3.Or([z3.Bool("throws_" + c) for c in ("std::runtime_error", "std::logic_error", "std::bad_alloc", "int")])
        return [("the application is run once", st.ghost["runs"].x == 1), ("exit status is that of the application", z3.Implies(z3.Not(threw), ret.x == R)),
                ("an error gives an exit status other than 0", z3.Implies(threw, ret.x % 256 != 0))]
    from ..front import main_name
    return Task(main_name("/bin/%s.cc" % app.lower()), setup, post, name="main of geomodelgrids_%s" % app.lower(), contracts={A + app + "::run": c_run})


def tasks_c18():
    return [t_points("Query"), t_points("QueryElev"), t_points("Query", True), t_points("QueryElev", True),
            t_args("Query", ["_valueNames", "_pointsFilename", "_outputFilename", "_modelFilenames"]), t_args("QueryElev", ["_pointsFilename", "_outputFilename", "_modelFilenames"])] + options("Query") + options("QueryElev") + [t_main("Query"), t_main("QueryElev")]


def tasks_c19():
    return [t_borehole(), t_borehole(True), t_args("Borehole", ["_valueNames", "_outputFilename", "_modelFilenames"], borehole_extra())] + options("Borehole") + [t_main("Borehole")]


# ------------------------------------------------------------------------------------------ geomodelgrids_isosurface
def iso_entries(*texts):
    """the isosurfaces asked for, in order: those of the given option texts that have a name and a value"""
    def g(v):
        n, out = ival(0), []
        for t in texts:
            ok = NTOK(t) == 2
            out += [("isosurface %d: name" % len(out), z3.Implies(ok, z3.Select(v.t[1], n) == TOKEN(t, 0))), ("isosurface %d: value" % len(out), z3.Implies(ok, z3.Select(v.t[2], n) == ATOF(TOKEN(t, 1))))]
            n = z3.If(ok, n + 1, n)
        return [("as many isosurfaces as options with a name and a value", v.t[0] == n)] + out
    return g


def iso_options():
    def w(d, iso=iso_entries()):
        return lambda ex, old, g: dict(d() if callable(d) else d, _isosurfaces=iso)
    low = lambda t: lib.lower(strlit(t)) == lib.lower(OPTARG)
    tok = lambda i: z3.If(NTOK(OPTARG) > i, ATOF(TOKEN(OPTARG, i)), NODATA)
    c16 = {"s": w(lambda: {"_depthSurface": z3.If(low("top_surface"), ival(1), z3.If(low("topography_bathymetry"), ival(2), ival(0)))}), "v": w({"_vertRes": ATOF(OPTARG)}),
           "d": w({"_maxDepth": ATOF(OPTARG)}), "n": w({"_numSearchPoints": ATOI(OPTARG)}), "p": w({"_preferShallow": z3.BoolVal(False)})}
    c17 = {"h": w({"_showHelp": z3.BoolVal(True)}), "l": w({"_logFilename": OPTARG}), "r": w({"_horizRes": ATOF(OPTARG)}), "m": w({"_modelFilenames": names}), "o": w({"_outputFilename": OPTARG}),
           "c": w({"_bboxCRS": OPTARG}), "i": w({}, iso_entries(OPTARG)), "b": w(lambda: {f: tok(i) for i, f in enumerate(("_minX", "_maxX", "_minY", "_maxY"))})}
    return ([t_option("Isosurface", ch, x) for ch, x in c16.items()],
            [t_option("Isosurface", ch, x) for ch, x in c17.items()] + [t_option("Isosurface", "i", w({}, iso_entries(OPTARG, OPTARG2)), 2), iso_complete()])


def iso_extra():
    nm = ("_minX", "_maxX", "_minY", "_maxY", "_horizRes", "_vertRes", "_maxDepth", "_numSearchPoints", "_depthSurface", "_isosurfaces")

    def m(ex, st):
        x0, x1, y0, y1, h, v, d, n, s, i = [getf(ex, st, AREF, A + "Isosurface", f).t[0] for f in nm]
        # parsing starts without isosurfaces, so after no option at all they are missing
        return [c == NODATA for c in (x0, x1, y0, y1)] + [(x1 - x0) / h < 0, (y1 - y0) / h < 0, h <= 0, v <= 0, d <= 0, n < 3, s == 0, i == 0]
    return (lambda ex, st: None), m


def iso_complete():
    """with every requirement met and one isosurface given, the arguments are accepted; else the error says so"""
    t = t_option("Isosurface", "i", lambda ex, old, g: {"_isosurfaces": iso_entries(OPTARG)})
    s, m = iso_extra()
    miss = lambda ex, st: z3.Or([getf(ex, st, AREF, A + "Isosurface", f).t[0] == (0 if f == "_modelFilenames" else strlit("")) for f in ("_modelFilenames", "_outputFilename")] + m(ex, st))
    setup0 = t.setup

    def setup(ex, st):
        o = setup0(ex, st)
        setf(ex, st, AREF, A + "Isosurface", "_showHelp", z3.BoolVal(False))
        return o
    t.setup, t.post, t.exc_post = setup, (lambda ex, st, o, ret: [("every required argument is there and valid", z3.Not(miss(ex, st)))]), (lambda ex, st, o, e: [("an error means that a required argument is missing or invalid", miss(ex, st))])
    t.name = "Isosurface::_parseArgs, after the options"
    return t
