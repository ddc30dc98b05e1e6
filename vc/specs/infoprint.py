"""Contracts of the descriptions that geomodelgrids_info prints (C28).

The text written to standard output is a term: one constructor per character (blanks left out), number and string value.  How it is cut into
insertions does not matter."""
from ..spec import *
from ..core import NUMSTR, REALSTR, CAT
from .apps import str_of
from .model import PI
from . import info as C20

MO, BL, SU, CT, INF, IP, MI = C20.MO, C20.BL, C20.SU, C20.CT, C20.INF, C20.IP, S + "ModelInfo"
MREF, IREF, TOPREF, TBREF, INFOREF = C20.MREF, C20.IREF, C20.TOPREF, C20.TBREF, 71
CH, NUM, TXT = z3.Function("out_char", I, I, I), z3.Function("out_number", I, R, I), z3.Function("out_text", I, I, I)
OUT0 = z3.Int("printed_before")
HASTOP, HASTB = C20.HASTOP, C20.HASTB
NPTS = {a: z3.Function("POINTS" + a, I, I) for a in "XYZ"}
VARAX = {a: z3.Function("VARIABLE_AXIS" + a, I, B) for a in "XYZ"}
COORD = {a: z3.Function("COORDINATES" + a, I, I, R) for a in "XYZ"}
RES = {a: z3.Function("RESOLUTION" + a, I, R) for a in "XYZ"}
ZTOP, NAME = z3.Function("ZTOPOF", I, R), z3.Function("NAMEOF", I, I)
DIMS, ORIGIN, AZ = [z3.Real("dim_" + a) for a in "xyz"], [z3.Real("origin_" + a) for a in "xy"], z3.Real("y_azimuth")
CRS, UNITS, LAYOUT = z3.Int("crs_string"), z3.Ints("unit_x unit_y unit_z"), z3.Int("data_layout")
BB = [z3.Real("corner%d_%s" % (i, a)) for i in range(4) for a in ("lat", "lon")]
ASI = z3.ArraySort(I, I)
JOINED = z3.Function("joined", I, ASI, I, I)        # the values of a list with a delimiter in between
PART = z3.Function("joined_part", I, ASI, I, I, I)  # the first k of them (each but the last followed by the delimiter)
TEXTS = {"title": "Title", "id": "Id", "description": "Description", "history": "History", "comment": "Comment", "creator_name": "CreatorName", "creator_institution": "CreatorInstitution",
         "creator_email": "CreatorEmail", "acknowledgement": "Acknowledgement", "repository_name": "RepositoryName", "repository_url": "RepositoryURL", "repository_doi": "RepositoryDOI",
         "version": "Version", "license": "License", "auxiliary": "Auxiliary"}
LISTS = {"keywords": "Keywords", "authors": "Authors", "references": "References"}


def put(t, x):
    """text t followed by x: a Python string, a real or integer term (a number), or ('s', term) (a string value)"""
    if isinstance(x, str):
        for c in x:
            if c not in " \t":
                t = CH(t, ival(ord(c)))
        return t
    if isinstance(x, tuple):
        if z3.is_int_value(x[1]) and str_of(x[1]) is not None:
            return put(t, str_of(x[1]))
        if z3.is_app(x[1]) and x[1].decl().eq(CAT):
            return put(put(t, ("s", x[1].arg(0))), ("s", x[1].arg(1)))
        if z3.is_app(x[1]) and x[1].decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x[1].arg(0), put(t, ("s", x[1].arg(1))), put(t, ("s", x[1].arg(2))))
        if z3.is_app(x[1]) and (x[1].decl().eq(NUMSTR) or x[1].decl().eq(REALSTR)):
            return put(t, x[1].arg(0))
        return TXT(t, x[1])
    return NUM(t, x if x.sort() == R else z3.ToReal(x))


def puts(t, *xs):
    for x in xs:
        t = put(t, x)
    return t


def out(ex, st, o, txt):
    n = o.ty.name or ""
    if "stringstream" in n or "ofstream" in n:
        return
    st.ghost["out"] = V(SIZE, [put(st.ghost["out"].x, ("s", txt))])


def init(ex, st):
    st.ghost["out"] = V(SIZE, [OUT0])
    st.ghost["sections"] = V(SIZE, [ival(0)])


def const(v):
    return lambda ex, st, this, args, fn: V(STR, [v])


def strlist(name):
    return z3.Int("number_of_" + name), z3.Const(name + "_list", ASI)


def vec(name):
    def f(ex, st, this, args, fn):
        n, a = strlist(name)
        st.assume(n >= 0)
        return V(Ty("tmpl", (STR,), None, "vector"), [n, a])
    return f


def real_array(base, terms, name):
    return lambda ex, st, this, args, fn: arr(ex, st, base, terms, REAL, name)


def dims_of(nd):
    def f(ex, st, this, args, fn):
        base = z3.Function("DIMBASE", I, I)(this.x)
        m = ex.cellof(st, "mem", ex.mkey(SIZE))[0]
        st.assume(z3.And(base > 0, ex.LEN(base) >= nd))
        for i in range(nd):
            n = NPTS["XYZ"[i]](this.x)
            st.assume(z3.And(n >= 1, z3.Select(z3.Select(m, base), i) == n))
        return V(PSIZE, [base, ival(0)])
    return f


def resolution(a):
    def f(ex, st, this, args, fn):
        st.assume(RES[a](this.x) >= 0)
        return V(REAL, [RES[a](this.x)])
    return f


def coordinates(a):
    def f(ex, st, this, args, fn):
        base, n = z3.Function("COORDBASE" + a, I, I)(this.x), NPTS[a](this.x)
        st.assume(z3.And(base > 0, ex.LEN(base) == n, n >= 1))
        row = z3.Select(ex.cellof(st, "mem", ex.mkey(REAL))[0], base)
        st.assume(z3.And(z3.Select(row, 0) == COORD[a](this.x, 0), z3.Select(row, n - 1) == COORD[a](this.x, n - 1)))
        return V(PREAL, [z3.If(VARAX[a](this.x), base, ival(0)), ival(0)])
    return f


def c_join(ex, st, this, args, fn):
    v = ex.read(st, args[0].lv) if isinstance(args[0], Alias) else args[0]
    d = ex.read(st, args[1].lv) if isinstance(args[1], Alias) else args[1]
    return V(STR, [JOINED(v.t[0], v.t[1], bare(d.x))])


def bare(t):
    """a literal without its blanks"""
    s = str_of(t) if z3.is_int_value(t) else None
    return t if s is None else strlit(s.replace(" ", "").replace("\t", ""))


def c_indent(ex, st, this, args, fn):
    return V(STR, [strlit("")])      # blanks


def c_units(ex, st, this, args, fn):
    ex.oblige(st, "pre", args[3].x == CRS, "the units of the model's coordinate system")
    for p, u in zip(args[:3], UNITS):
        if p.ty.k != "null":
            ex.write(st, ex.deref(st, p), V(STR, [u]))
    return V(VOID, [])


GET = {}
for k_, n_ in TEXTS.items():
    GET[MI + "::get" + n_] = const(z3.Int("info_" + k_))
for k_, n_ in LISTS.items():
    GET[MI + "::get" + n_] = vec(k_)
GET[MO + "::getInfo"] = lambda ex, st, this, args, fn: C20.shared(MI, ival(INFOREF))
GET[MO + "::getDims"] = real_array(901, DIMS, "dims")
GET[MO + "::getOrigin"] = real_array(902, ORIGIN, "origin")
GET[MO + "::getYAzimuth"] = lambda ex, st, this, args, fn: V(REAL, [AZ])
GET[MO + "::getCRSString"] = const(CRS)
GET[MO + "::getValueNames"] = vec("names")
GET[MO + "::getValueUnits"] = vec("units")
GET[MO + "::getTopSurface"] = C20.GETTERS[MO + "::getTopSurface"]
GET[MO + "::getTopoBathy"] = C20.GETTERS[MO + "::getTopoBathy"]
GET[MO + "::getBlocks"] = lambda ex, st, this, args, fn: C20.blocks_vec(ex, st)[0]
for c_, n_ in ((SU, 2), (BL, 3)):
    GET[c_ + "::getDims"] = dims_of(n_)
    for a_ in "XYZ"[:n_]:
        GET[c_ + "::getResolution" + a_] = resolution(a_)
        GET[c_ + "::getCoordinates" + a_] = coordinates(a_)
GET[BL + "::getName"] = lambda ex, st, this, args, fn: V(STR, [NAME(this.x)])
GET[BL + "::getZTop"] = lambda ex, st, this, args, fn: V(REAL, [ZTOP(this.x)])
GET[CT + "::getCRSUnits"] = c_units
GET[INF + "::join"] = c_join
GET[INF + "::indent"] = c_indent
GET[INF + "::computeBoundingBox"] = real_array(903, BB, "bbox")
HOOKS = {"out": out}


def text(name):
    return ("s", z3.Int("info_" + name))


def listed(name, delim):
    n, a = strlist(name)
    return ("s", JOINED(n, a, bare(strlit(delim))))


def setup(ex, st):
    init(ex, st)
    t, m = this_obj(ex, st, IP, IREF), this_obj(ex, st, MO, MREF)
    for r, c in ((TOPREF, SU), (TBREF, SU), (INFOREF, MI)):
        st.assume(lib.CLSTAG(ival(r)) == lib.clstag(ex.prog.cls(c)))
    return dict(this=t, args=[m], start=st.fork())


def printed(st):
    return st.ghost["out"].x


def t_description():
    def post(ex, st, o, ret):
        t = puts(OUT0, "Title:", text("title"), "\nId:", text("id"), "\nDescription:", text("description"), "\nKeywords:", listed("keywords", ", "), "\nHistory:", text("history"),
                 "\nComment:", text("comment"), "\nCreator:", text("creator_name"), ",", text("creator_institution"), ",", text("creator_email"), "\nAuthors:", listed("authors", "; "),
                 "\nReferences:\n")
        n, a = strlist("references")
        t = put(t, ("s", JOINED(n, a, strlit("\n"))))
        t = puts(t, "\nAcknowledgement:", text("acknowledgement"), "\nRepository:", text("repository_name"), text("repository_url"), "\nDOI:", text("repository_doi"), "\nVersion:", text("version"),
                 "\nLicense:", text("license"), "\n")
        t = z3.If(z3.Int("info_auxiliary") == strlit(""), t, puts(t, "Auxiliary information:", text("auxiliary"), "\n"))
        t = puts(t, "Dimensions of model: x=", DIMS[0], ", y=", DIMS[1], ", z=", DIMS[2], "\nBounding box (WGS84):")
        for i in range(4):
            t = puts(t, "(", BB[2 * i], ",", BB[2 * i + 1], ")")
        return [("the description printed is the stored one", printed(st) == put(t, "\n"))]
    return Task(IP + "::_printDescription", setup, post, None, name="Info::_printDescription", contracts=GET, hooks=HOOKS, budget=60)


def t_coordsys():
    def post(ex, st, o, ret):
        t = puts(OUT0, "Coordinate system:\nCRS (PROJ, EPSG, WKT):", ("s", CRS), "\nCoordinate system units: x=", ("s", UNITS[0]), ", y=", ("s", UNITS[1]), ", z=", ("s", UNITS[2]),
                 "\nOrigin: x=", ORIGIN[0], ", y=", ORIGIN[1], "\nAzimuth (degrees) of y axis from north:", AZ, "\n")
        return [("the coordinate system printed is the stored one", printed(st) == t)]
    return Task(IP + "::_printCoordSys", setup, post, None, name="Info::_printCoordSys", contracts=GET, hooks=HOOKS, budget=60)


def loop_text(section):
    """invariant: the text is that before the loop and one section per iteration"""
    F = z3.Function("text_after", I, I)

    def inv(ex, s, start, K):
        s.pc.append(F(0) == start.ghost["out"].x)
        s.pc.append(F(K + 1) == section(F(K), K))
        return [("one section for each so far", printed(s) == F(K))]
    return F, inv


def t_values():
    """complete metadata: a unit for every value; incomplete metadata: no access outside the lists"""
    (n, names), (m, units) = strlist("names"), strlist("units")
    F, inv0 = loop_text(lambda t, k: puts(t, k, ":", ("s", z3.Select(names, k)), "(", ("s", z3.Select(units, k)), ")\n"))

    def inv(ex, s, start, K):
        return [(nm, z3.Implies(n == m, g)) for nm, g in inv0(ex, s, start, K)]

    def su(ex, st):
        o = setup(ex, st)
        o["inputs"] = {"values": n, "units": m, "layout": LAYOUT}
        return o
    con = dict(GET)
    con[MO + "::getDataLayout"] = lambda ex, st, this, args, fn: V(INT32, [LAYOUT])

    def post(ex, st, o, ret):
        t = F(n)
        return [("the list of values comes first", F(0) == puts(OUT0, "Values stored in model:\n")),
                ("vertex-based data", z3.Implies(z3.And(n == m, LAYOUT == 0), printed(st) == puts(t, "Vertex-based data\n"))), ("cell-based data", z3.Implies(z3.And(n == m, LAYOUT == 1), printed(st) == puts(t, "Cell-based data\n")))]
    return Task(IP + "::_printValues", su, post, None, name="Info::_printValues", contracts=con, hooks=dict(HOOKS, inv=[("_printValues", inv)]), budget=60)


def t_blocks():
    nb, refs = z3.Int("numBlocks"), z3.Const("blocks", ASI)

    def section(t, k):
        b = z3.Select(refs, k)
        ext = [C20.zabs(z3.If(VARAX[a](b), COORD[a](b, NPTS[a](b) - 1) - COORD[a](b, 0), RES[a](b) * z3.ToReal(NPTS[a](b) - 1))) for a in "XYZ"]
        return puts(t, "Block '", ("s", NAME(b)), "'\nResolution: x=", RES["X"](b), ", y=", RES["Y"](b), ", z=", RES["Z"](b), "\nElevation of top of block in logical space:", ZTOP(b),
                    "\nNumber of points: x=", NPTS["X"](b), ", y=", NPTS["Y"](b), ", z=", NPTS["Z"](b), "\nDimensions: x=", ext[0], ", y=", ext[1], ", z=", ext[2], "\n")
    F, inv = loop_text(section)

    def post(ex, st, o, ret):
        def surf(t, r):
            return puts(t, "Number of points: x=", NPTS["X"](ival(r)), ", y=", NPTS["Y"](ival(r)), "\nResolution: x=", RES["X"](ival(r)), ", y=", RES["Y"](ival(r)), "\n")
        goals = []
        for a in (True, False):
            for b in (True, False):
                t = puts(OUT0, "Surfaces\nTop surface:\n")
                t = surf(t, TOPREF) if a else puts(t, "None\n")
                t = puts(t, "Topography/bathymetry:\n")
                t = surf(t, TBREF) if b else puts(t, "None\n")
                goals.append(z3.Implies(z3.And(HASTOP == a, HASTB == b), F(0) == puts(t, "Blocks (", nb, ")\n")))
        return [("the surfaces printed are the stored ones", z3.And(goals)), ("every block is printed", printed(st) == F(nb))]
    return Task(IP + "::_printBlocks", setup, post, None, name="Info::_printBlocks", contracts=GET, hooks=dict(HOOKS, inv=[("_printBlocks", inv)]), budget=100)


def t_join():
    """the definition of the joined list: part(0) is empty, part(k+1) = part(k), value k, and the delimiter unless it is the last"""
    n, a, d = z3.Int("n"), z3.Const("joined_values", ASI), z3.Int("delimiter")

    def su(ex, st):
        st.assume(n >= 0)
        st.loc["arg:values"] = V(Ty("tmpl", (STR,), None, "vector"), [n, a])
        st.loc["arg:delimiter"] = V(STR, [d])
        return dict(this=None, args=[Alias(Local("arg:values", st.loc["arg:values"].ty)), Alias(Local("arg:delimiter", STR))], start=st.fork())

    def inv(ex, s, start, K):
        p = lambda k: PART(n, a, d, k)
        s.pc.append(p(0) == strlit(""))
        v = z3.Select(a, K)
        s.pc.append(p(K + 1) == z3.If(K + 1 < n, CAT(p(K), CAT(v, d)), CAT(p(K), v)))
        return [("the values so far", v_.x == p(K)) for k, v_ in s.loc.items() if isinstance(v_, V) and not isinstance(v_, (PV, ItV, LamV, ExV)) and v_.t is not None and "stringstream" in (v_.ty.name or "")]
    return Task(INF + "::join", su, lambda ex, st, o, ret: [("the values, the delimiter between them", ret.x == PART(n, a, d, n))], None, name="join", hooks={"inv": [("join", inv)]}, budget=60)


def t_bbox():
    """the corners are origin, x end, x and y end, y end, in the model's CRS, as latitude and longitude"""
    LL = [z3.Function("geographic_%s" % a, R, R, R) for a in ("lat", "lon")]

    def c_transform(ex, st, this, args, fn):
        g = lambda k: st.ghost[k].x
        ex.oblige(st, "pre", z3.And(g("src") == CRS, g("dest") == strlit("EPSG:4326"), g("ready") == 1), "from the model's CRS to WGS84")
        for p, f in zip(args[:2], LL):
            ex.write(st, ex.deref(st, p), V(REAL, [f(args[3].x, args[4].x)]))
        return V(VOID, [])

    def c_set(k):
        def f(ex, st, this, args, fn):
            st.ghost[k] = V(SIZE, [args[0].x])
            return V(VOID, [])
        return f

    def c_init(ex, st, this, args, fn):
        st.ghost["ready"] = V(SIZE, [ival(1)])
        return V(VOID, [])
    noop = lambda ex, st, this, args, fn: V(VOID, [])
    con = dict(GET)
    del con[INF + "::computeBoundingBox"]
    con.update({CT + "::CRSTransformer": noop, CT + "::~CRSTransformer": noop, CT + "::setSrc": c_set("src"), CT + "::setDest": c_set("dest"), CT + "::initialize": c_init, CT + "::transform": c_transform})

    def su(ex, st):
        init(ex, st)
        for k in ("src", "dest", "ready"):
            st.ghost[k] = V(SIZE, [ival(-1)])
        return dict(this=None, args=[this_obj(ex, st, MO, MREF)])

    def element(ex, st, p, i):
        if isinstance(p, PV) and isinstance(p.lv, Elem):
            return ex.read(st, Elem(p.lv.par, simp(p.lv.idx + i), p.lv.ty, p.lv.skip)).x
        if p.t is not None and len(p.t) == 2:
            return z3.Select(z3.Select(ex.cellof(st, "mem", ex.mkey(REAL))[0], p.t[0]), p.t[1] + i)
        raise Unsupported("array of corners")

    def post(ex, st, o, ret):
        got = [element(ex, st, ret, i) for i in range(8)]
        a = AZ * PI / 180
        c, s = lib.COS(a), lib.SIN(a)
        # the angle used may be the azimuth, its opposite, or a full turn away (trusted facts of cos and sin)
        seen, todo = [], list(got)
        ids = set()
        while todo:
            e = todo.pop()
            if e.get_id() in ids:
                continue
            ids.add(e.get_id())
            if z3.is_app(e) and (e.decl().eq(lib.COS) or e.decl().eq(lib.SIN)) and not any(e.arg(0).eq(x) for x in seen):
                seen.append(e.arg(0))
            todo += e.children()
        for t in seen:
            for sign in (1, -1):
                for turn in (0, 2, -2):
                    if ex.valid(st, t == turn * PI + sign * a):
                        st.assume(z3.And(lib.COS(t) == c, lib.SIN(t) == sign * s))
        X = [(0, 0), (DIMS[0], 0), (DIMS[0], DIMS[1]), (0, DIMS[1])]
        out = []
        for i, (x, y) in enumerate(X):
            w = [ORIGIN[0] + x * c + y * s, ORIGIN[1] - x * s + y * c]
            out += [("corner %d: %s" % (i, n), got[2 * i + d] == f(w[0], w[1])) for d, (n, f) in enumerate(zip(("latitude", "longitude"), LL))]
        return out
    return Task(INF + "::computeBoundingBox", su, post, None, name="computeBoundingBox", contracts=con, budget=60)


def t_run(incomplete):
    """for every model in the order given: its name, then the sections asked for, on the open model with its metadata; if that is
    incomplete, whatever warning (the texts are not followed) and the same sections"""
    SEC = z3.Function("out_section", I, I, I)
    F = z3.Function("text_after_model", I, I)
    g = lambda st, k: st.ghost[k].x
    flags = {n: z3.Bool("flag" + n) for n in ("_doVerification", "_showAll", "_showDescription", "_showCoordSys", "_showValues", "_showBlocks")}
    KINDS = [("_printDescription", 1, "_showDescription"), ("_printCoordSys", 2, "_showCoordSys"), ("_printValues", 3, "_showValues"), ("_printBlocks", 4, "_showBlocks")]
    names = lambda ex, st: getf(ex, st, IREF, IP, "_modelFilenames")

    def bump(st, k, v):
        st.ghost[k] = V(SIZE, [ival(v) if isinstance(v, int) else v])

    def c_open(ex, st, this, args, fn):
        ex.oblige(st, "pre", z3.And(g(st, "open") == 0, args[0].x == z3.Select(names(ex, st).t[1], g(st, "opened"))), "the models are opened in the order given")
        bump(st, "opened", simp(g(st, "opened") + 1))
        bump(st, "open", 1)
        bump(st, "loaded", 0)
        return V(VOID, [])

    def c_close(ex, st, this, args, fn):
        bump(st, "open", 0)
        return V(VOID, [])

    def c_load(ex, st, this, args, fn):
        bump(st, "loaded", 1)
        if incomplete:
            ex.throw(st, ExV("std::runtime_error", z3.Int("missing_metadata")), z3.Function("metadata_incomplete", I, B)(g(st, "opened")))
        return V(VOID, [])

    def section(kind, loads=False):
        def f(ex, st, this, args, fn):
            ex.oblige(st, "pre", g(st, "open") == 1 if loads else z3.And(g(st, "open") == 1, g(st, "loaded") == 1), "the model is open and its metadata loaded")
            bump(st, "out", SEC(g(st, "out"), ival(kind)))
            if loads:
                bump(st, "loaded", 1)
            return V(VOID, [])
        return f
    noop = lambda ex, st, this, args, fn: V(VOID, [])
    con = {MO + "::Model": noop, MO + "::~Model": noop, MO + "::open": c_open, MO + "::close": c_close, MO + "::loadMetadata": c_load, IP + "::_verify": section(0, True), IP + "::_parseArgs": noop,
           IP + "::_printHelp": noop, INF + "::indent": c_indent}
    con.update({IP + "::" + n: section(k) for n, k, _ in KINDS})

    def su(ex, st):
        init(ex, st)
        for k in ("open", "opened", "loaded"):
            bump(st, k, 0)
        t = this_obj(ex, st, IP, IREF)
        for n, v in flags.items():
            setf(ex, st, IREF, IP, n, v)
        setf(ex, st, IREF, IP, "_showHelp", z3.BoolVal(False))
        return dict(this=t, args=[V(INT32, [z3.Int("argc")]), V(ptr(STR), [z3.Int("argv"), ival(0)])])

    def inv(ex, s, start, K):
        nm = names(ex, s).t[1]
        t = F(K) if incomplete else puts(F(K), "Model:", ("s", z3.Select(nm, K)), "\n")
        t = z3.If(z3.Or(flags["_doVerification"], flags["_showAll"]), SEC(t, ival(0)), t)
        for _, k, f in KINDS:
            t = z3.If(z3.Or(flags[f], flags["_showAll"]), SEC(t, ival(k)), t)
        s.pc.append(F(0) == OUT0)
        s.pc.append(F(K + 1) == t)
        return [("the models so far", z3.And(printed(s) == F(K), g(s, "opened") == K, g(s, "open") == 0))]

    def post(ex, st, o, ret):
        return [("every model has its sections", printed(st) == F(names(ex, st).t[0])), ("status 0", ret.x == 0)]
    return Task(IP + "::run", su, post, None, name="Info::run, sections%s" % (", metadata may be incomplete" if incomplete else ""), contracts=con, hooks=dict({} if incomplete else HOOKS, inv=[("run", inv)]), budget=100)


def options():
    from .apps import t_option
    T = z3.BoolVal(True)
    return [t_option("Info", c, (lambda n: lambda ex, old, g: {n: T})(n)) for c, n in (("d", "_showDescription"), ("c", "_showCoordSys"), ("v", "_showValues"), ("b", "_showBlocks"))]


def tasks():
    return [t_description(), t_coordsys(), t_values(), t_blocks(), t_join(), t_bbox(), t_run(False), t_run(True)] + options()
