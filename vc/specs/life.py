"""Contracts of opening, initializing and closing a model, and of the end of a query (C02, C05, C07)."""
from ..spec import *
from .model import MO, BL, SU, CT

H5, QU = S + "HDF5", S + "Query"
MREF, QREF, TOP, TB, H5REF = 351, 352, 353, 354, 355
# learnt only by executing the call on the object
SRC, DEST, READY = z3.Function("CRS_SRC", I, I), z3.Function("CRS_DEST", I, I), z3.Function("CRS_READY", I, I, I, B)
OPENQ, CLOSEDQ = z3.Function("QUERY_OPENED_ON", I, I, B), z3.Function("QUERY_CLOSED", I, B)
FILEOF, MODEOF, FCLOSED, MCLOSED = z3.Function("H5_FILE", I, I), z3.Function("H5_MODE", I, I), z3.Function("H5_CLOSED", I, B), z3.Function("MODEL_CLOSED", I, B)
NOCRS, NOFILE, NOCLOSE = z3.Function("NO_TRANSFORMATION", I, I, B), z3.Function("FILE_CANNOT_BE_OPENED", I, I, B), z3.Function("FILE_CANNOT_BE_CLOSED", I, B)
MSG = z3.Int("library_message")


def none(ex, st, this, args, fn):
    return V(VOID, [])


def sarg(ex, st, a):
    return (ex.read(st, a.lv) if isinstance(a, Alias) else a).x


def learn(f, n=0):
    def c(ex, st, this, args, fn):
        ex.oblige(st, "null", this.x != 0, "the object exists")
        st.assume(f(this.x, *[sarg(ex, st, a) for a in args[:n]]))
        return V(VOID, [])
    return c


def crs_init(ex, st, this, args, fn):
    s, d = SRC(this.x), DEST(this.x)
    ex.throw(st, ExV("std::runtime_error", MSG), NOCRS(s, d))
    st.assume(READY(this.x, s, d))
    return V(VOID, [])


def setcrs(F):
    def c(ex, st, this, args, fn):
        # a transformer is given each coordinate system once
        st.assume(F(this.x) == sarg(ex, st, args[0]))
        return V(VOID, [])
    return c


def h5open(ex, st, this, args, fn):
    f, m = sarg(ex, st, args[0]), args[1].x
    ex.throw(st, ExV("std::runtime_error", MSG), NOFILE(f, m))
    st.assume(z3.And(FILEOF(this.x) == f, MODEOF(this.x) == m))
    return V(VOID, [])


def h5close(ex, st, this, args, fn):
    ex.throw(st, ExV("std::runtime_error", MSG), NOCLOSE(this.x))
    st.assume(FCLOSED(this.x))
    return V(VOID, [])


CON = {CT + "::CRSTransformer": none, CT + "::~CRSTransformer": none, CT + "::setSrc": setcrs(SRC), CT + "::setDest": setcrs(DEST), CT + "::initialize": crs_init,
       H5 + "::HDF5": none, H5 + "::~HDF5": none, H5 + "::open": h5open, H5 + "::close": h5close,
       SU + "::openQuery": learn(OPENQ, 1), BL + "::openQuery": learn(OPENQ, 1), SU + "::closeQuery": learn(CLOSEDQ), BL + "::closeQuery": learn(CLOSEDQ),
       BL + "::~Block": none, SU + "::~Surface": none, MO + "::close": learn(MCLOSED)}


def model(ex, st, missing=False):
    t = this_obj(ex, st, MO, MREF)
    b = getf(ex, st, MREF, MO, "_blocks")
    n, i = z3.Int("numblocks"), z3.Int("any_block")
    st.assume(z3.And(b.t[0] == n, n >= 0))
    j = z3.Int(fresh_name("j"))
    if not missing:
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(b.t[1], j) > 0), patterns=[z3.Select(b.t[1], j)]))
    tops = [getf(ex, st, MREF, MO, f).x for f in ("_surfaceTop", "_surfaceTopoBathy")]
    return dict(this=t, args=[], n=n, i=i, block=z3.Select(b.t[1], i), tops=tops, h5=getf(ex, st, MREF, MO, "_h5").x)


def t_initialize():
    def setup(ex, st):
        o = model(ex, st)
        o["in"], o["model"] = getf(ex, st, MREF, MO, "_inputCRSString").x, getf(ex, st, MREF, MO, "_modelCRSString").x
        return o

    def post(ex, st, o, ret):
        c = getf(ex, st, MREF, MO, "_crsTransformer").x
        return [("the model has a transformer", c != 0), ("it transforms from the input CRS to the model's CRS", READY(c, o["in"], o["model"]))] + \
               [("%s answers from the open file" % nm, z3.Implies(r != 0, OPENQ(r, o["h5"]))) for nm, r in zip(("the top surface", "the topography"), o["tops"])] + \
               [("every block answers from the open file", z3.Implies(z3.And(o["i"] >= 0, o["i"] < o["n"]), OPENQ(o["block"], o["h5"])))]
    return Task(MO + "::initialize", setup, post, lambda ex, st, o, e: [("fails only when there is no such transformation", NOCRS(o["in"], o["model"]))], name="Model::initialize", contracts=CON)


def t_open():
    f, m = z3.Ints("filename mode")

    def setup(ex, st):
        o = model(ex, st)
        st.assume(z3.And(f != 0, m >= 0, m <= 2))
        o["args"] = [V(STR, [f]), V(cls(MO + "::ModelMode"), [m])]
        return o

    def flag():
        return m         # READ, READ_WRITE, READ_WRITE_TRUNCATE are H5F_ACC_RDONLY, H5F_ACC_RDWR, H5F_ACC_TRUNC

    def post(ex, st, o, ret):
        h = getf(ex, st, MREF, MO, "_h5").x
        return [("the model holds the file asked for", z3.And(h != 0, FILEOF(h) == f)), ("opened in the mode asked for", MODEOF(h) == flag())]
    return Task(MO + "::open", setup, post, lambda ex, st, o, e: [("fails only when the file cannot be opened", NOFILE(f, flag()))], name="Model::open", contracts=CON)


def t_close():
    def setup(ex, st):
        return model(ex, st, missing=True)

    def shut(o):
        return [("%s no longer answers" % nm, z3.Implies(r != 0, CLOSEDQ(r))) for nm, r in zip(("the top surface", "the topography"), o["tops"])] + \
               [("no block answers any longer", z3.Implies(z3.And(o["i"] >= 0, o["i"] < o["n"], o["block"] != 0), CLOSEDQ(o["block"])))]

    def post(ex, st, o, ret):
        return shut(o) + [("the file is closed", z3.Implies(o["h5"] != 0, FCLOSED(o["h5"])))]
    return Task(MO + "::close", setup, post, lambda ex, st, o, e: shut(o) + [("fails only when the file cannot be closed", NOCLOSE(o["h5"]))], name="Model::close",
                contracts={k: c for k, c in CON.items() if k != MO + "::close"})


def t_setinput():
    s = z3.Int("crs")

    def setup(ex, st):
        o = model(ex, st)
        o["args"] = [Alias(Temp(V(STR, [s])))]
        o["modelcrs"] = getf(ex, st, MREF, MO, "_modelCRSString").x
        return o
    return Task(MO + "::setInputCRS", setup, lambda ex, st, o, ret: [("the input CRS is the one given", getf(ex, st, MREF, MO, "_inputCRSString").x == s), ("the model's CRS is its own", getf(ex, st, MREF, MO, "_modelCRSString").x == o["modelcrs"])],
                name="Model::setInputCRS")


def t_finalize():
    def setup(ex, st):
        t = this_obj(ex, st, QU, QREF)
        v = getf(ex, st, QREF, QU, "_models")
        st.assume(v.t[0] >= 0)
        return dict(this=t, args=[], n=v.t[0], m=z3.Select(v.t[1], z3.Int("any_model")))

    def post(ex, st, o, ret):
        i = z3.Int("any_model")
        return [("every model is closed", z3.Implies(z3.And(i >= 0, i < o["n"], o["m"] != 0), MCLOSED(o["m"])))]
    return Task(QU + "::finalize", setup, post, name="Query::finalize", contracts=CON)


def tasks_c02():
    return [t_open(), t_close()]


def tasks_c05():
    return [t_setinput(), t_initialize()]


def tasks_c07():
    return [t_finalize()]
