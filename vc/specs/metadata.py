"""Contracts of the metadata readers: ModelInfo::load, Surface/Block/Model::loadMetadata over the contract of HDF5 (C15)."""
from ..spec import *
from ..core import str_contains, ExV, cat

H5, MI, MO, BL, SU = S + "HDF5", S + "ModelInfo", S + "Model", S + "Block", S + "Surface"
STRS = Ty("tmpl", (STR,), None, "vector")
H5REF, IREF, MREF, BREF = 81, 82, 83, 84
# the contents of the file
HAS = z3.Function("HASATTR", I, I, B)
SATTR = z3.Function("STRATTR", I, I, I)
NATTR = z3.Function("NUMATTR", I, I, R)
LATTR_N = z3.Function("LISTATTR_N", I, I, I)
LATTR = z3.Function("LISTATTR", I, I, z3.ArraySort(I, I))
VATTR_N = z3.Function("VECATTR_N", I, I, I)
VATTR = z3.Function("VECATTR", I, I, z3.ArraySort(I, R))
HASG, HASD = z3.Function("HASGROUP", I, B), z3.Function("HASDATASET", I, B)
DIM = z3.Function("DATASETDIM", I, I, I)
IOERR = z3.Function("READFAILS", I, I, B)
IOMSG = z3.Int("io_message")


def norm(t):
    """'/blocks/x' and 'blocks/x' name the same object"""
    from ..core import _strs_rev, CAT
    if z3.is_int_value(t) and t.as_long() in _strs_rev:
        s = _strs_rev[t.as_long()]
        return strlit(s.lstrip("/") or "/")
    if z3.is_app(t) and t.decl().eq(CAT) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() in _strs_rev:
        return cat(strlit(_strs_rev[t.arg(0).as_long()].lstrip("/")), t.arg(1))
    return t


def sarg(ex, st, a):
    if isinstance(a, Alias):
        a = ex.read(st, a.lv)
    return a.x


def key(ex, st, args):
    return norm(sarg(ex, st, args[0])), sarg(ex, st, args[1])


def c_hasattr(ex, st, this, args, fn):
    ex.oblige(st, "null", this.x != 0, "hasAttribute: storage exists")
    return V(BOOL, [HAS(*key(ex, st, args))])


def reading(ex, st, this, k):
    ex.oblige(st, "null", this.x != 0, "readAttribute: storage exists")
    ex.throw(st, ExV("std::runtime_error", IOMSG), z3.Or(z3.Not(HAS(*k)), IOERR(*k)))


def c_rstr(ex, st, this, args, fn):
    k = key(ex, st, args)
    reading(ex, st, this, k)
    return V(STR, [SATTR(*k)])


def c_rlist(ex, st, this, args, fn):
    k = key(ex, st, args)
    reading(ex, st, this, k)
    st.assume(LATTR_N(*k) >= 1)
    ex.write(st, ex.deref(st, args[2]), V(STRS, [LATTR_N(*k), LATTR(*k)]))
    return V(VOID, [])


def c_rnum(ex, st, this, args, fn):
    k = key(ex, st, args)
    ex.oblige(st, "pre", z3.BoolVal("DOUBLE" in str(args[2].x)), "readAttribute: read as double")
    reading(ex, st, this, k)
    p = args[3]
    ex.write(st, p.lv if isinstance(p, PV) else ex.deref(st, V(PREAL, p.t)), V(REAL, [NATTR(*k)]))
    return V(VOID, [])


def c_rvec(ex, st, this, args, fn):
    k = key(ex, st, args)
    ex.oblige(st, "pre", z3.BoolVal("DOUBLE" in str(args[2].x)), "readAttribute: read as double")
    reading(ex, st, this, k)
    st.assume(VATTR_N(*k) >= 1)
    b = ex.new_base(st)
    kk = ex.mkey(REAL)
    st.mem[kk] = [z3.Store(ex.cellof(st, "mem", kk)[0], b, VATTR(*k))]
    st.assume(ex.LEN(b) == VATTR_N(*k))
    p = args[3]
    ex.write(st, p.lv if isinstance(p, PV) else ex.deref(st, p), V(PREAL, [b, ival(0)]))
    n = args[4]
    ex.write(st, n.lv if isinstance(n, PV) else ex.deref(st, n), V(SIZE, [VATTR_N(*k)]))
    return V(VOID, [])


def c_dims(rank):
    def f(ex, st, this, args, fn):
        path = norm(sarg(ex, st, args[2]))
        ex.throw(st, ExV("std::runtime_error", IOMSG), IOERR(path, ival(0)))
        b = ex.new_base(st)
        kk = ex.mkey(SIZE)
        rw = z3.K(I, ival(0))
        for i in range(rank):
            st.assume(DIM(path, i) >= 0)
            rw = z3.Store(rw, i, DIM(path, i))
        st.mem[kk] = [z3.Store(ex.cellof(st, "mem", kk)[0], b, rw)]
        st.assume(ex.LEN(b) == rank)
        ex.write(st, args[0].lv if isinstance(args[0], PV) else ex.deref(st, args[0]), V(PSIZE, [b, ival(0)]))
        ex.write(st, args[1].lv if isinstance(args[1], PV) else ex.deref(st, args[1]), V(INT32, [ival(rank)]))
        return V(VOID, [])
    return f


def h5con(rank=0):
    return {H5 + "::hasAttribute": c_hasattr, (H5 + "::readAttribute", 2): c_rstr, (H5 + "::readAttribute", 3): c_rlist, (H5 + "::readAttribute", 4): c_rnum,
            (H5 + "::readAttribute", 5): c_rvec, H5 + "::getDatasetDims": c_dims(rank)}


def via(ex, st, c, ref, getter, args=()):
    """the value of a getter of the object, as the current code computes it"""
    r = ex.call_function(ex.prog.func(c + "::" + getter), st, V(ptr(cls(c)), [ref if z3.is_expr(ref) else ival(ref)]), list(args))
    while isinstance(r, (Alias, LV)):
        r = ex.read(st, r.lv if isinstance(r, Alias) else r)
    return r


def same_list(v, k):
    j = z3.Int("lj")
    return z3.And(v.t[0] == LATTR_N(*k), z3.Implies(z3.And(j >= 0, j < v.t[0]), z3.Select(v.t[1], j) == z3.Select(LATTR(*k), j)))


INFO = [("title", "getTitle"), ("id", "getId"), ("description", "getDescription"), ("keywords", "getKeywords"), ("history", "getHistory"), ("comment", "getComment"),
        ("creator_name", "getCreatorName"), ("creator_institution", "getCreatorInstitution"), ("creator_email", "getCreatorEmail"), ("acknowledgement", "getAcknowledgement"),
        ("authors", "getAuthors"), ("references", "getReferences"), ("repository_name", "getRepositoryName"), ("repository_url", "getRepositoryURL"),
        ("repository_doi", "getRepositoryDOI"), ("version", "getVersion"), ("license", "getLicense")]
LISTS = ("keywords", "authors", "references")


def t_info():
    root = strlit("/")
    K = lambda n: (root, strlit(n))

    def setup(ex, st):
        t = this_obj(ex, st, MI, IREF)
        st.assume(IOMSG > 0)
        aux = z3.Int("old_auxiliary")
        setf(ex, st, IREF, MI, "_auxiliary", aux)
        for nm, g in INFO:
            st.assume(SATTR(*K(nm)) > 0)
        return dict(this=t, args=[V(ptr(cls(H5)), [ival(H5REF)])], aux=aux, inputs={nm: HAS(*K(nm)) for nm, g in INFO})

    def post(ex, st, o, ret):
        r = []
        for nm, g in INFO:
            v = via(ex, st, MI, IREF, g)
            r.append(("succeeds only with attribute %s" % nm, HAS(*K(nm))))
            r.append(("%s is the stored %s" % (g, nm), same_list(v, K(nm)) if nm in LISTS else v.x == SATTR(*K(nm))))
        v = via(ex, st, MI, IREF, "getAuxiliary")
        r.append(("auxiliary is the stored one, if any", v.x == z3.If(HAS(*K("auxiliary")), SATTR(*K("auxiliary")), o["aux"])))
        return r

    def exc(ex, st, o, x):
        io = z3.Or([IOERR(*K(n)) for n, g in INFO] + [IOERR(*K("auxiliary"))])
        r = [("by a runtime error", z3.BoolVal(x.cls == "std::runtime_error")),
             ("fails only when a required attribute is missing or cannot be read", z3.Or([io] + [z3.Not(HAS(*K(n))) for n, g in INFO]))]
        if not x.x.eq(IOMSG):
            for n, g in INFO:
                r.append(("the error names missing attribute %s" % n, z3.Implies(z3.Not(HAS(*K(n))), str_contains(x.x, "/%s\n" % n))))
        return r
    return Task(MI + "::load", setup, post, exc, name="ModelInfo::load", contracts=h5con(), budget=120)


# ------------------------------------------------------------------------------------------ Surface / Block
IU, IV = U + "IndexingUniform", U + "IndexingVariable"


def c_uniform(log):
    def f(ex, st, this, args, fn):
        ex.throw(st, ExV("std::invalid_argument", z3.Int("index_message")), args[0].x <= 0)
        setf(ex, st, this.x, IU, "_dx", args[0].x)
        st.assume(lib.CLSTAG(this.x) == lib.clstag(ex.prog.cls(IU)))
        st.ghost["kind_of"] = V(Ty("arr"), [z3.Store(st.ghost["kind_of"].t[0], this.x, ival(1))])
        st.ghost["res_of"] = V(Ty("arr"), [z3.Store(st.ghost["res_of"].t[0], this.x, args[0].x)])
        return V(VOID, [])
    return f


def c_variable(ex, st, this, args, fn):
    p, n = args[0], args[1]
    order = args[2].x if len(args) > 2 and args[2] is not None else ival(0)
    ex.throw(st, ExV("std::invalid_argument", z3.Int("index_message")), z3.Or(p.t[0] == 0, n.x == 0))
    ex.oblige(st, "pre", z3.And(p.t[1] == 0, ex.LEN(p.t[0]) >= n.x), "IndexingVariable: the coordinates are there")
    st.ghost["kind_of"] = V(Ty("arr"), [z3.Store(st.ghost["kind_of"].t[0], this.x, 2 + order)])
    st.ghost["n_of"] = V(Ty("arr"), [z3.Store(st.ghost["n_of"].t[0], this.x, n.x)])
    k = ex.mkey(REAL)
    st.ghost["row_of"] = V(Ty("arr"), [z3.Store(st.ghost["row_of"].t[0], this.x, z3.Select(ex.cellof(st, "mem", k)[0], p.t[0]))])
    return V(VOID, [])


def grid_obj(ex, st, c, kind):
    t = this_obj(ex, st, c, BREF)
    st.ghost["kind_of"] = V(Ty("arr"), [z3.K(I, ival(0))])
    st.ghost["res_of"] = V(Ty("arr"), [z3.K(I, z3.RealVal(0))])
    st.ghost["n_of"] = V(Ty("arr"), [z3.K(I, ival(0))])
    st.ghost["row_of"] = V(Ty("arr"), [z3.Const("norows", z3.ArraySort(I, z3.ArraySort(I, R)))])
    name = z3.Int("name")
    st.assume(z3.And(name > 0, IOMSG > 0))
    ex.call_function(ex.prog.func(c + "::" + c.split("::")[-1], 1), st, t, [V(STR, [name])])
    return t, cat(strlit(kind + "/"), name)


def t_grid(c, kind, axes):
    nd = len(axes)
    rank = nd + 1

    def setup(ex, st):
        t, path = grid_obj(ex, st, c, kind)
        return dict(this=t, args=[V(ptr(cls(H5)), [ival(H5REF)])], path=path,
                    inputs={x: HAS(path, strlit(x)) for a in axes for x in (a + "_resolution", a + "_coordinates")})

    def facts(o):
        p = o["path"]
        res = {a: (p, strlit(a + "_resolution")) for a in axes}
        crd = {a: (p, strlit(a + "_coordinates")) for a in axes}
        return p, res, crd

    def post(ex, st, o, ret):
        p, res, crd = facts(o)
        r = []
        dims = via(ex, st, c, BREF, "getDims")
        for i, a in enumerate(axes):
            A = a.upper()
            hr, hc = HAS(*res[a]), HAS(*crd[a])
            r.append(("axis %s: succeeds only with a resolution or coordinates" % a, z3.Or(hr, hc)))
            r.append(("axis %s: the resolution is the stored one" % a, z3.Implies(hr, via(ex, st, c, BREF, "getResolution" + A).x == NATTR(*res[a]))))
            cp = via(ex, st, c, BREF, "getCoordinates" + A)
            var = z3.And(z3.Not(hr), hc)
            r.append(("axis %s: coordinates are present exactly for variable spacing" % a, (cp.t[0] != 0) == var))
            r.append(("axis %s: as many coordinates as points" % a, z3.Implies(var, z3.And(VATTR_N(*crd[a]) == DIM(p, i), ex.LEN(cp.t[0]) == DIM(p, i), cp.t[1] == 0))))
            v, k = z3.Int("v_" + a), z3.Int("k_" + a)
            rw = row(ex, st, cp)
            inr = lambda q: z3.And(q >= 0, q < DIM(p, i))
            st_v = z3.Select(rw, v)
            r.append(("axis %s: every coordinate is a stored one" % a, z3.Implies(z3.And(var, inr(v)), z3.Exists([k], z3.And(inr(k), z3.Select(VATTR(*crd[a]), k) == st_v)))))
            r.append(("axis %s: every stored coordinate is there" % a, z3.Implies(z3.And(var, inr(v)), z3.Exists([k], z3.And(inr(k), z3.Select(rw, k) == z3.Select(VATTR(*crd[a]), v))))))
            up = (lambda x, y: x <= y) if a != "z" else (lambda x, y: x >= y)
            r.append(("axis %s: coordinates in order" % a, z3.Implies(z3.And(var, inr(v), inr(k), v < k), up(st_v, z3.Select(rw, k)))))
            r.append(("axis %s: number of points" % a, ex.read(st, Elem(dims.lv.par, simp(dims.lv.idx + i), SIZE, dims.lv.skip)).x == DIM(p, i) if isinstance(dims, PV) else elem(ex, st, dims, i) == DIM(p, i)))
            ix = getf(ex, st, BREF, c, "_indexing" + A).x
            kd = z3.Select(st.ghost["kind_of"].t[0], ix)
            r.append(("axis %s: indexing by the resolution" % a, z3.Implies(hr, z3.And(ix != 0, kd == 1, z3.Select(st.ghost["res_of"].t[0], ix) == NATTR(*res[a])))))
            r.append(("axis %s: indexing by the coordinates" % a, z3.Implies(var, z3.And(ix != 0, kd == (3 if a == "z" else 2), z3.Select(st.ghost["n_of"].t[0], ix) == DIM(p, i),
                      z3.Implies(inr(v), z3.Select(z3.Select(st.ghost["row_of"].t[0], ix), v) == st_v)))))
        if kind == "blocks":
            zt = (p, strlit("z_top"))
            top = via(ex, st, c, BREF, "getZTop").x
            hr = HAS(*res["z"])
            cz = via(ex, st, c, BREF, "getCoordinatesZ")
            r.append(("uniform depth: the top is the stored one", z3.Implies(hr, z3.And(HAS(*zt), top == NATTR(*zt)))))
            r.append(("variable depth: the top is the first coordinate", z3.Implies(z3.Not(hr), top == z3.Select(row(ex, st, cz), 0))))
            r.append(("number of values per point", via(ex, st, c, BREF, "getNumValues").x == DIM(p, 3)))
            w = getf(ex, st, BREF, c, "_hyperslabDims").t[0]
            r.append(("the window spans all depths and values by default", z3.And(z3.Select(w, 2) == DIM(p, 2), z3.Select(w, 3) == DIM(p, 3))))
        return r

    def exc(ex, st, o, x):
        p, res, crd = facts(o)
        why = []
        for i, a in enumerate(axes):
            why += [z3.And(z3.Not(HAS(*res[a])), z3.Not(HAS(*crd[a]))), z3.And(z3.Not(HAS(*res[a])), VATTR_N(*crd[a]) != DIM(p, i)), IOERR(*res[a]), IOERR(*crd[a])]
            if x.cls == "std::invalid_argument":
                why += [NATTR(*res[a]) <= 0, DIM(p, i) == 0]
        if kind == "blocks":
            zt = (p, strlit("z_top"))
            why += [z3.And(HAS(*res["z"]), z3.Not(HAS(*zt))), IOERR(*zt)]
        why.append(IOERR(p, ival(0)))
        r = [("by a runtime error or, for a bad resolution, an invalid-argument error", z3.BoolVal(x.cls in ("std::runtime_error", "std::invalid_argument"))),
             ("fails only for a missing attribute, a wrong number of coordinates or a read error", z3.Or(why))]
        if x.cls == "std::runtime_error" and not x.x.eq(IOMSG):
            for i, a in enumerate(axes):
                none = z3.And(z3.Not(HAS(*res[a])), z3.Not(HAS(*crd[a])))
                for n in ("resolution", "coordinates"):
                    r.append(("the error names %s_%s when both are missing" % (a, n), z3.Implies(none, z3.And(str_contains(x.x, "/%s_%s" % (a, n)), has_part(x.x, o["path"])))))
                bad = z3.And(z3.Not(HAS(*res[a])), HAS(*crd[a]), VATTR_N(*crd[a]) != DIM(p, i))
                r.append(("the error reports the wrong number of %s coordinates" % a, z3.Implies(bad, z3.And(str_contains(x.x, a + " dimension of"), has_part(x.x, o["path"])))))
            if kind == "blocks":
                r.append(("the error names a missing z_top", z3.Implies(z3.And(HAS(*res["z"]), z3.Not(HAS(*zt))), z3.And(str_contains(x.x, "/z_top"), has_part(x.x, o["path"])))))
        return r
    con = h5con(rank)
    con[(IU + "::IndexingUniform", 1)] = c_uniform(None)
    con[(IV + "::IndexingVariable", 3)] = c_variable
    return Task(c + "::loadMetadata", setup, post, exc, name=c.split("::")[-1] + "::loadMetadata", contracts=con, budget=150)


def has_part(t, part, memo=None):
    """part (a term: literal prefix + name) occurs in concatenation t: its name term is one of the pieces"""
    from ..core import CAT, _flat, ors
    memo = {} if memo is None else memo
    name = _flat(part)[-1]
    if t.get_id() in memo:
        return memo[t.get_id()][1]
    if t.eq(name):
        r = z3.BoolVal(True)
    elif z3.is_app(t) and t.decl().eq(CAT):
        r = ors([has_part(q, part, memo) for q in _flat(t)])
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        r = z3.If(c, has_part(a, part, memo), has_part(b, part, memo))
    else:
        r = z3.BoolVal(False)
    memo[t.get_id()] = (t, r)
    return r


def tasks_info():
    return [t_info()]


def tasks_grid():
    return [t_grid(SU, "surfaces", "xy"), t_grid(BL, "blocks", "xyz")]


# ------------------------------------------------------------------------------------------ Model
BADG = z3.Function("GRIDBAD", I, B)                # loadMetadata of a surface or block (by path) reports missing attributes
BADR = z3.Function("GRIDBADRES", I, B)             # ... rejects a resolution
GMSG = z3.Function("GRIDMSG", I, I)
INFOBAD, INFOMSG = z3.Bool("info_bad"), z3.Int("info_message")
NBLK, BLKNAME = z3.Int("number_of_blocks"), z3.Const("block_names", z3.ArraySort(I, I))
# what was read into an object: learnt only by executing its reader (the name of an object never changes)
LOADED = z3.Function("LOADEDFROM", I, I)
ZTOP = z3.Function("ZTOP", I, R)


def c_infoload(ex, st, this, args, fn):
    ex.oblige(st, "null", z3.And(this.x != 0, args[0].x == H5REF), "load: description object and the model's storage")
    st.assume(LOADED(this.x) == strlit("info"))
    ex.throw(st, ExV("std::runtime_error", INFOMSG), INFOBAD)
    return V(VOID, [])


def c_gridload(kind, c):
    def f(ex, st, this, args, fn):
        ex.oblige(st, "null", z3.And(this.x != 0, args[0].x == H5REF), "loadMetadata: object and the model's storage")
        nm = getf(ex, st, this.x, c, "_name").x
        path = cat(strlit(kind + "/"), nm)
        st.assume(LOADED(this.x) == path)
        if c == BL:
            setf(ex, st, this.x, c, "_zTop", ZTOP(path))
        ex.throw(st, ExV("std::runtime_error", GMSG(path)), BADG(path))
        ex.throw(st, ExV("std::invalid_argument", GMSG(path)), z3.And(z3.Not(BADG(path)), BADR(path)))
        return V(VOID, [])
    return f


def c_names(ex, st, this, args, fn):
    ex.oblige(st, "pre", norm(sarg(ex, st, args[1])) == strlit("blocks"), "getGroupDatasets: the group of blocks")
    ex.throw(st, ExV("std::runtime_error", IOMSG), z3.Bool("no_blocks"))
    ex.write(st, args[0].lv if isinstance(args[0], PV) else ex.deref(st, args[0]), V(STRS, [NBLK, BLKNAME]))
    return V(VOID, [])


def c_has1(F):
    def f(ex, st, this, args, fn):
        return V(BOOL, [F(norm(sarg(ex, st, args[0])))])
    return f


NUMS = ["dim_x", "dim_y", "dim_z", "origin_x", "origin_y", "y_azimuth"]
ROOT = strlit("/")


def rk(n):
    return ROOT, strlit(n)


REQ = ["data_values", "data_units", "data_layout", "crs"] + NUMS


def t_model():
    def setup(ex, st):
        t = this_obj(ex, st, MO, MREF)
        setf(ex, st, MREF, MO, "_h5", [ival(H5REF)])
        st.assume(z3.And(IOMSG > 0, INFOMSG > 0, NBLK >= 0))
        for n in REQ:
            st.assume(SATTR(*rk(n)) > 0)
        j = z3.Int("bn")
        st.assume(z3.ForAll([j], z3.Select(BLKNAME, j) > 0))
        f = ex.field(st, ival(MREF), MO, "_blocks")
        return dict(this=t, args=[], inputs={n: HAS(*rk(n)) for n in REQ})

    def post(ex, st, o, ret):
        r = []
        for n in REQ:
            r.append(("succeeds only with attribute %s" % n, HAS(*rk(n))))
        r.append(("value names are the stored ones", same_list(via(ex, st, MO, MREF, "getValueNames"), rk("data_values"))))
        r.append(("value units are the stored ones", same_list(via(ex, st, MO, MREF, "getValueUnits"), rk("data_units"))))
        r.append(("the CRS is the stored one", via(ex, st, MO, MREF, "getCRSString").x == SATTR(*rk("crs"))))
        for g, names in (("getDims", NUMS[:3]), ("getOrigin", NUMS[3:5])):
            p = via(ex, st, MO, MREF, g)
            for i, n in enumerate(names):
                v = ex.read(st, Elem(p.lv.par, simp(p.lv.idx + i), REAL, p.lv.skip)).x if isinstance(p, PV) else elem(ex, st, p, i)
                r.append(("%s[%d] is the stored %s" % (g, i, n), v == NATTR(*rk(n))))
        r.append(("the azimuth is the stored one", via(ex, st, MO, MREF, "getYAzimuth").x == NATTR(*rk("y_azimuth"))))
        r.append(("vertex layout", z3.And(via(ex, st, MO, MREF, "getDataLayout").x == 0, LAYOUTOK)))
        inf = via(ex, st, MO, MREF, "getInfo").x
        r.append(("the description was loaded without error", z3.And(inf != 0, LOADED(inf) == strlit("info"), z3.Not(INFOBAD))))
        for g, n in (("getTopSurface", "top_surface"), ("getTopoBathy", "topography_bathymetry")):
            s = via(ex, st, MO, MREF, g).x
            p = cat(strlit("surfaces/"), strlit(n))
            has = z3.And(HASG(strlit("surfaces")), HASD(p))
            r.append(("%s: there exactly when stored, and loaded" % n, z3.If(has, z3.And(s != 0, LOADED(s) == p, z3.Not(BADG(p))), s == 0)))
        b = via(ex, st, MO, MREF, "getBlocks")
        i, j = z3.Ints("bi bj")
        inr = lambda q: z3.And(q >= 0, q < NBLK)
        bl = lambda q: z3.Select(b.t[1], q)
        ztop = lambda q: via(ex, st, BL, q, "getZTop").x
        r.append(("as many blocks as stored", b.t[0] == NBLK))
        r.append(("blocks are ordered from the top down", z3.Implies(z3.And(inr(i), inr(j), i < j), ztop(bl(i)) >= ztop(bl(j)))))
        r.append(("every block is a stored one, loaded", z3.Implies(inr(i), z3.Exists([j], z3.And(inr(j), LOADED(bl(i)) == cat(strlit("blocks/"), z3.Select(BLKNAME, j)))))))
        r.append(("every stored block is there", z3.Implies(inr(i), z3.Exists([j], z3.And(inr(j), LOADED(bl(j)) == cat(strlit("blocks/"), z3.Select(BLKNAME, i)))))))
        r.append(("no block reported missing attributes", z3.Implies(inr(i), z3.Not(BADG(cat(strlit("blocks/"), z3.Select(BLKNAME, i)))))))
        return r

    def exc(ex, st, o, x):
        i = z3.Int("bi")
        surf = [cat(strlit("surfaces/"), strlit(n)) for n in ("top_surface", "topography_bathymetry")]
        why = [z3.Not(HAS(*rk(n))) for n in REQ] + [IOERR(*rk(n)) for n in REQ] + [INFOBAD, z3.Bool("no_blocks")] + [BADG(p) for p in surf] + [BADR(p) for p in surf]
        bp = cat(strlit("blocks/"), z3.Select(BLKNAME, i))
        why += [z3.Exists([i], z3.And(i >= 0, i < NBLK, z3.Or(BADG(bp), BADR(bp)))), z3.Not(LAYOUTOK)]
        r = [("fails only for missing attributes, an unsupported layout or a read error", z3.Or(why))]
        if x.cls == "std::runtime_error" and not x.x.eq(IOMSG):
            for n in REQ:
                r.append(("the error names missing attribute %s" % n, z3.Implies(z3.Not(HAS(*rk(n))), str_contains(x.x, "/%s\n" % n))))
            r.append(("the error carries the missing description attributes", z3.Implies(INFOBAD, has_part(x.x, INFOMSG))))
            for p in surf:
                r.append(("the error carries the missing attributes of a surface", z3.Implies(z3.And(HASG(strlit("surfaces")), HASD(p), BADG(p)), has_part(x.x, GMSG(p)))))
        return r
    con = h5con(4)
    con.update({MI + "::load": c_infoload, SU + "::loadMetadata": c_gridload("surfaces", SU), BL + "::loadMetadata": c_gridload("blocks", BL), H5 + "::getGroupDatasets": c_names,
                H5 + "::hasGroup": c_has1(HASG), H5 + "::hasDataset": c_has1(HASD)})
    return Task(MO + "::loadMetadata", setup, post, exc, name="Model::loadMetadata", contracts=con, budget=200)


def _layout():
    from ..core import lower
    return lower(SATTR(*rk("data_layout"))) == strlit("vertex")


LAYOUTOK = _layout()


def tasks_model():
    return [t_model()]
