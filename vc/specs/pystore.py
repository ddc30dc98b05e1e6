"""C23: contracts of geomodelgrids/create/io/hdf5.py (HDF5Storage) and of the driver App.main, over a contract of h5py:
a file is a tree of groups; a data set is a function on its index box, a slice assignment replaces the values of the slice only,
a slice read copies them; attributes are a map from names to values."""
import z3
from ..pyvc import *
from ..pyvc import Class, base_lib, np_string
from ..verify import Lemma
from . import builder as bld

MOD = "geomodelgrids.create.io.hdf5:"
FILE = "model.h5"
TXT = z3.DeclareSort("Text")


def program(repo):
    return PyProgram(repo)


# ---------------------------------------------------------------- contract of h5py
class H5:
    """the contents of the file system"""

    def __init__(self, run):
        self.files, self.run = {}, run


class Node:
    def __init__(self):
        self.children, self.attrs, self.data = {}, {}, None


def new_file(run, name):
    run.ghost.setdefault("h5", H5(run)).files[name] = n = Node()
    return n


def dataset(run, shape, fn):
    n = Node()
    n.data = Arr(run, shape, fn, "real")
    return n


def attrs_obj(fo, node):
    def ok(run, write=False):
        if not fo["open"]:
            raise Raised("ValueError", line=run.line)
        if write:
            run.mut()
            if fo["mode"] == "r":
                raise Raised("KeyError", line=run.line)

    def key(k):
        if not isinstance(k, str):
            raise Unsupported("attribute name")
        return k

    def setitem(run, a, k):
        ok(run, True)
        v = run.force(a[1])
        if v is None or isinstance(v, (dict, Poison)):
            raise Raised("TypeError", line=run.line)
        if isinstance(v, (list, tuple)) and v and all(isnum(x) for x in v):
            v = run.asarray(v)
        node.attrs[key(a[0])] = v

    def getitem(run, a, k):
        ok(run)
        if key(a[0]) not in node.attrs:
            raise Raised("KeyError", line=run.line)
        return node.attrs[a[0]]

    def get(run, a, k):
        ok(run)
        return node.attrs.get(key(a[0]), a[1] if len(a) > 1 else None)

    def delitem(run, a, k):
        ok(run, True)
        if key(a[0]) not in node.attrs:
            raise Raised("KeyError", line=run.line)
        del node.attrs[a[0]]
    return Obj("attrs", methods={"__setitem__": setitem, "__getitem__": getitem, "get": get, "__delitem__": delitem, "__contains__": lambda run, a, k: key(a[0]) in node.attrs,
                                 "create": lambda run, a, k: setitem(run, [a[0], a[1] if len(a) > 1 else k["data"]], {}), "modify": setitem,
                                 "keys": lambda run, a, k: list(node.attrs), "__iter__": lambda run, a, k: list(node.attrs)})


def wrap(run, fo, node):
    if node.data is not None:
        d = node.data
        # h5py data set handle: slices are copied out and written in
        h = Arr(run, list(d.shape), None, "real", base=d, axes=[("s", 0, n) for n in d.shape])
        h.attrs["dataset"] = True
        h.attrs["attrs"] = attrs_obj(fo, node)
        h.attrs["file"] = fo

        def guard_write(region, val, r, h=h):
            if not fo["open"]:
                raise Raised("ValueError", line=r.line)
            if fo["mode"] == "r":
                raise Raised("OSError", line=r.line)
            d.write(region, val, r)
        snap0 = Arr.snap

        def snap(h=h):
            if not fo["open"]:
                raise Raised("ValueError", line=run.line)
            return d.snap()
        h.write, h.snap = guard_write, snap
        return h

    def ok(r, write=False):
        if not fo["open"]:
            raise Raised("ValueError", line=r.line)
        if write:
            r.mut()
            if fo["mode"] == "r":
                raise Raised("ValueError", line=r.line)

    def find(name):
        if not isinstance(name, str):
            raise Unsupported("name in the file")
        n = node
        for p in [x for x in name.split("/") if x]:
            if p not in n.children:
                return None
            n = n.children[p]
        return n

    def parent(name):
        ps = [x for x in name.split("/") if x]
        n = node
        for p in ps[:-1]:
            n = n.children.setdefault(p, Node())
        return n, ps[-1]

    def getitem(r, a, k):
        ok(r)
        n = find(a[0])
        if n is None:
            raise Raised("KeyError", line=r.line)
        return wrap(r, fo, n)

    def create_group(r, a, k):
        ok(r, True)
        if find(a[0]) is not None:
            raise Raised("ValueError", line=r.line)
        p, nm = parent(a[0])
        p.children[nm] = Node()
        return wrap(r, fo, p.children[nm])

    def require_group(r, a, k):
        ok(r)
        return getitem(r, a, k) if find(a[0]) is not None else create_group(r, a, k)

    def create_dataset(r, a, k):
        ok(r, True)
        name = a[0]
        if set(k) - {"shape", "dtype", "data", "chunks", "compression", "compression_opts", "shuffle", "fletcher32"}:
            raise Unsupported("create_dataset options")
        if find(name) is not None:
            raise Raised("ValueError", line=r.line)
        p = dict(zip(["shape", "dtype", "data"], a[1:]))
        p.update({x: k[x] for x in ("shape", "dtype", "data") if x in k})
        if p.get("dtype") is not None and not (isinstance(p["dtype"], Type) and p["dtype"].name in ("float", "float64", "float32") or p["dtype"] in ("f4", "f8", "float32", "float64", "<f4", "<f8")):
            raise Unsupported("data set type")
        if p.get("data") is not None:
            v = r.asarray(p["data"])
            f = v.snap()
            sh, fn = list(v.shape), f
        else:
            sh = [simp(x) if isz(x) else x for x in r.items(p["shape"])]
            fn = lambda idx: z3.RealVal(0)
        q, nm = parent(name)
        q.children[nm] = dataset(r, sh, fn)
        return wrap(r, fo, q.children[nm])

    def delitem(r, a, k):
        ok(r, True)
        if find(a[0]) is None:
            raise Raised("KeyError", line=r.line)
        p, nm = parent(a[0])
        del p.children[nm]

    def close(r, a, k):
        fo["open"] = False
    m = {"__getitem__": getitem, "__contains__": lambda r, a, k: (ok(r), find(a[0]) is not None)[1], "create_group": create_group, "require_group": require_group, "create_dataset": create_dataset,
         "__delitem__": delitem, "keys": lambda r, a, k: list(node.children), "get": lambda r, a, k: wrap(r, fo, find(a[0])) if find(a[0]) is not None else None}
    o = Obj("h5group", {"attrs": Getter(lambda r: attrs_obj(fo, node)), "name": "/"}, methods=m)
    if fo["root"] is node:
        m.update({"close": close, "flush": lambda r, a, k: None, "__enter__": lambda r, a, k: o, "__exit__": close, "__bool__": lambda r, a, k: fo["open"]})
    return o


def h5_file(run, args, kw):
    name = args[0] if args else kw.get("name")
    mode = args[1] if len(args) > 1 else kw.get("mode", "r")
    if set(kw) - {"name", "mode"}:
        raise Unsupported("h5py.File options")
    if name != run.ghost.get("filename", FILE):
        raise Unsupported("another file")
    fs = run.ghost.setdefault("h5", H5(run)).files
    run.ghost["opened"] = run.ghost.get("opened", 0) + 1
    if mode in ("r", "r+"):
        if name not in fs:
            raise Raised("OSError", line=run.line)
    elif mode == "w":
        run.mut()
        fs[name] = Node()
    elif mode in ("x", "w-"):
        if name in fs:
            raise Raised("OSError", line=run.line)
        fs[name] = Node()
    elif mode == "a":
        if name not in fs:
            fs[name] = Node()
    else:
        raise Unsupported("mode")
    return wrap(run, {"open": True, "mode": mode, "root": fs[name]}, fs[name])


LIB = {"h5py": {"File": Builtin("h5py.File", h5_file)}}


# ---------------------------------------------------------------- states
def storage(run):
    c = run.find(MOD + "HDF5Storage")
    return Obj(c, {"filename": FILE}, partial=True)


def other(run, root):
    """contents the operation must leave alone"""
    f = ufun("other_data", I, I, I, R)
    d = dataset(run, [iv("o0"), iv("o1"), iv("o2")], lambda idx: f(*[term(i) for i in idx]))
    d.attrs["x_resolution"] = rv("other_attr")
    root.children.setdefault("surfaces", Node()).children["another_surface"] = d
    g = ufun("other_block", I, I, I, I, R)
    b = dataset(run, [iv("p0"), iv("p1"), iv("p2"), iv("p3")], lambda idx: g(*[term(i) for i in idx]))
    b.attrs["z_top"] = rv("other_top")
    root.children.setdefault("blocks", Node()).children["another_block"] = b
    root.attrs["an_attribute"] = rv("an_attribute")
    for n in ("o0", "o1", "o2", "p0", "p1", "p2", "p3"):
        run.assume(iv(n) >= 1)
    return d, b


def frame(run, env, rootattrs=False):
    """the rest of the file is as it was"""
    root = run.ghost["h5"].files.get(FILE)
    out = []
    try:
        d, b = root.children["surfaces"].children["another_surface"], root.children["blocks"].children["another_block"]
        same = d is env["other"][0] and b is env["other"][1]
        i = [iv("any%d" % j) for j in range(4)]
        e = z3.BoolVal(bool(same))
        if same:
            e = z3.And(real(d.data.get(i[:3])) == ufun("other_data", I, I, I, R)(*i[:3]), real(b.data.get(i)) == ufun("other_block", I, I, I, I, R)(*i), real(d.attrs["x_resolution"]) == rv("other_attr"), real(b.attrs["z_top"]) == rv("other_top"),
                       z3.BoolVal(set(d.attrs) == {"x_resolution"} and set(b.attrs) == {"z_top"}))
        keep = z3.BoolVal("an_attribute" in root.attrs)
        if "an_attribute" in root.attrs:
            keep = real(root.attrs["an_attribute"]) == rv("an_attribute")
        out.append(("other data sets and attributes are unchanged", z3.And(e, keep)))
    except (KeyError, AttributeError):
        out.append(("other data sets and attributes are unchanged", False))
    return out


def rv(n):
    return z3.Real(n)


def iv(n):
    return z3.Int(n)


def save_task(kind, batch):
    """save_surface / save_block"""
    nd = 3 if kind == "surface" else 4
    grp = kind + "s"

    def setup(run):
        root = new_file(run, FILE)
        oth = other(run, root)
        N = [iv("n%d" % j) for j in range(nd)]
        for n in N:
            run.assume(n >= 1)
        if kind == "surface":
            N[2] = 1
        OLD = ufun("old_" + kind, *([I] * nd + [R]))
        ds = dataset(run, N, lambda idx: OLD(*[term(i) for i in idx]))
        ds.attrs["kept"] = rv("kept")
        root.children[grp].children["it"] = ds
        b, lo, ln = bld.box(run, batch, N[:2] if kind == "surface" else N[:3], "xyz"[:nd - 1])
        lo, ln = lo + [0] * (nd - len(lo)), [simp(term(x)) for x in ln] + N[len(ln):]
        DATA = ufun("data_" + kind, *([I] * nd + [R]))
        data = Arr(run, ln, lambda idx: DATA(*[term(i) for i in idx]), "real")
        obj = Obj("grid", {"name": "it"}, partial=True)
        s = storage(run)
        return dict(func=s.cls.find("save_" + kind), args=[s, obj, data] + ([b] if batch else []), N=N, lo=lo, ln=ln, other=oth, ds=ds)

    def post(run, env, ret):
        root = run.ghost["h5"].files.get(FILE)
        ds = root.children[grp].children.get("it") if grp in root.children else None
        if ds is None or ds.data is None or len(ds.data.shape) != nd:
            return [("the data set is in the file", False)]
        N, lo, ln = env["N"], env["lo"], env["ln"]
        idx = [iv("at%d" % j) for j in range(nd)]
        run.assume(z3.And([z3.And(0 <= i, i < term(n)) for i, n in zip(idx, N)]))
        inb = z3.And([z3.And(term(l) <= i, i < term(l) + term(n)) for i, l, n in zip(idx, lo, ln)])
        OLD, DATA = ufun("old_" + kind, *([I] * nd + [R])), ufun("data_" + kind, *([I] * nd + [R]))
        v = real(ds.data.get(idx))
        out = [("inside its box the data set holds the given values", z3.Implies(inb, v == DATA(*[i - term(l) for i, l in zip(idx, lo)]))),
               ("outside its box the data set is unchanged", z3.Implies(z3.Not(inb), v == OLD(*idx))),
               ("the shape and the attributes of the data set are unchanged", z3.And([term(a) == term(b) for a, b in zip(ds.data.shape, N)] + [z3.BoolVal(list(ds.attrs) == ["kept"])]))]
        return out + frame(run, env)
    return PyTask(MOD + "HDF5Storage.save_" + kind, setup, post, name="HDF5Storage.save_%s%s" % (kind, " (batch)" if batch else ""), lib=LIB)


def load_task(kinds, batch):
    def setup(run):
        root = new_file(run, FILE)
        oth = other(run, root)
        D = bld.domain(run)
        o, crd = bld.grid(run, "Surface", kinds + "-", *D)
        o.attrs["name"] = "it"
        N = [iv("n0"), iv("n1"), 1]
        for n in N[:2]:
            run.assume(n >= 1)
        OLD = ufun("stored", I, I, I, R)
        ds = dataset(run, N, lambda idx: OLD(*[term(i) for i in idx]))
        for ax, k in zip("xy", kinds):
            if k == "u":
                ds.attrs[ax + "_resolution"] = rv("file_%s_resolution" % ax)
            else:
                f = ufun("file_%s_coordinates" % ax, I, R)
                ds.attrs[ax + "_coordinates"] = Arr(run, [iv("file_num_" + ax)], lambda idx, f=f: f(term(idx[0])), "real")
                run.assume(iv("file_num_" + ax) >= 1)
        root.children["surfaces"].children["it"] = ds
        b, lo, ln = bld.box(run, batch, N[:2], "xy")
        s = storage(run)
        return dict(func=s.cls.find("load_surface"), args=[s, o] + ([b] if batch else []), N=N, lo=lo, ln=ln, other=oth, ds=ds, o=o)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 3:
            return [("a 3D array", False)]
        lo, ln = env["lo"], env["ln"]
        out = [("the shape is that of the slice", z3.And([term(ret.shape[j]) == term(ln[j]) for j in range(2)] + [term(ret.shape[2]) == 1]))]
        idx = [iv("at%d" % j) for j in range(2)]
        run.assume(z3.And([z3.And(0 <= i, i < term(n)) for i, n in zip(idx, ln)]))
        OLD = ufun("stored", I, I, I, R)
        out.append(("the values are the stored values of the slice", real(ret.get((idx[0], idx[1], 0))) == OLD(idx[0] + term(lo[0]), idx[1] + term(lo[1]), 0)))
        k = iv("any_coordinate")
        run.instantiate(k)
        for ax, kd in zip("xy", kinds):
            if kd == "u":
                out.append(("the %s resolution of the file is the configured one" % ax, rv("file_%s_resolution" % ax) == rv(ax + "_resolution")))
            else:
                n = iv("num_%s_coordinates" % ax)
                out.append(("the %s coordinates of the file are the configured ones" % ax, z3.And(iv("file_num_" + ax) == n, z3.Implies(z3.And(0 <= k, k < n), ufun("file_%s_coordinates" % ax, I, R)(k) == ufun(ax + "_coordinates", I, R)(k)))))
        i = [iv("w%d" % j) for j in range(3)]
        out.append(("the file is unchanged", z3.And(z3.BoolVal(run.ghost["h5"].files[FILE].children["surfaces"].children.get("it") is env["ds"]), real(env["ds"].data.get(i)) == OLD(*i))))
        return out + frame(run, env)

    def exc(run, env, e):
        if e.cls != "ValueError":
            return [("no other exception (%s line %s)" % (e.cls, e.line), False)]
        same = []
        for ax, kd in zip("xy", kinds):
            if kd == "u":
                same.append(rv("file_%s_resolution" % ax) == rv(ax + "_resolution"))
            else:
                n, k = iv("num_%s_coordinates" % ax), z3.Int("q")
                f, g = ufun("file_%s_coordinates" % ax, I, R), ufun(ax + "_coordinates", I, R)
                same += [iv("file_num_" + ax) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k) == g(k)), patterns=[f(k)])]
        return [("ValueError only for a surface that differs from the configuration", z3.Not(z3.And(same)))]
    return PyTask(MOD + "HDF5Storage.load_surface", setup, post, exc, name="HDF5Storage.load_surface (%s%s)" % (kinds, " batch" if batch else ""), lib=LIB)


# ---------------------------------------------------------------- attributes
def text(name):
    return Opaque(name, "str", truth=True, term=z3.Const(name, TXT))


def text_list(name, nmin=0):
    n, f = iv("len_" + name), ufun("text_" + name, I, TXT)
    return Seq(n, lambda i: Opaque(name, "str", truth=True, term=f(term(i))), "list")


MODEL_ATTRS = {"title": "s", "id": "s", "description": "s", "keywords": "l", "history": "s", "comment": "s", "creator_name": "s", "creator_email": "s", "creator_institution": "s", "acknowledgement": "s",
               "authors": "l", "references": "l", "repository_name": "s", "repository_url": "s", "repository_doi": "s", "license": "s", "version": "s", "data_values": "l", "data_units": "l", "data_layout": "s",
               "crs": "s", "origin_x": "f", "origin_y": "f", "y_azimuth": "f", "dim_x": "f", "dim_y": "f", "dim_z": "f", "auxiliary": "d"}


def metadata(run):
    a = {}
    for n, k in MODEL_ATTRS.items():
        if k == "s":
            a[n] = text(n)
        elif k == "l":
            a[n] = text_list(n)
            run.assume(a[n].n >= 0)
        elif k == "f":
            a[n] = rv(n)
        else:
            a[n] = Opaque(n, "dict", truth=True, term=z3.Const(n, TXT))
    return Obj("metadata", a, partial=True)


def same_value(run, v, want):
    """stored attribute == configured value"""
    if v is None:
        return False
    if isinstance(want, Opaque):
        if not isinstance(v, Opaque) or v.term is None:
            return False
        return v.term == want.term
    if isinstance(want, Seq):
        if isinstance(v, Seq):
            k = iv("any_item")
            run.assume(z3.And(0 <= k, k < term(want.n)))
            run.instantiate(k)
            x, y = v.fn(k), want.fn(k)
            e = (x.term == y.term) if isinstance(y, Opaque) and isinstance(x, Opaque) and x.term is not None else real(x) == real(y) if isnum(x) and isnum(y) else z3.BoolVal(False)
            return z3.Implies(term(want.n) > 0, z3.And(term(v.n) == term(want.n), e))
        if isinstance(v, Arr) and len(v.shape) == 1:
            k = iv("any_item")
            run.assume(z3.And(0 <= k, k < term(want.n)))
            return z3.And(term(v.shape[0]) == term(want.n), real(v.get((k,))) == real(want.fn(k)))
        return False
    if isnum(want) and isnum(v):
        return real(v) == real(want)
    return False


def attr_goals(run, node, want, keep):
    out = []
    for n, w in want.items():
        out.append(("attribute %s equals the configured value" % n, same_value(run, node.attrs.get(n), w)))
    for n, v in node.attrs.items():
        if n in want or n in keep:
            continue
        out.append(("attribute %s is a configured one" % n, False))
    return out


def save_domain_task():
    def setup(run):
        root = new_file(run, FILE)
        oth = other(run, root)
        md = metadata(run)
        model = Obj(run.find(bld.MOD + "Model"), {"metadata": md}, partial=True)
        s = storage(run)
        return dict(func=s.cls.find("save_domain"), args=[s, model], other=oth, md=md)

    def post(run, env, ret):
        root = run.ghost["h5"].files.get(FILE)
        return frame(run, env) + attr_goals(run, root, {n: env["md"].attrs[n] for n in MODEL_ATTRS}, {"an_attribute"})
    return PyTask(MOD + "HDF5Storage.save_domain", setup, post, name="HDF5Storage.save_domain", lib=LIB)


def grid_attrs(o, kinds, block):
    want = {}
    for ax, k in zip("xyz" if block else "xy", kinds):
        nm = ax + ("_resolution" if k == "u" else "_coordinates")
        want[nm] = o.attrs[nm]
    if block and kinds[2] == "u":
        want["z_top"] = o.attrs["z_top"]
    return want


def meta_task(kind, kinds):
    grp = kind + "s"

    def setup(run):
        root = new_file(run, FILE)
        oth = other(run, root)
        o, crd = bld.grid(run, kind.capitalize(), kinds if kind == "block" else kinds + "-", *bld.domain(run))
        o.attrs["name"] = "it"
        nd = 3 if kind == "surface" else 4
        OLD = ufun("old_" + kind, *([I] * nd + [R]))
        ds = dataset(run, [iv("n%d" % j) for j in range(nd)], lambda idx: OLD(*[term(i) for i in idx]))
        root.children[grp].children["it"] = ds
        s = storage(run)
        return dict(func=s.cls.find("save_%s_metadata" % kind), args=[s, o], other=oth, o=o, ds=ds, nd=nd)

    def post(run, env, ret):
        ds = run.ghost["h5"].files[FILE].children[grp].children.get("it")
        if ds is not env["ds"]:
            return [("the data set is kept", False)]
        i = [iv("w%d" % j) for j in range(env["nd"])]
        OLD = ufun("old_" + kind, *([I] * env["nd"] + [R]))
        return frame(run, env) + attr_goals(run, ds, grid_attrs(env["o"], kinds, kind == "block"), set()) + [("the values are unchanged", real(ds.data.get(i)) == OLD(*i))]
    return PyTask(MOD + "HDF5Storage.save_%s_metadata" % kind, setup, post, name="HDF5Storage.save_%s_metadata (%s)" % (kind, kinds), lib=LIB)


def create_task(kind, kinds, state):
    """state: 'empty' no file, 'group' group without the data set, 'old' a previous data set"""
    grp = kind + "s"

    def setup(run):
        oth = None
        if state != "empty":
            root = new_file(run, FILE)
            oth = other(run, root)
            if state == "old":
                ds = dataset(run, [iv("old%d" % j) for j in range(3 if kind == "surface" else 4)], lambda idx: z3.RealVal(7))
                ds.attrs["stale"] = rv("stale")
                root.children[grp].children["it"] = ds
        else:
            run.ghost["h5"] = H5(run)
        o, crd = bld.grid(run, kind.capitalize(), kinds if kind == "block" else kinds + "-", *bld.domain(run))
        o.attrs["name"] = "it"
        o.attrs["model_metadata"].attrs["data_values"] = text_list("data_values")
        run.assume(iv("len_data_values") >= 1)
        N = run.callfn(o.cls.find("get_dims"), [o], {})
        for n in N:
            run.assume(term(n) >= 1)
        s = storage(run)
        return dict(func=s.cls.find("create_" + kind), args=[s, o], other=oth, o=o, N=list(N) + ([iv("len_data_values")] if kind == "block" else []))

    def post(run, env, ret):
        root = run.ghost["h5"].files.get(FILE)
        ds = root.children[grp].children.get("it") if root and grp in root.children else None
        if ds is None or ds.data is None or len(ds.data.shape) != len(env["N"]):
            return [("the data set exists", False)]
        out = [("the data set has the number of points of the grid%s" % (" and values" if kind == "block" else ""), z3.And([term(a) == term(b) for a, b in zip(ds.data.shape, env["N"])]))]
        out += attr_goals(run, ds, grid_attrs(env["o"], kinds, kind == "block"), set())
        return out + (frame(run, env) if state != "empty" else [])
    return PyTask(MOD + "HDF5Storage.create_" + kind, setup, post, name="HDF5Storage.create_%s (%s, %s)" % (kind, kinds, state), lib=LIB)


def forward_task(method, target, sargs, tcls="Model"):
    """Model.save_*/init_*: the storage is called once, with the same arguments"""
    def setup(run):
        log = []

        def rec(name):
            def f(run, a, k):
                run.mut()
                log.append((name, list(a), dict(k)))
                return None
            return f
        st = Obj("storage", {}, partial=True, methods={n: rec(n) for n in ("save_domain", "create_surface", "save_surface", "save_surface_metadata", "create_block", "save_block", "save_block_metadata")})
        top, bathy = Obj("top", {}, partial=True), Obj("bathy", {}, partial=True)
        m = Obj(run.find(bld.MOD + "Model"), {"storage": st, "top_surface": top, "topo_bathy": bathy}, partial=True)
        env = {"model": m, "top": top, "bathy": bathy, "block": Obj("block", {}, partial=True), "values": Arr(run, [1], lambda i: z3.RealVal(0)), "batch": Obj("batch", {}, partial=True)}
        args = [env[x] for x in sargs if x in ("block", "values", "batch")]
        return dict(func=m.cls.find(method), args=[m] + args, log=log, env=env)

    def post(run, env, ret):
        log = env["log"]
        names = {"save_surface": ["surface", "elevation", "batch"], "save_block": ["block", "data", "batch"], "save_domain": ["domain"], "create_surface": ["surface"], "create_block": ["block"]}[target]
        ok = len(log) == 1 and log[0][0] == target
        if ok:
            p = dict(zip(names, log[0][1]))
            p.update(log[0][2])
            ok = set(p) == set(names) and all(p[n] is env["env"][x] for n, x in zip(names, sargs))
        return [("the storage is called with the same grid, values and batch", bool(ok))]
    return PyTask(bld.MOD + "Model." + method, setup, post, name="Model.%s" % method, lib=LIB)


def update_task(top, bathy):
    def setup(run):
        log = []

        def rec(name):
            def f(run, a, k):
                run.mut()
                log.append((name, a[0] if a else list(k.values())[0]))
            return f
        st = Obj("storage", {}, partial=True, methods={n: rec(n) for n in ("save_domain", "create_surface", "save_surface", "save_surface_metadata", "create_block", "save_block", "save_block_metadata")})
        t, b = Obj("top", {}, partial=True) if top else None, Obj("bathy", {}, partial=True) if bathy else None
        blocks = [Obj("b1", {}, partial=True), Obj("b2", {}, partial=True), Obj("b3", {}, partial=True)]
        m = Obj(run.find(bld.MOD + "Model"), {"storage": st, "top_surface": t, "topo_bathy": b, "blocks": blocks}, partial=True)
        return dict(func=m.cls.find("update_metadata"), args=[m], log=log, want=[("save_domain", m)] + [("save_surface_metadata", x) for x in (t, b) if x] + [("save_block_metadata", x) for x in blocks])

    def post(run, env, ret):
        log, want = env["log"], env["want"]
        ok = len(log) == len(want) and all(any(a == c and b is d for c, d in log) for a, b in want)
        return [("the metadata of the domain, of every surface and of every block are written, and nothing else", bool(ok))]
    return PyTask(bld.MOD + "Model.update_metadata", setup, post, name="Model.update_metadata (%s%s)" % ("top " if top else "", "bathymetry" if bathy else ""), lib=LIB)


def main_task(step, top, bathy, batched):
    """App.main: what is saved for each batch is what the data source gives for the points of that batch"""
    def setup(run):
        log = []

        def note(*e):
            if run.loop is not None:
                run.loop.setdefault("log", []).append(e)
            log.append((run.loop is not None,) + e)

        def surface(name):
            def points(run, a, k):
                p = dict(zip(["batch"], a))
                p.update(k)
                return Opaque("points", "points", truth=True, attrs={"of": (name, p.get("batch"))})
            return Obj(name, {}, partial=True, methods={"get_batches": lambda run, a, k: batches(run, name, a, k), "generate_points": points})

        def batches(run, name, a, k):
            sz = a[0] if a else k.get("batch_size")
            note("batches", name, sz)
            return Seq(iv("num_batches_" + name), lambda i: batch(name, i), "generator")

        def batch(name, i):
            key = (name, term(i).get_id())
            if key not in made:
                made[key] = (Obj("batch", {"of": name}, partial=True), term(i))
            return made[key][0]
        made = {}
        t, b = surface("top_surface") if top else None, surface("topo_bathy") if bathy else None
        blocks = [surface("block0"), surface("block1")]

        def elev(which):
            def f(run, a, k):
                p = a[0] if a else k["points"]
                return Opaque("elevation", "array", truth=True, attrs={"from": (which, p)})
            return f

        def values(run, a, k):
            p = dict(zip(["block", "top_surface", "topo_bathy", "batch"], a))
            p.update(k)
            return Opaque("values", "array", truth=True, attrs={"from": ("values", p.get("block"), p.get("top_surface"), p.get("topo_bathy"), p.get("batch"))})
        src = Obj("datasrc", {}, partial=True, methods={"initialize": lambda run, a, k: note("initialize"), "get_top_surface": elev("top"), "get_topography_bathymetry": elev("bathy"), "get_values": values,
                                                          "get_metadata": lambda run, a, k: {}})

        def saver(name):
            def f(run, a, k):
                p = dict(zip(["elevation", "batch"], a))
                p.update(k)
                note(name, p.get("elevation"), p.get("batch"))
            return f

        def save_block(run, a, k):
            p = dict(zip(["block", "values", "batch"], a))
            p.update(k)
            note("save_block", p.get("block"), p.get("values"), p.get("batch"))
        model = Obj("model", {"top_surface": t, "topo_bathy": b, "blocks": blocks}, partial=True,
                    methods={"save_domain": lambda r, a, k: note("save_domain"), "init_top_surface": lambda r, a, k: note("init_top"), "init_topography_bathymetry": lambda r, a, k: note("init_bathy"),
                             "save_top_surface": saver("save_top"), "save_topography_bathymetry": saver("save_bathy"), "init_block": lambda r, a, k: note("init_block", a[0] if a else k["block"]),
                             "save_block": save_block, "update_metadata": lambda r, a, k: note("update_metadata")})
        cfg = {"geomodelgrids": {"data_source": "some.package.DataSrc", "filename": FILE}, "domain": {}}
        if batched:
            B = iv("batch_size")
            run.assume(B >= 1)
            cfg["domain"]["batch_size"] = Opaque("batch_size", "str", truth=True, attrs={"int": B})
        c = run.find("geomodelgrids.create.apps.create_model:App")
        app = Obj(c, {"config": cfg, "model": None, "show_progress": False}, partial=True)
        run.ghost["model"], run.ghost["src"] = model, src
        flags = {"config_filenames": "a.cfg", step: True}
        return dict(func=c.find("main"), args=[app], kwargs=flags, log=log, t=t, b=b, blocks=blocks, made=made, B=iv("batch_size"))

    def post(run, env, ret):
        log, t, b = env["log"], env["t"], env["b"]
        saves = [e for e in log if e[1].startswith("save_") or e[1].startswith("init_")]
        want_surf = step in ("import_surfaces", "all_steps")
        want_blk = step in ("import_blocks", "all_steps")
        out = []

        def is_batch(o, name):
            return isinstance(o, Obj) and o.cls == "batch" and o.attrs["of"] == name

        def sized(name):
            e = [x for x in log if x[1] == "batches" and x[2] == name]
            return len(set(id(x) for x in e)) >= 1 and all(isz(x[3]) or isint(x[3]) for x in e) and all(simp(term(x[3]) == env["B"]) is True for x in e)
        names = []
        for obj, nm, init, save, src in ((t, "top_surface", "init_top", "save_top", "top"), (b, "topo_bathy", "init_bathy", "save_bathy", "bathy")):
            mine = [e for e in saves if e[1] == save]
            if obj is None or not want_surf:
                out.append(("%s is not written" % nm, not mine and not [e for e in saves if e[1] == init]))
                continue
            ok = bool(mine) and len([e for e in saves if e[1] == init]) == 1 and saves.index([e for e in saves if e[1] == init][0]) < saves.index(mine[0])
            for e in mine:
                inl, _, el, bt = e
                f = getattr(el, "attrs", {}).get("from")
                pts = f and getattr(f[1], "attrs", {}).get("of")
                ok = ok and f and f[0] == src and pts and pts[0] == nm and pts[1] is bt and (inl and is_batch(bt, nm) if batched else (bt is None and not inl))
            out.append(("each batch of %s gets the data of its own points" % nm, bool(ok and (sized(nm) if batched else True))))
        for j, blk in enumerate(env["blocks"]):
            mine = [e for e in saves if e[1] == "save_block" and e[2] is blk]
            inits = [e for e in saves if e[1] == "init_block" and e[2] is blk]
            if not want_blk:
                out.append(("block %d is not written" % j, not mine and not inits))
                continue
            ok = bool(mine) and len(inits) == 1 and saves.index(inits[0]) < saves.index(mine[0])
            for e in mine:
                inl, _, bk, v, bt = e
                f = getattr(v, "attrs", {}).get("from")
                ok = ok and f and f[0] == "values" and f[1] is blk and f[2] is t and f[3] is (b if b is not None else t) and f[4] is bt and (inl and is_batch(bt, "block%d" % j) if batched else (bt is None and not inl))
            out.append(("each batch of block %d gets the values of its own points" % j, bool(ok and (sized("block%d" % j) if batched else True))))
        dom = [e for e in saves if e[1] == "save_domain"]
        out.append(("the domain is written when asked for", (len(dom) == 1) == (step in ("import_domain", "all_steps")) and (not dom or saves[0] is dom[0])))
        upd = [e for e in log if e[1] == "update_metadata"]
        out.append(("the metadata are updated when asked for", (len(upd) == 1) == (step == "update_metadata")))
        ini = [e for e in log if e[1] == "initialize"]
        out.append(("the data source is initialized once before use", len(ini) == (0 if step == "update_metadata" else 1) and (not ini or log.index(ini[0]) == 0)))
        return out

    def c_model(run, a, k):
        return run.ghost["model"]

    def import_module(run, a, k):
        return Obj("module", {"DataSrc": Builtin("DataSrc", lambda run, a, k: run.ghost["src"])}, partial=True)
    lib = dict(LIB, importlib={"import_module": Builtin("import_module", import_module)}, argparse={}, configparser={})
    return PyTask("geomodelgrids.create.apps.create_model:App.main", setup, post, name="App.main (%s%s%s%s)" % (step, ", top" if top else "", ", bathymetry" if bathy else "", ", batches" if batched else ""),
                  contracts={"Model": c_model, "App.initialize": lambda run, a, k: None}, lib=lib)


def tasks():
    out = [save_task(k, b) for k in ("surface", "block") for b in (False, True)]
    out += [load_task(k, b) for k in ("uu", "uv", "vu", "vv") for b in (False, True)]
    out += [save_domain_task()]
    out += [meta_task("surface", k) for k in ("uu", "uv", "vu", "vv")] + [meta_task("block", k) for k in ("uuu", "vvv", "uvu", "vuv")]
    out += [create_task("surface", "uv", s) for s in ("empty", "group", "old")] + [create_task("surface", "vu", "old")]
    out += [create_task("block", "uuu", s) for s in ("empty", "group", "old")] + [create_task("block", "vvv", "old")]
    out += [forward_task("save_domain", "save_domain", ["model"]), forward_task("init_top_surface", "create_surface", ["top"]), forward_task("init_topography_bathymetry", "create_surface", ["bathy"]),
            forward_task("save_top_surface", "save_surface", ["top", "values", "batch"]), forward_task("save_topography_bathymetry", "save_surface", ["bathy", "values", "batch"]),
            forward_task("init_block", "create_block", ["block"]), forward_task("save_block", "save_block", ["block", "values", "batch"])]
    out += [update_task(t, b) for t in (False, True) for b in (False, True)]
    out += [main_task(s, t, b, k) for s in ("import_domain", "import_surfaces", "import_blocks", "update_metadata", "all_steps") for t, b in ((False, False), (True, False), (True, True)) for k in (False, True)]
    return out
