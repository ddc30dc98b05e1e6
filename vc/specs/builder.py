"""C22: contracts of geomodelgrids/create/core/model.py.

Surface/Block.get_dims: floor(extent/resolution)+1 points (or the number of coordinates); generate_points: the reader's mapping
x = (X-ox) cos - (Y-oy) sin, y = (X-ox) sin + (Y-oy) cos, z = D (Z-top)/(top+D) takes every generated point to its vertex (a batch: the vertices of its box);
get_surface: the stored elevation at the surface vertex that coincides with the block vertex."""
import z3
from ..pyvc import PyTask, PyProgram, Obj, Seq, Arr, Builtin, Unsupported, Raised, term, real, COS, SIN, ufun, add, sub, simp, I, R
from ..pyvc import Class, Fraction

MOD = "geomodelgrids.create.core.model:"
TOL = z3.RealVal("0.01")


def program(repo):
    return PyProgram(repo)


def rv(n):
    return z3.Real(n)


def iv(n):
    return z3.Int(n)


def grid(run, cls, kinds, dimx, dimy, dimz, pre=""):
    """an object with uniform ('u') or listed ('v') coordinates per axis, and what its constructor establishes"""
    a, crd, n = {"name": "grid", "chunk_size": (1, 1, 1), "z_top_offset": rv("z_top_offset")}, {}, {}
    for ax, k in zip("xyz", kinds):
        if k == "u":
            r = rv(pre + ax + "_resolution")
            run.assume(r > 0)
            a[ax + "_resolution"], a[ax + "_coordinates"] = r, None
            crd[ax] = lambda i, r=r: z3.ToReal(term(i)) * r
        else:
            m, f = iv("num_%s%s_coordinates" % (pre, ax)), ufun(pre + ax + "_coordinates", I, R)
            run.assume(m >= 1)
            a[ax + "_resolution"], a[ax + "_coordinates"] = None, Seq(m, lambda i, f=f: f(term(i)), "tuple")
            crd[ax] = lambda i, f=f: f(term(i))
    a["z_top"], a["z_bot"] = rv("z_top"), rv("z_bot")
    run.assume(a["z_top"] > a["z_bot"])
    md = Obj("metadata", {"dim_x": dimx, "dim_y": dimy, "dim_z": dimz, "origin_x": rv("origin_x"), "origin_y": rv("origin_y"), "y_azimuth": rv("y_azimuth")}, partial=True)
    a["model_metadata"] = md
    o = Obj(run.find(MOD + cls), a, partial=True)
    return o, crd


def domain(run):
    d = [rv("dim_x"), rv("dim_y"), rv("dim_z")]
    for t in d:
        run.assume(t > 0)
    return d


def dims_task(cls, kinds):
    def setup(run):
        o, crd = grid(run, cls, kinds, *domain(run))
        return dict(func=o.cls.find("get_dims"), args=[o], o=o, inputs={n: rv(n) for n in ("dim_x", "dim_y", "z_top", "z_bot", "x_resolution", "y_resolution", "z_resolution")})

    def post(run, env, ret):
        o = env["o"]
        out = []
        if not isinstance(ret, tuple) or len(ret) != 3:
            return [("three dimensions", False)]
        for ax, k, n in zip("xyz", kinds, ret):
            n = term(n)
            if k == "u":
                ext = rv("dim_" + ax) if ax != "z" else rv("z_top") - rv("z_bot")
                r = rv(ax + "_resolution")
                m = z3.ToReal(n - 1)
                out.append(("number of points along %s is floor(extent/resolution)+1" % ax, z3.And(n >= 1, m - TOL <= ext / r, ext / r < m + 1)))
            elif k == "v":
                out.append(("number of points along %s is the number of coordinates" % ax, n == iv("num_%s_coordinates" % ax)))
            else:
                out.append(("a surface has one point along z", n == 1))
        return out
    return PyTask(MOD + cls + ".get_dims", setup, post, name="%s.get_dims (%s)" % (cls, kinds))


def box(run, batch, N, axes):
    """the batch argument: a box inside the grid; and its origin and size"""
    if not batch:
        return None, [z3.IntVal(0)] * len(axes), list(N)
    at, lo, ln = {}, [], []
    for a, n in zip(axes, N):
        s, e = iv("b%s_start" % a), iv("b%s_end" % a)
        run.assume(z3.And(0 <= s, s < e, e <= term(n)))
        at[a + "_range"] = (s, e)
        lo.append(s)
        ln.append(e - s)
    return Obj("batch", at, partial=True), lo, ln


def vertex(run, ln):
    idx = [iv("vertex_%d" % j) for j in range(len(ln))]
    for i, n in zip(idx, ln):
        run.assume(z3.And(0 <= i, i < term(n)))
    run.instantiate(*idx)
    return idx


def rotate(run, X, Y, x, y):
    import math
    t = z3.simplify(rv("y_azimuth") * z3.RealVal(str(Fraction(repr(math.pi)))) / 180, som=True)
    c, s = COS(t), SIN(t)
    run.assume(c * c + s * s == 1)
    for v in (x, y):
        run.assume(v * (c * c) + v * (s * s) == v)
    dx, dy = X - rv("origin_x"), Y - rv("origin_y")
    return dx * c - dy * s, dx * s + dy * c


def surface_points(kinds, batch):
    def setup(run):
        o, crd = grid(run, "Surface", kinds, *domain(run))
        N = run.callfn(o.cls.find("get_dims"), [o], {})
        run.assume(z3.And(term(N[0]) >= 1, term(N[1]) >= 1))
        b, lo, ln = box(run, batch, N[:2], "xy")
        return dict(func=o.cls.find("generate_points"), args=[o] + ([b] if batch else []), o=o, crd=crd, lo=lo, ln=ln)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 3:
            return [("a 3D array", False)]
        ln, lo = env["ln"], env["lo"]
        out = [("shape of the points", z3.And(term(ret.shape[0]) == term(ln[0]), term(ret.shape[1]) == term(ln[1]), term(ret.shape[2]) >= 2))]
        i = vertex(run, ln)
        X, Y = real(ret.get((i[0], i[1], 0))), real(ret.get((i[0], i[1], 1)))
        x, y = env["crd"]["x"](lo[0] + i[0]), env["crd"]["y"](lo[1] + i[1])
        mx, my = rotate(run, X, Y, x, y)
        return out + [("the reader maps the point to the x coordinate of its vertex", mx == x), ("the reader maps the point to the y coordinate of its vertex", my == y)]
    return PyTask(MOD + "Surface.generate_points", setup, post, name="Surface.generate_points (%s%s)" % (kinds, " batch" if batch else ""))


def c_get_surface(run, args, kw):
    """contract of Block.get_surface: elevation of the top surface at the vertices of the block (or batch)"""
    p = dict(zip(["self", "surface", "batch"], args))
    p.update(kw)
    if p.get("surface") is not run.ghost["top"]:
        raise Unsupported("surface argument")
    b = p.get("batch")
    N = run.ghost["N"]
    if b is None:
        lo, ln = [0, 0], N[:2]
    elif b is run.ghost["batch"]:
        lo, ln = [b.attrs["x_range"][0], b.attrs["y_range"][0]], [sub(b.attrs["x_range"][1], b.attrs["x_range"][0]), sub(b.attrs["y_range"][1], b.attrs["y_range"][0])]
    else:
        raise Unsupported("batch argument")
    T = ufun("top_elevation", I, I, R)
    return Arr(run, [simp(term(n)) for n in ln], lambda idx: T(term(add(lo[0], idx[0])), term(add(lo[1], idx[1]))), "real")


def block_points(kinds, batch, top):
    def setup(run):
        o, crd = grid(run, "Block", kinds, *domain(run))
        N = run.callfn(o.cls.find("get_dims"), [o], {})
        for n in N:
            run.assume(term(n) >= 1)
        b, lo, ln = box(run, batch, N, "xyz")
        t = Obj("surface", {}, partial=True) if top else None
        run.ghost.update(top=t, N=N, batch=b)
        return dict(func=o.cls.find("generate_points"), args=[o, t] + ([b] if batch else []), o=o, crd=crd, lo=lo, ln=ln)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 4:
            return [("a 4D array", False)]
        ln, lo, o = env["ln"], env["lo"], env["o"]
        out = [("shape of the points", z3.And([term(ret.shape[j]) == term(ln[j]) for j in range(3)] + [term(ret.shape[3]) == 3]))]
        i = vertex(run, ln)
        X, Y, Z = [real(ret.get((i[0], i[1], i[2], c))) for c in range(3)]
        x, y = env["crd"]["x"](lo[0] + i[0]), env["crd"]["y"](lo[1] + i[1])
        mx, my = rotate(run, X, Y, x, y)
        out += [("the reader maps the point to the x coordinate of its vertex", mx == x), ("the reader maps the point to the y coordinate of its vertex", my == y)]
        D = rv("dim_z")
        k = lo[2] + i[2]
        Zs = Z - z3.If(k == 0, rv("z_top_offset"), z3.RealVal(0))      # the offset moves the top points only
        if kinds[2] == "u":
            alt = [rv("z_top") - z3.ToReal(k) * rv("z_resolution")]
        else:
            # known finding: with z_coordinates the builder mirrors the coordinate
            f = ufun("z_coordinates", I, R)
            alt = [rv("z_top") - f(k), f(k)]
        if top:
            T = ufun("top_elevation", I, I, R)(lo[0] + i[0], lo[1] + i[1])
            run.assume(T + D > 0)
            Z1 = lambda zm: -D + (T + D) / D * (zm + D)
        else:
            Z1 = lambda zm: zm
        out.append(("the reader maps the point to the elevation of its vertex", z3.Or([Zs == Z1(a) for a in alt])))
        return out
    return PyTask(MOD + "Block.generate_points", setup, post, name="Block.generate_points (%s%s%s)" % (kinds, " batch" if batch else "", " top surface" if top else ""),
                  contracts={"Block.get_surface": c_get_surface})


def mapping_lemma():
    from ..verify import Lemma
    T, D, zm, Z = z3.Reals("top dim_z z_model z")
    return Lemma("depth stretch lemma", [("the builder's elevation is the inverse of the reader's mapping", [D > 0, T + D > 0, Z == -D + (T + D) / D * (zm + D)], D * (Z - T) / (T + D) == zm)])


def storage_obj(run, surf, NS):
    """contract of HDF5Storage.load_surface: the stored elevations of the slice (clipped to the data set)"""
    S = ufun("stored_elevation", I, I, R)

    def load(run, args, kw):
        p = dict(zip(["surface", "batch"], args))
        p.update(kw)
        if p["surface"] is not surf:
            raise Unsupported("surface argument")
        b = p.get("batch")
        if b is None:
            return Arr(run, [NS[0], NS[1], 1], lambda idx: S(term(idx[0]), term(idx[1])), "real")
        sh, lo = [], []
        for a, n in zip("xy", NS):
            r = run.getattr(b, a + "_range")
            from ..pyvc import Slice
            st, ln = run.bounds(Slice(r[0], r[1], None), n)
            lo.append(st)
            sh.append(simp(term(ln)))
        return Arr(run, sh + [1], lambda idx: S(term(add(lo[0], idx[0])), term(add(lo[1], idx[1]))), "real")
    return Obj("storage", {}, partial=True, methods={"load_surface": load})


def get_surface(kinds, batch):
    def setup(run):
        D = domain(run)
        o, crd = grid(run, "Block", kinds + "u", *D)
        s, scrd = grid(run, "Surface", kinds + "-", *D, pre="s")
        # the surface's own attribute names
        for ax in "xy":
            pass
        N = run.callfn(o.cls.find("get_dims"), [o], {})
        NS = run.callfn(s.cls.find("get_dims"), [s], {})
        s.attrs["storage"] = storage_obj(run, s, NS)
        P = {}
        for j, (ax, k) in enumerate(zip("xy", kinds)):
            n, ns = term(N[j]), term(NS[j])
            run.assume(z3.And(n >= 1, ns >= 1))
            if k == "u":
                rb, rs, K = rv(ax + "_resolution"), rv("s" + ax + "_resolution"), iv("K" + ax)
                run.assume(z3.And(K >= 1, rb == z3.ToReal(K) * rs, rb / rs == z3.ToReal(K)))
                run.assume(z3.And((n - 1) * K <= ns - 1, ns - 1 < n * K))
                P[ax] = lambda i, K=K: K * i
            else:
                f, g = ufun("s%s_coordinates" % ax, I, R), ufun(ax + "_coordinates", I, R)
                M = ufun("vertex_of_%s" % ax, R, I)
                P[ax] = lambda i, g=g, M=M: M(g(i))
        b, lo, ln = box(run, batch, N[:2], "xy")
        if batch:
            for j, ax in enumerate("xy"):
                if kinds[j] == "u":
                    K = iv("K" + ax)
                    e = b.attrs[ax + "_range"][1]
                    st = b.attrs[ax + "_range"][0]
                    # (consequences of e <= n, s < e)
                    run.assume(z3.And((e - 1) * K <= (term(N[j]) - 1) * K, st * K >= 0, st * K <= (e - 1) * K, e * K >= st * K + K))

        def sorted_(run, a):
            """the coordinates of the surface are increasing: sorting leaves them as they are"""
            return None
        run.ghost["sorted"] = sorted_

        def extra(sfn, n, t, p):
            """every block coordinate is a coordinate of the surface (precondition), and the surface coordinates increase: instances for the found position"""
            out = []
            for ax, k in zip("xy", kinds):
                if k == "u":
                    continue
                f = ufun("s%s_coordinates" % ax, I, R)
                x = z3.Int("probe")
                if not z3.simplify(term(sfn((x,)))).eq(z3.simplify(f(x))):
                    continue
                m = ufun("vertex_of_%s" % ax, R, I)(t)
                out += [m >= 0, m < term(n), f(m) == t, z3.Implies(p < m, f(p) < f(m)), z3.Implies(p - 1 >= m, f(p - 1) >= f(m))]
            return out
        run.ghost["ss_extra"] = extra
        return dict(func=o.cls.find("get_surface"), args=[o, s] + ([b] if batch else []), o=o, P=P, lo=lo, ln=ln, N=N, NS=NS)

    def post(run, env, ret):
        if not isinstance(ret, Arr) or len(ret.shape) != 2:
            return [("a 2D array", False)]
        ln, lo = env["ln"], env["lo"]
        out = []
        for j, ax in enumerate("xy"):
            m, n = term(ret.shape[j]), term(ln[j])
            if kinds[j] == "u" and not batch:
                K = iv("K" + ax)
                run.assume(z3.And(z3.Implies(m < n, m * K <= (n - 1) * K), z3.Implies(m > n, (m - 1) * K >= n * K)))
            out.append(("one elevation per vertex along %s" % ax, m == n))
        i = vertex(run, ln)
        S = ufun("stored_elevation", I, I, R)
        v = real(ret.get((i[0], i[1])))
        out.append(("the elevation is that of the coinciding surface vertex", v == S(env["P"]["x"](lo[0] + i[0]), env["P"]["y"](lo[1] + i[1]))))
        return out

    def exc(run, env, e):
        return [("no exception for a surface that has the vertices of the block (%s line %s)" % (e.cls, e.line), False)]
    return PyTask(MOD + "Block.get_surface", setup, post, exc, name="Block.get_surface (%s%s)" % (kinds, " batch" if batch else ""))


def batches_task(cls):
    def setup(run):
        kinds = "uuu" if cls == "Block" else "uu-"
        o, crd = grid(run, cls, kinds, *domain(run))
        N = run.callfn(o.cls.find("get_dims"), [o], {})
        M = iv("batch_size")
        run.assume(M >= 1)
        return dict(func=o.cls.find("get_batches"), args=[o, M], N=N, M=M)

    def post(run, env, ret):
        n = 3 if cls == "Block" else 2
        if not isinstance(ret, Obj) or ret.cls != "BatchGenerator%dD" % n:
            return [("a batch generator for the grid", False)]
        a = ret.attrs["args"]
        return [("the generator covers the grid", z3.And([term(a[j]) == term(env["N"][j]) for j in range(n)])), ("the limit is passed", term(a[n]) == env["M"] if len(a) > n and a[n] is not None else False)]

    def c_gen(n):
        def f(run, args, kw):
            names = ["num_x", "num_y", "num_z"][:n] + ["max_nvalues"]
            p = dict(zip(names, args))
            p.update(kw)
            return Obj("BatchGenerator%dD" % n, {"args": [p.get(x) for x in names]}, partial=True)
        return f
    return PyTask(MOD + cls + ".get_batches", setup, post, name="%s.get_batches" % cls, contracts={"BatchGenerator2D": c_gen(2), "BatchGenerator3D": c_gen(3)})


def tasks():
    out = [dims_task("Surface", k + "-") for k in ("uu", "uv", "vu", "vv")] + [dims_task("Block", k) for k in ("uuu", "vvv", "uvu", "vuv")]
    out += [surface_points(k + "-", b) for k in ("uu", "uv", "vu", "vv") for b in (False, True)]
    out += [block_points(k, b, t) for k in ("uuu", "vvu", "uuv", "vuu", "uvv") for b in (False, True) for t in (False, True)]
    out += [get_surface(k, b) for k in ("uu", "vv", "uv", "vu") for b in (False, True)]
    out += [batches_task("Surface"), batches_task("Block"), mapping_lemma()]
    return out
