"""C21: contracts of geomodelgrids/create/utils/batch.py.

Invariant of a generator for num_a points along axis a: 1 <= bnum_a and nbatch_a = ceil(num_a / bnum_a); the next batch is
(ix, iy[, iz]) in lexicographic order; StopIteration exactly when all of them were given.  Lemma: then every point of the grid is in exactly one batch and every
batch is inside the grid."""
import z3
from ..pyvc import PyTask, Obj, Poison, term, PyProgram, Unsupported
from ..verify import Lemma

MOD = "geomodelgrids.create.utils.batch:"


def program(repo):
    return PyProgram(repo)


def fields(o, names):
    out = []
    for n in names:
        v = o.attrs.get(n)
        if v is None or isinstance(v, Poison):
            raise Unsupported("field %s is gone" % n)
        out.append(v)
    return out


def init_task(dim, limited):
    ax = "xyz"[:dim]
    cls = "BatchGenerator%dD" % dim

    def setup(run):
        N = [z3.Int("num_" + a) for a in ax]
        for n in N:
            run.assume(n >= 1)
        M = z3.Int("max_nvalues") if limited else None
        if limited:
            run.assume(M >= 1)
        c = run.find(MOD + cls)
        o = Obj(c)
        inp = {"num_" + a: n for a, n in zip(ax, N)}
        if limited:
            inp["max_nvalues"] = M
        return dict(func=c.find("__init__"), args=[o] + N + ([M] if limited else []), o=o, N=N, M=M, inputs=inp)

    def post(run, env, ret):
        o, N = env["o"], env["N"]
        b = fields(o, ["bnum_" + a for a in ax])
        k = fields(o, ["nbatch_" + a for a in ax])
        num = fields(o, ["num_" + a for a in ax])
        pos = fields(o, ["i" + a for a in ax])
        out = []
        for a, n, bb, kk, nn in zip(ax, N, b, k, num):
            n, bb, kk, nn = term(n), term(bb), term(kk), term(nn)
            out.append(("batch size along %s is at least 1" % a, bb >= 1))
            out.append(("number of batches along %s covers the axis" % a, z3.And(kk >= 1, (kk - 1) * bb < n, n <= kk * bb)))
            out.append(("number of points along %s" % a, nn == n))
        out.append(("the first batch is next", z3.And([term(p) == 0 for p in pos])))
        return out
    return PyTask(MOD + cls + ".__init__", setup, post, name="%s.__init__ (%s)" % (cls, "with a limit" if limited else "no limit"))


def next_task(dim):
    ax = "xyz"[:dim]
    cls = "BatchGenerator%dD" % dim
    keep = set(["bnum_", "nbatch_", "num_", "i"])

    def setup(run):
        c = run.find(MOD + cls)
        o = Obj(c)
        # the fields the constructor sets; those the invariant does not speak about are poisoned
        run.callfn(c.find("__init__"), [o] + [2] * dim, {})
        for n in list(o.attrs):
            o.attrs[n] = Poison("field %s has no contract" % n)
        S = {}
        for a in ax:
            n, b, k, i = z3.Ints("num_%s bnum_%s nbatch_%s i%s" % (a, a, a, a))
            for nm, t in (("num_", n), ("bnum_", b), ("nbatch_", k), ("i", i)):
                if nm + a not in o.attrs:
                    raise Unsupported("field %s is gone" % (nm + a))
                o.attrs[nm + a] = t
            run.assume(z3.And(n >= 1, b >= 1, k >= 1, (k - 1) * b < n, n <= k * b, i >= 0))
            S[a] = (n, b, k, i)
        # lexicographic state: inside the grid, or at the end
        run.assume(z3.Or(z3.And([S[a][3] < S[a][2] for a in ax]), z3.And([S["x"][3] == S["x"][2]] + [S[a][3] == 0 for a in ax[1:]])))
        return dict(func=c.find("__next__"), args=[o], o=o, S=S, inputs={x.decl().name(): x for s in S.values() for x in s})

    def post(run, env, ret):
        o, S = env["o"], env["S"]
        out = [("a batch is returned", ret is o), ("only while batches remain", S["x"][3] < S["x"][2])]
        for a in ax:
            n, b, k, i = S[a]
            r = fields(o, [a + "_range"])[0]
            if not isinstance(r, (tuple, list)) or len(r) != 2:
                out.append(("range along %s" % a, False))
                continue
            lo, hi = term(r[0]), term(r[1])
            out.append(("%s range is batch i%s" % (a, a), z3.And(lo == i * b, hi == z3.If(i == k - 1, n, (i + 1) * b))))
        new = [term(v) for v in fields(o, ["i" + a for a in ax])]
        old = [S[a][3] for a in ax]
        K = [S[a][2] for a in ax]
        # successor in lexicographic order
        exp = []
        for j, a in enumerate(ax):
            roll = z3.And([old[q] == K[q] - 1 for q in range(j + 1, len(ax))]) if j + 1 < len(ax) else z3.BoolVal(True)
            nxt = old[j] + 1
            exp.append(z3.If(roll, nxt if j == 0 else z3.If(nxt == K[j], z3.IntVal(0), nxt), old[j]))
        out.append(("next state is the lexicographic successor", z3.And([n == e for n, e in zip(new, exp)])))
        for f in ("bnum_", "nbatch_", "num_"):
            vs = fields(o, [f + a for a in ax])
            out.append(("%s is unchanged" % f.rstrip("_"), z3.And([term(v) == z3.Int(f + a) for v, a in zip(vs, ax)])))
        return out

    def exc(run, env, e):
        S = env["S"]
        if e.cls == "StopIteration":
            return [("StopIteration only after the last batch", S["x"][3] >= S["x"][2])]
        return [("no exception escapes (%s line %s)" % (e.cls, e.line), False)]
    return PyTask(MOD + cls + ".__next__", setup, post, exc, name="%s.__next__" % cls)


def iter_task(dim):
    cls = "BatchGenerator%dD" % dim

    def setup(run):
        c = run.find(MOD + cls)
        o = Obj(c, {}, partial=True)
        return dict(func=c.find("__iter__"), args=[o], o=o)

    def post(run, env, ret):
        return [("iteration is over the generator itself", ret is env["o"])]
    return PyTask(MOD + cls + ".__iter__", setup, post, name="%s.__iter__" % cls)


def lemmas():
    p, n, b, k, i, j = z3.Ints("p n b k i j")
    pre = [n >= 1, b >= 1, k >= 1, (k - 1) * b < n, n <= k * b]
    lo = lambda i: i * b
    hi = lambda i: z3.If(i == k - 1, n, (i + 1) * b)
    inb = lambda p, i: z3.And(lo(i) <= p, p < hi(i))
    q, r = z3.Ints("q r")
    items = [("every point of the axis is in some batch", pre + [p >= 0, p < n, p == q * b + r, r >= 0, r < b], z3.And(q >= 0, q < k, inb(p, q))),
             ("a point is in no two batches", pre + [p >= 0, p < n, i >= 0, i < k, j >= 0, j < k, i < j, (i + 1) * b <= j * b], z3.Not(z3.And(inb(p, i), inb(p, j)))),
             ("order of batches", pre + [i >= 0, i < j], (i + 1) * b <= j * b),
             ("batches are not empty and stay inside the axis", pre + [i >= 0, i < k, (i + 1) * b <= (k - 1) * b + z3.If(i == k - 1, b, z3.IntVal(0))], z3.And(0 <= lo(i), lo(i) < hi(i), hi(i) <= n)),
             ("batches before the last one", pre + [i >= 0, i <= k - 2], (i + 1) * b <= (k - 1) * b),
             ]
    x, r_ = z3.Reals("x r_")
    roots = []
    for e, nm in ((2, "square"), (3, "cube")):
        pw = r_ * r_ if e == 2 else r_ * r_ * r_
        roots += [("%s root of x >= 1" % nm, [r_ >= 0, pw == x, x >= 1], z3.And(r_ >= 1, r_ <= x)),
                  ("%s root of x >= 2" % nm, [r_ >= 0, pw == x, x >= 2], r_ <= x - z3.RealVal("0.5")),
                  ("%s root of x < 2" % nm, [r_ >= 0, pw == x, x < 2], r_ < z3.RealVal("1.5"))]
    return [Lemma("tiling lemma", items), Lemma("roots", roots)]


def tasks():
    return [init_task(2, True), init_task(2, False), init_task(3, True), init_task(3, False), next_task(2), next_task(3), iter_task(2), iter_task(3)] + lemmas()
