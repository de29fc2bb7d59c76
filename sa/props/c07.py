"""Arrays of the caller, and of trained objects, are never modified or handed
out, unless in-place operation was requested."""
from ..check import S, Fail
from .. import terms as tm
from ..terms import const, sym, NONE, TRUE, FALSE, T
from ..values import (Ref, Tup, Phi, Arr, Lst, Dct, PyFn, ClassVal, Func,
                      SetO, Bound)
from . import common, models, ops, c04, c20
from .alias import reach

R, RO, RI = "no-argument-modified", "no-internals-handed-out", "inplace"
TRAIN = {"fit", "fit_transform", "fit_compress", "refit", "set_entries",
         "set_dimension", "reset"}


def arrays_in(st, v, path=""):
    """{root address: path} of the arrays a returned value consists of
    (objects it contains are not entered)"""
    out, todo, seen = {}, [(v, path)], set()
    while todo:
        x, p = todo.pop()
        if isinstance(x, Phi):
            todo += [(x.a, p), (x.b, p)]
        elif isinstance(x, Tup):
            todo += [(y, "%s[%d]" % (p, i)) for i, y in enumerate(x.items)]
        elif isinstance(x, Ref) and x.addr not in seen:
            seen.add(x.addr)
            o = st.get(x)
            if isinstance(o, Arr):
                out.setdefault(st.eng.root(st, x), p)
            elif isinstance(o, Lst):
                todo += [(y, "%s[%d]" % (p, i)) for i, y in
                         enumerate(o.items)]
            elif isinstance(o, Dct):
                todo += [(y, "%s[%s]" % (p, k[1])) for k, (_, y) in
                         o.items.items()]
    return out


def snapshot(s, args):
    """contents of every array, and the items of the caller's containers"""
    st = s.st
    arrs = {a: o.content for a, o in st.heap.items()
            if isinstance(o, Arr) and o.base is None}
    boxes = {}
    for x in args:
        for a in reach(st, x):
            o = st.get(a)
            if isinstance(o, Lst):
                boxes[a] = tuple(o.items)
            elif isinstance(o, Dct):
                boxes[a] = tuple(o.items.items())
    return arrs, boxes


class Guard(S):
    """Watches every public call."""

    def __init__(self, ctx, st=None):
        S.__init__(self, ctx, st)
        self.owned, self.off = set(), False

    def fork(self):
        g = Guard(self.ctx, self.st.fork())
        g.rule, g.owned, g.off = self.rule, set(self.owned), self.off
        return g

    def _own(self, v):
        self.owned |= set(arrays_in(self.st, v))
        return v

    def arr(self, *a):
        return self._own(S.arr(self, *a))

    def iarr(self, *a):
        return self._own(S.iarr(self, *a))

    def arrt(self, *a):
        return self._own(S.arrt(self, *a))

    def new_dia(self, *a):
        return self._own(S.new_dia(self, *a))

    def get(self, obj, name):
        off, self.off = self.off, True
        try:
            return S.get(self, obj, name)
        finally:
            self.off = off

    def outcome(self, obj, name, *args, **kw):
        a = [self.val(x) for x in args]
        k = {n: self.val(x) for n, x in kw.items()}
        return self.watch(lambda: S.outcome(self, obj, name, *a, **k), obj,
                          name, a + list(k.values()),
                          lambda: self.where(obj, name),
                          k.get("inplace") is TRUE)

    def run(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.cls(f)
        if isinstance(f, PyFn) or not isinstance(f, (ClassVal, Func, Bound)):
            return S.run(self, f, *args, **kw)
        a = [self.val(x) for x in args]
        k = {n: self.val(x) for n, x in kw.items()}
        return self.watch(lambda: S.run(self, f, *a, **k), None,
                          getattr(f, "name", "") or "call",
                          a + list(k.values()),
                          lambda: self.ctx.locate(f))

    def watch(self, go, obj, name, args, where, inplace=False):
        ctx = self.ctx
        if self.off:
            return go()
        arrs, boxes = snapshot(self, args)
        given = {}
        for i, x in enumerate(args):
            for a in reach(self.st, x):
                given.setdefault(a, i)
        o = go()
        if o.dead:
            return o
        st, w = self.st, where()
        inner = reach(st, obj) if obj is not None else {}
        train = name in TRAIN or obj is None
        what = None
        for a, c in arrs.items():
            n = st.heap.get(a)
            if not isinstance(n, Arr) or n.content is c:
                continue
            if self.settle(c, n.content):
                continue
            if inplace and a in given:
                continue
            if a in given:
                what = "argument %d is modified in place" % given[a]
            elif a in inner and not train:
                what = "the object's own array %s is modified" % inner[a][0]
            elif a in self.owned:
                what = "an array the caller holds (%s) is modified" % (
                    inner[a][0] if a in inner else "passed earlier")
            else:
                continue
            break
        if what is None:
            for a, c in boxes.items():
                n = st.heap.get(a)
                now = tuple(n.items) if isinstance(n, Lst) else \
                    tuple(n.items.items()) if isinstance(n, Dct) else c
                if now != c:
                    what = "a container passed as argument is modified"
                    break
        if what is not None:
            ctx.bad(R, w, "%s(): %s" % (name, what))
        else:
            ctx.ok(R, w)
        if obj is not None and not o.dead and isinstance(
                o.value, (Ref, Tup, Phi)):
            got = arrays_in(st, o.value)
            hit = [(a, p) for a, p in got.items() if a in inner
                   and a not in given]
            if hit:
                ctx.bad(RO, w, "%s() returns%s the object's own array %s" % (
                    name, hit[0][1] and " (at %s)" % hit[0][1],
                    inner[hit[0][0]][0]))
            else:
                ctx.ok(RO, w)
            self.owned |= set(got)
        return o

    def settle(self, c, n):
        """the content is as before (decided by random interpretation)"""
        from .. import rand
        return rand.compare(n, c).verdict == "eq"


class Watched:
    def __init__(self, ctx, label):
        self.case = ctx.case(label, R)
        self.ctx = ctx

    def __enter__(self):
        self.case.__enter__()
        s = Guard(self.ctx)
        s.rule = R
        return s

    def __exit__(self, *a):
        return self.case.__exit__(*a)


def probe(g, fam, o, more=()):
    for label, fn in list(fam.probes) + list(more):
        if label.startswith(".") or label == "str()":
            continue
        z = g.fork()
        r = common.attempt(z, lambda q: fn(q, o))
        if r[0] == "undec":
            g.ctx.undec(R, fam.cls, "%s: %s" % (label, r[1]))


def check(ctx):
    transforms(ctx)
    compressions(ctx)
    for fam in common.solvers(ctx):
        with Watched(ctx, fam.label) as g:
            o = fam.build(g)
            fam.fit(g, o)
            probe(g, fam, o)
            # one query does not disturb another
            for _, fn in fam.probes:
                common.attempt(g, lambda q: fn(q, o))
            g.call(o, "copy")
    operators(ctx)
    model(ctx)
    functions(ctx)
    reduced(ctx)


# ------------------------------------------------------------ transformers
def transforms(ctx):
    k = "k"
    for fam in common.transformers(ctx) + common.composites(ctx):
        w = fam.where(ctx, "transform")
        with Watched(ctx, fam.label) as g:
            o = fam.build(g)
            fam.fit(g, o)
            probe(g, fam, o)
            n = g.get(o, "state_dimension")
            if not isinstance(n, T):
                n = g.term(n)
            if n is NONE:
                n = g.dim("n")
            for name in ("transform", "inverse_transform", "transform_ddts",
                         "fit_transform"):
                w = fam.where(ctx, name)
                a = g.fork()
                x = a.arr("P", n, a.dim(k))
                try:
                    want = a.call(o, name, x, inplace=False)
                except Fail as ex:
                    ctx.undec(RI, w, "%s: %s" % (name, ex))
                    continue
                if set(arrays_in(a.st, want)) & {a.eng.root(a.st, x)}:
                    ctx.bad(RI, w, "%s() returns the caller's array although "
                            "inplace is off" % name)
                    continue
                want = a.term(want)
                b = g.fork()
                x = b.arr("P", n, b.dim(k))
                try:
                    y = b.call(o, name, x, inplace=True)
                except Fail as ex:
                    ctx.bad(RI, w, "%s(inplace=True): %s" % (name, ex))
                    continue
                b.same(RI, w, y, want, note="%s(inplace=True) returns" % name)
                b.same(RI, w, x, want, note="the array passed to "
                       "%s(inplace=True) becomes" % name)
                if not set(arrays_in(b.st, y)) == {b.eng.root(b.st, x)}:
                    ctx.bad(RI, w, "%s(inplace=True) does not return the "
                            "array it was given" % name)
                else:
                    ctx.ok(RI, w)


def compressions(ctx):
    for fam in common.bases(ctx) + common.basis_composites(ctx):
        with Watched(ctx, fam.label) as g:
            o = fam.build(g)
            if fam.fit is not None:
                fam.fit(g, o)
            n = g.term(g.get(o, "full_state_dimension"))

            def x(s):
                return s.arr("P", n, s.dim("k"))
            probe(g, fam, o, [
                ("projection_error", lambda s, o: s.call(
                    o, "projection_error", x(s))),
                ("projection_error (absolute)", lambda s, o: s.call(
                    o, "projection_error", x(s), relative=False)),
                ("copy", lambda s, o: s.call(o, "copy"))])
            if fam.fit is not None and g.has(o, "fit_compress"):
                b = g.fork()
                b.call(o, "fit_compress", x(b))


# ------------------------------------------------------------ operators
def operators(ctx):
    for fam in c04.nonparam_fams(ctx):
        with Watched(ctx, fam.label) as g:
            o = fam.build(g)
            probe(g, fam, o, [("copy", lambda s, o: s.call(o, "copy"))])
            gal(g, o)
    for fam in c04.param_op_fams(ctx):
        with Watched(ctx, fam.label) as g:
            o = fam.build(g)
            probe(g, fam, o, [("copy", lambda s, o: s.call(o, "copy"))])
            gal(g, o)
    for cls in ops.NONPARAM:
        for r, m in ops.sizes(cls[0])[:3]:
            with Watched(ctx, "%s.datablock(), r=%s m=%s" % (
                    cls[0], r, m)) as g:
                o = ops.build(g, cls[0], r, m)
                g.call(o, "datablock", g.arr("Q", ops.D(g, r), g.dim("k")),
                       g.arr("U", m or 1, g.dim("k")))


def gal(g, o):
    z = g.fork()
    r = z.get(o, "state_dimension")
    r = z.term(r)
    V = z.arr("V", r, const(1))
    W = z.arr("W", r, const(1))
    if z.has(o, "galerkin"):
        for x in (W, None):
            a = common.attempt(z.fork(), lambda q: (q.call(
                o, "galerkin", V, x), NONE)[1])
            if a[0] == "undec":
                z.ctx.undec(R, "galerkin", str(a[1]))


# ------------------------------------------------------------ models
def model(ctx):
    for fam in models.mono_fams(ctx) + models.param_fams(ctx):
        for h in ("as built", "fitted"):
            if h == "fitted" and fam.fit is None:
                continue
            with Watched(ctx, "%s, %s" % (fam.label, h)) as g:
                o = fam.build(g)
                if h == "fitted":
                    fam.fit(g, o)
                    z = g.fork()
                    if z.has(o, "refit"):
                        z.call(o, "refit")
                probe(g, fam, o, [("copy", lambda s, o: s.call(o, "copy"))])


# ------------------------------------------------------------ functions
def tried(g, what, fn):
    r = common.attempt(g.fork(), lambda q: (fn(q), NONE)[1])
    if r[0] == "undec":
        g.ctx.undec(R, what, str(r[1]))


def functions(ctx):
    """Public functions, lifting maps and derivative estimators."""
    n, r = "n", 2

    def A(s, name, *shape):
        return s.arr(name, *[s.dim(d) if isinstance(d, str) else d
                             for d in shape])

    def fn(g, name, *args, **kw):
        with_args = [a for a in args]
        f = g.eng.lookup("opinf." + name)
        tried(g, name, lambda q: q.new(f, *with_args, **kw))

    with Watched(ctx, "post") as g:
        for d in ((n, "k"), (n,)):
            a, b = A(g, "P", *d), A(g, "Q", *d)
            k = d[-1]
            if len(d) == 2:
                fn(g, "post.frobenius_error", a, b)
                fn(g, "post.projection_error", a, A(g, "V", n, r))
            for norm in (False, True):
                fn(g, "post.lp_error", a, b, normalize=norm)
            fn(g, "post.lp_error", a, b, p=1)
            fn(g, "post.Lp_error", a, b, A(g, "t", k))
            fn(g, "post.Lp_error", a, b, A(g, "t", k), p=1)
    with Watched(ctx, "pre functions") as g:
        a, b = A(g, "P", n, "k"), A(g, "Q", n, "k")
        fn(g, "pre.shift", a)
        fn(g, "pre.shift", a, A(g, "v", n))
        fn(g, "pre.scale", a, (0, 1))
        fn(g, "pre.scale", a, (0, 1), (2, 3))
    with Watched(ctx, "basis functions") as g:
        a = A(g, "P", n, "k")
        for x in ("basis.pod_basis", "basis.method_of_snapshots"):
            fn(g, x, a)
            fn(g, x, a, num_vectors=2) if "pod" in x else None
        v = A(g, "s", 4)
        for x, kw in (("svdval_decay", {"threshold": 1e-8}),
                      ("cumulative_energy", {"threshold": .9}),
                      ("residual_energy", {"threshold": 1e-3})):
            fn(g, "basis." + x, v, plot=False, **kw)
    with Watched(ctx, "reprojection") as g:
        V = A(g, "V", n, r)
        for u in (None, (3,), (2, 3)):
            f = g.fn("f")
            kw = {} if u is None else {"inputs": A(g, "U", *u)}
            fn(g, "utils._reprojection.reproject_discrete", f, V, A(g, "q0", n), 3, **kw)
            fn(g, "utils._reprojection.reproject_continuous", f, V, A(g, "X", n, 3), **kw)
    with Watched(ctx, "derivative functions") as g:
        from .c11 import NAMES
        Q, U = A(g, "Q", n, 12), A(g, "U", 2, 12)
        for x in NAMES:
            for u in ([], [U]):
                fn(g, "ddt._finite_difference." + x, Q, g.flt("dt"), *u)
        for o in (2, 4, 6):
            fn(g, "ddt.ddt_uniform", Q, g.flt("dt"), order=o)
        fn(g, "ddt.ddt_nonuniform", Q, A(g, "t", 12))
        fn(g, "ddt.ddt", Q, A(g, "t", 12))
        fn(g, "ddt.ddt", Q, g.flt("dt"))
    from .c11 import NAMES, times
    ests = [("ddt.UniformFiniteDifferencer", x) for x in NAMES] + [
        ("ddt.NonuniformFiniteDifferencer", None)] + [
        ("ddt.InterpDerivativeEstimator", x) for x in
        ("cubic", "akima")]
    for cls, how in ests:
        with Watched(ctx, "%s %s" % (cls, how or "")) as g:
            _, _, t = times(g, g.dim("k"))
            E = g.new(cls, g.arrt(t), *([how] if how else []))
            for u in ([], [A(g, "U", 2, "k")], [A(g, "u", "k")]):
                tried(g, cls + ".estimate", lambda q: q.call(
                    E, "estimate", A(q, "Q", r, "k"), *u))
            tried(g, cls + ".mask", lambda q: q.call(E, "mask", A(
                q, "Q", r, "k")))
    for cls, args, nv in [("lift.QuadraticLifter", (), 2)] + [
            ("lift.PolynomialLifter", ((1, p),), 2) for p in
            (2, 3, -1, 0, 0.5)]:
        with Watched(ctx, "%s%s" % (cls, args)) as g:
            o = g.new(cls, *args)
            for d in ((n, "k"), (n,)):
                tried(g, cls, lambda q: q.call(o, "lift", A(q, "Q", *d)))
                tried(g, cls, lambda q: q.call(o, "lift_ddts", A(
                    q, "Q", *d), A(q, "Z", *d)))
                m = tm.mul(const(nv), g.dim(n))
                tried(g, cls, lambda q: q.call(o, "unlift", q.arr(
                    "L", m, *[q.dim(x) for x in d[1:]])))


def reduced(ctx):
    """Reduced-order models."""
    for lf, tf, bs in c20.combos(ctx):
        for kind in ("Continuous", "Discrete"):
            with Watched(ctx, "ROM, %s, %s" % (
                    c20.lab(lf, tf, bs), kind)) as g:
                p = c20.Parts(g, lf, tf, bs)
                k = g.dim("k")
                p.fit(g.arr("X", p.n, g.dim("kx")))
                m = c20.model(g, kind, True, given=True)
                o = c20.rom(g, p, m)
                Q = g.arr("Q", p.n, k)
                Z = g.arr("Z", p.n, k)
                for kw in ({}, {"fit_transformer": True,
                                "fit_basis": True}):
                    tried(g, "encode", lambda q: q.call(
                        o, "encode", Q, **kw))
                    tried(g, "encode", lambda q: q.call(
                        o, "encode", Q, Z, **kw))
                tried(g, "project", lambda q: q.call(o, "project", Q))
                tried(g, "decode", lambda q: q.call(
                    o, "decode", q.arr("Y", c20.R_, k)))
                for n in (0, 2):
                    def fit(q):
                        qs = q.arr("Q0", p.n, k)
                        zs = q.arr("Z0", p.n, k)
                        us = q.arr("U0", models.M_, k)
                        kw = {} if kind == "Discrete" else {"lhs": zs}
                        if n:
                            qs = q.val([qs, q.arr("Q1", p.n, k)])
                            us = q.val([us, q.arr("U1", models.M_, k)])
                            if kw:
                                kw = {"lhs": q.val([zs, q.arr(
                                    "Z1", p.n, k)])}
                        o2 = c20.rom(q, p, c20.model(q, kind, True))
                        q.call(o2, "fit", qs, inputs=us, **kw)
                    tried(g, "fit", fit)
                q0 = g.arr("q0", p.n)
                if kind == "Discrete":
                    tried(g, "predict", lambda q: q.call(
                        o, "predict", q0, 3, q.arr("U", models.M_, 3)))
                else:
                    f = c20.inputs_at(g, g.term(g.arr("u", models.M_)))
                    tried(g, "predict", lambda q: q.call(
                        o, "predict", q0, q.arr("t", 4), f))
