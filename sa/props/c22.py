"""Arguments of mismatched dimension are rejected.

Dimensions are concrete and distinct here (and different from one), so that
every comparison of two of them, by the code or by an array operation, is
decided.
"""
from .. import terms as tm
from ..terms import const, NONE
from ..values import PyFn
from . import common, ops, models
from .common import attempt, attempted, mk_locs
from .c27 import user_interp

R = "mismatch-rejected"
OKAY = ("ValueError", "DimensionalityError", "LinAlgError", "IndexError")
SIZES = dict(n=7, n0=4, n1=5, n2=3, k=6, k0=6, d=4, r=2, r0=2, r1=3, r2=2,
             p=3, q=3)


def refuse(s, ctx, w, what, fn):
    """fn(s) raises on every path"""
    a = attempted(s, fn)
    if a[0] == "undec":
        ctx.undec(R, w, what + ": " + str(a[1]))
    elif a[0] == "val":
        ctx.bad(R, w, "%s returns %s instead of raising an error" % (
            what, tm.show(a[1], 4)[:120]))
    elif not set(a[1]) <= set(OKAY):
        ctx.bad(R, w, "%s raises %s instead of %s" % (
            what, a[2].split(": ", 1)[-1], "/".join(OKAY[:2])))
    else:
        ctx.ok(R, w)


def off(n, less=True):
    """sizes that differ from n"""
    n = n if isinstance(n, tm.T) else const(n)
    out = [tm.add(n, const(1))]
    if tm.is_num(n):
        out.append(tm.mul(const(2), n))
        if less and tm.cval(n) > 2:
            out.append(tm.sub(n, const(1)))
    return out


def sized(ctx, label):
    class C:
        def __enter__(self):
            self.c = ctx.case(label, R)
            s = self.c.__enter__()
            s.sizes = SIZES
            return s

        def __exit__(self, *a):
            return self.c.__exit__(*a)
    return C()


# ------------------------------------------------------------- transformers
def transformers(ctx):
    for fam in common.transformers(ctx, False) + common.composites(ctx):
        if fam.label.startswith("Scale(scalar") or "one row" in fam.label:
            continue
        with sized(ctx, fam.label) as s:
            o = fam.build(s)
            if fam.fit:
                fam.fit(s, o)
            n = getattr(fam, "tot", common.nfun())(s)
            W = lambda m: fam.where(ctx, m)
            for m in ("transform", "transform_ddts", "inverse_transform"):
                for x in off(n):
                    for ip in (False, True):
                        for shape in ((), ("k",)):
                            a = s.arr("P", x, *[s.dim(y) for y in shape])
                            refuse(s, ctx, W(m), "%s() of %s of %s rows, not "
                                   "%s" % (m, "snapshots" if shape else
                                           "a snapshot", tm.show(x),
                                           tm.show(n)),
                                   lambda s: s.call(o, m, a, inplace=ip))
            if len(set(getattr(fam, "sizes", "1"))) > 1:
                continue
            per = len(getattr(fam, "sizes", "1"))
            for p in (2, 4):
                refuse(s, ctx, W("inverse_transform"), "inverse_transform() "
                       "of %d rows at %d locations" % (per * p, 3),
                       lambda s: s.call(o, "inverse_transform", s.arr(
                           "L", per * p, s.dim("k")),
                           locs=s.val(tm.array([const(0), const(2), const(1)]))))


# -------------------------------------------------------------------- bases
def bases(ctx):
    for fam in common.bases(ctx) + common.basis_composites(ctx):
        with sized(ctx, fam.label) as s:
            o = fam.build(s)
            if fam.fit:
                fam.fit(s, o)
            n = getattr(fam, "tot", common.nfun())(s)
            r = common.rdim(s, o)
            W = lambda m: fam.where(ctx, m)
            for m, size in (("compress", n), ("project", n), (
                    "projection_error", n), ("decompress", r)):
                for x in off(size, m != "decompress"):
                    for shape in ((), ("k",)):
                        a = s.arr("P", x, *[s.dim(y) for y in shape])
                        refuse(s, ctx, W(m), "%s() of %s of %s rows, not %s"
                               % (m, "states" if shape else "a state",
                                  tm.show(x), tm.show(size)),
                               lambda s: s.call(o, m, a))


# ------------------------------------------------------------------ solvers
def solvers(ctx):
    for fam in common.solvers(ctx):
        with sized(ctx, fam.label) as s:
            o = fam.build(s)
            W = lambda m: fam.where(ctx, m)
            k, d = s.dim("k"), s.dim("d")
            rows = 2
            for x in off(k):
                for lhs in ((rows, x), (x,)):
                    refuse(s, ctx, W("fit"), "fit() with %s columns for %s "
                           "rows of data" % (tm.show(x), tm.show(k)),
                           lambda s: s.call(o, "fit", s.arr("D", k, d),
                                            s.arr("Z", *lhs)))
            refuse(s, ctx, W("fit"), "fit() with a one-dimensional data "
                   "matrix", lambda s: s.call(o, "fit", s.arr("D", k),
                                              s.arr("Z", rows, k)))
            refuse(s, ctx, W("fit"), "fit() with a three-dimensional left-"
                   "hand side", lambda s: s.call(
                       o, "fit", s.arr("D", k, d), s.arr("Z", rows, k, 1)))
            cls = fam.cls.split(".")[1]
            for reg in badregs(s, cls):
                def use(s, reg=reg):
                    s.set(o, "regularizer", reg(s))
                    fam.fit(s, o)
                    return s.call(o, "solve")
                refuse(s, ctx, W("regularizer"), "training with a "
                       "regularizer of another size", use)
            fam.fit(s, o)
            r = s.tget(o, "r")
            for m in ("residual",) + (("regresidual",) if cls[:2] in (
                    "L2", "Ti") and not getattr(fam, "noreg", False)
                    else ()):
                for shape in ([(r, x) for x in off(d)] + [
                        (x, d) for x in off(r, False)] + [
                            (x,) for x in off(d)]):
                    refuse(s, ctx, W(m), "%s() of a matrix of shape %s" % (
                        m, "x".join(map(tm.show, shape))),
                        lambda s: s.call(o, m, s.arr("O", *shape)))
            for reg in badregs(s, cls):
                def use(s, reg=reg):
                    s.set(o, "regularizer", reg(s))
                    return s.call(o, "solve")
                refuse(s, ctx, W("regularizer"), "setting a regularizer of "
                       "another size", use)


def badregs(s, cls):
    if cls == "L2DecoupledSolver":
        return [lambda s: s.arr("c", 3), lambda s: s.arr("c", 1)]
    if cls == "TikhonovSolver":
        return [lambda s, x=x: s.arr("c", *([x] * j)) for x in off(
            s.dim("d")) for j in (1, 2)] + [lambda s: s.arr("c", s.dim("d"), 3)]
    if cls == "TikhonovDecoupledSolver":
        d = s.dim("d")
        return [lambda s: [s.arr("c%d" % i, d) for i in range(3)],
                lambda s: [s.arr("c%d" % i, d, d) for i in range(3)]] + [
                    lambda s, x=x, j=j: [s.arr("c0", d), s.arr(
                        "c1", *([x] * j))] for x in off(d) for j in (1, 2)]
    return []


# ------------------------------------------------------------------- models
def mono(ctx):
    K, M, r = 6, models.M_, models.R_
    for fam in models.mono_fams(ctx):
        inp = models.has_input(fam.mix)
        cont = fam.kind == "Continuous"
        with sized(ctx, fam.label) as s:
            o = fam.build(s)
            W = lambda m: fam.where(ctx, m)

            def fit(s, q=r, z=r, kz=K, ku=K, u=inp):
                return s.call(o, "fit", s.arr("Q", q, K), s.arr("Z", z, kz),
                              **({"inputs": s.arr("U", M, ku)} if u else {}))
            if fam.fit:
                for what, kw in [
                        ("another number of rows in the left-hand side",
                         dict(z=r + 1)),
                        ("more left-hand sides than states",
                         dict(kz=K + 1)),
                        ("fewer left-hand sides than states",
                         dict(kz=K - 1))] + ([
                             ("fewer inputs than states", dict(ku=K - 1)),
                             ("no inputs", dict(u=False))]
                                 if inp else []) + ([
                             ("more inputs than states", dict(ku=K + 1))]
                                 if inp and cont else []):
                    refuse(s, ctx, W("fit"), "fit() with " + what,
                           lambda s: fit(s, **kw))
                if fam.pattern != "free":
                    refuse(s, ctx, W("fit"), "fit() with states of another "
                           "dimension than the given operators",
                           lambda s: fit(s, q=r + 1, z=r + 1))
                fit(s)
            predict(s, ctx, W, o, cont, inp, r, M, [])


def predict(s, ctx, W, o, cont, inp, r, M, mu):
    K = 5
    t = s.arr("t", K)
    for what, q0 in (("a longer initial state", (r + 1,)),
                     ("a shorter initial state", (r - 1,)),
                     ("a two-dimensional initial state", (r, 1))):
        u = [] if not inp else [s.arr("U", M, K)]
        refuse(s, ctx, W("predict"), "predict() from " + what,
               lambda s: s.call(o, "predict", *mu, s.arr("q0", *q0),
                                t if cont else K, *u))
    if not inp:
        return
    for what, u in (("inputs of another dimension", (M + 1, K)),
                    ("too few inputs", (M, K - 2)), ("no inputs", None)):
        refuse(s, ctx, W("predict"), "predict() with " + what,
               lambda s: s.call(o, "predict", *mu, s.arr("q0", r),
                                t if cont else K, *(
                                    [s.arr("U", *u)] if u else [])))
    if cont:
        refuse(s, ctx, W("predict"), "predict() with a function giving "
               "inputs of another dimension", lambda s: s.call(
                   o, "predict", *mu, s.arr("q0", r), t, models.free_fn(
                       s.arr("u", M + 1))))
        refuse(s, ctx, W("predict"), "predict() at a two-dimensional array "
               "of times", lambda s: s.call(
                   o, "predict", *mu, s.arr("q0", r), s.arr("t2", K, 2),
                   models.free_fn(s.arr("u", M))))


def param_builds(ctx):
    for kind in ("Discrete", "Continuous"):
        for mix in models.PMIXES:
            for base in ("Interp", "Parametric"):
                for pattern in ("free", "given", "first given"):
                    yield kind, mix, base, pattern


def param(ctx):
    n, K, M, r = 3, 6, models.M_, models.R_
    for kind, mix, base, pattern in param_builds(ctx):
        inp, cont = models.has_input(mix), kind == "Continuous"
        name = "models.%s%sModel" % (base, kind)
        with sized(ctx, "%s(%s; %s)" % (name[7:], "+".join(mix),
                                        pattern)) as s:
            o = models.build_param(s, base + kind + "Model", mix, pattern, interp=(
                user_interp if base == "Interp" else None))
            W = lambda m: ctx.locate(name, m)

            def fit(s, nm=n, nq=n, nz=n, nu=n, q=r, z=r, kz=K, ku=K, u=M,
                    size=None):
                def data(tag, rows, k, count, odd):
                    a = [s.arr("%s%d" % (tag, i), rows, k)
                         for i in range(count - 1)]
                    return a + [s.arr("%s%d" % (tag, count - 1), *odd)]
                mus = [s.flt("mu%d" % i) for i in range(nm)]
                return s.call(
                    o, "fit", mus, data("Q", r, K, nq, (q, K)),
                    data("Z", r, K, nz, (z, kz)), **({"inputs": data(
                        "U", M, K, nu, (u, ku))} if inp and nu else {}))
            if pattern != "given":
                for what, kw in [
                        ("fewer parameters than trajectories",
                         dict(nm=n - 1)),
                        ("more parameters than trajectories",
                         dict(nm=n + 1)),
                        ("fewer left-hand sides than trajectories",
                         dict(nz=n - 1)),
                        ("a trajectory of another dimension",
                         dict(q=r + 1, z=r + 1)),
                        ("left-hand sides of another dimension",
                         dict(z=r + 1)),
                        ("more left-hand sides than states",
                         dict(kz=K + 1)),
                        ("fewer left-hand sides than states",
                         dict(kz=K - 1))] + ([
                             ("fewer inputs than trajectories",
                              dict(nu=n - 1)),
                             ("inputs of another dimension", dict(u=M + 1)),
                             ("fewer inputs than states", dict(ku=K - 1)),
                             ("no inputs", dict(nu=0))] if inp else []) + ([
                                 ("more inputs than states", dict(ku=K + 1))]
                                     if inp and cont else []):
                    refuse(s, ctx, W("fit"), "fit() with " + what,
                           lambda s: fit(s, **kw))
                fit(s)
            predict(s, ctx, W, o, cont, inp, r, M, [s.flt("mu")])


def operators(ctx):
    r, m = 3, 2
    shapes = {
        "Constant": [(2, 3), (2, 2), (2, 2, 2)],
        "Linear": [(r + 1, r), (r, r - 1), (r, r, 2)],
        "Quadratic": [(r, 5), (r, 7), (r, 8), (r + 1, 6), (r, 4, 3)],
        "Cubic": [(r, 9), (r, 11), (r + 1, 10), (r, 26)],
        "Quartic": [(r, 14), (r, 16), (r + 1, 15)],
        "Input": [(r, m, 2)],
        "StateInput": [(r, r * m + 1), (r + 1, r * m), (r, r * m, 2)]}
    for nm, bad in shapes.items():
        name = "operators.%sOperator" % nm
        W = lambda x: ctx.locate(name, x)
        with sized(ctx, nm + "Operator") as s:
            for sh in bad:
                refuse(s, ctx, W("set_entries"), "set_entries() of an array "
                       "of shape %s" % (sh,), lambda s: s.call(s.new(
                           name), "set_entries", s.arr("E", *sh)))
                refuse(s, ctx, W("entries"), "assigning entries of shape %s"
                       % (sh,), lambda s: s.set(s.new(name), "entries",
                                                s.arr("E", *sh)))
            o = ops.build(s, nm + "Operator", r, m if "Input" in nm else
                          None, "E")
            for what, a in (
                    ("a basis of another number of rows", [(r + 1, 2)]),
                    ("a basis of fewer rows", [(r - 1, 2)]),
                    ("a test basis of another number of rows",
                     [(r, 2), (r + 1, 2)]),
                    ("a test basis of another number of columns",
                     [(r, 2), (r, 1)])):
                refuse(s, ctx, W("galerkin"), "galerkin() with " + what,
                       lambda s: s.call(o, "galerkin", *[
                           s.arr("V%d" % i, *x) for i, x in enumerate(a)]))


PARAMETERS = [("Affine", "int", (4,), (2,)), ("Affine", "fn", (3,), (3,)),
              ("Affine", "list", (3,), (3,)), ("Interp", "1-D", (2,), (2,)),
              ("Interp", "2-D", (3,), (3,))]


def parametric_operators(ctx):
    for kind, how, *bad in PARAMETERS:
        for cls in ("LinearOperator", "InputOperator"):
            name = "operators." + kind + cls
            r, m = 2, 3 if "Input" in cls else None
            with sized(ctx, "%s%s(%s)" % (kind, cls, how)) as s:
                o = ops.build_param(s, kind, cls, r, m, how)
                W = lambda x: ctx.locate(name, x)
                if kind == "Affine" and how != "int":
                    s.call(o, "evaluate", s.arr("mu", 2))
                for b in bad:
                    refuse(s, ctx, W("evaluate"), "evaluate() at a parameter "
                           "of another dimension", lambda s: s.call(
                               o, "evaluate", s.arr("mub", *b)))
                bare = ops.build_param(s, kind, cls, r, m, how, ent=False)
                for sizes in ([(r, r + 1)] * 2 + [(r, r)],
                              [(r, r)] * 2, [(r, r)] * 4):
                    def put(s):
                        return s.call(bare, "set_entries", [
                            s.arr("A%d" % i, *x)
                            for i, x in enumerate(sizes)])
                    refuse(s, ctx, W("set_entries"), "set_entries() of %s" % (
                        "%d arrays for 3" % len(sizes) if len(sizes) != 3
                        else "arrays of unequal shapes"), put)
                for what, V in (("another number of rows", [(r + 1, 1)]),
                                ("test basis of another size",
                                 [(r, 1), (r, 2)])):
                    refuse(s, ctx, W("galerkin"), "galerkin() with a basis "
                           "of " + what, lambda s: s.call(o, "galerkin", *[
                               s.arr("V%d" % i, *x)
                               for i, x in enumerate(V)]))


def multi(ctx):
    for name, kw, subs in (
            ("pre.TransformerMulti", "variable_sizes", lambda s: [
                s.new("pre.ShiftScaleTransformer", centering=True),
                s.new("pre.NullTransformer")]),
            ("basis.BasisMulti", "full_variable_sizes", lambda s: [
                s.new("basis.PODBasis", num_vectors=1),
                s.new("basis.PODBasis", num_vectors=1)])):
        W = lambda x: ctx.locate(name, x)
        with sized(ctx, name[4:]) as s:
            refuse(s, ctx, W("__init__"), "constructing with three sizes for "
                   "two variables", lambda s: s.new(
                       name, subs(s), **{kw: (2, 3, 2)}))
            refuse(s, ctx, W("fit"), "fit() of an odd number of rows",
                   lambda s: s.call(s.new(name, subs(s)), "fit", s.arr(
                       "X", 7, 6)))
            for n in (4, 6, 10):
                refuse(s, ctx, W("fit"), "fit() of %d rows, not 5" % n,
                       lambda s: s.call(s.new(name, subs(s), **{
                           kw: (2, 3)}), "fit", s.arr("X", n, 6)))


ROMS = [("-", "ShiftScale", "Linear"), ("-", "Shift", "POD"),
        ("-", "-", "Linear"), ("-", "Multi", "Multi"),
        ("Quadratic", "ShiftScale", "POD")]


def roms(ctx):
    from . import c20
    r, k = 2, 6
    for names in ROMS:
        for kind in ("Discrete", "Continuous"):
            with sized(ctx, "ROM(%s; %s)" % (", ".join(names), kind)) as s:
                s.sizes = dict(SIZES, h=4, n=8)
                parts = [next(x for x in tab if x[0] == y) for tab, y in zip(
                    (c20.LIFTERS, c20.TRANSFORMERS, c20.BASES), names)]
                W = lambda x: ctx.locate("roms.ROM", x)

                def fresh(s, p=None):
                    p = p or c20.Parts(s, *parts)
                    return p, s.new("roms.ROM", c20.model(
                        s, kind, True), **p.kw())

                def fit(s, o, n, q=0, z=0, kq=0, kz=0, ku=0, nq=2, nz=2,
                        nu=2, **kw):
                    last = lambda tag, c, odd, x: [s.arr(
                        "%s%d" % (tag, i), *x) for i in range(c - 1)] + [
                            s.arr("%s%d" % (tag, c - 1), *odd)]
                    return s.call(
                        o, "fit", last("Q", nq, (tm.add(n, const(q)), k + kq),
                                       (n, k)),
                        lhs=last("Z", nz, (tm.add(n, const(z)), k + kz),
                                 (n, k)),
                        inputs=last("U", nu, (models.M_, k + ku),
                                    (models.M_, k)), **kw)
                for what, kw in (
                        ("states of unequal dimensions", dict(q=1, z=1)),
                        ("a left-hand side of another dimension", dict(z=1)),
                        ("more left-hand sides than states", dict(kz=1)),
                        ("fewer left-hand sides than states", dict(kz=-1)),
                        ("fewer inputs than states", dict(ku=-1)),
                        ("left-hand sides for some trajectories only",
                         dict(nz=1)),
                        ("inputs for some trajectories only", dict(nu=1)),
                        ("inputs for no trajectory more", dict(nu=3)),
                        ("left-hand sides for a trajectory more",
                         dict(nz=3))):
                    def go(s):
                        p, o = fresh(s)
                        return fit(s, o, p.n, **kw)
                    refuse(s, ctx, W("fit"), "fit() with " + what, go)
                p, o = fresh(s)
                fit(s, o, p.n)
                n = p.n
                for x in off(n):
                    for m in ("encode", "project"):
                        for sh in ((), ("k",)):
                            refuse(s, ctx, W(m), "%s() of %s of %s rows, not "
                                   "%s" % (m, "states" if sh else "a state",
                                           tm.show(x), tm.show(n)),
                                   lambda s: s.call(o, m, s.arr("P", x, *[
                                       s.dim(y) for y in sh])))
                    refuse(s, ctx, W("predict"), "predict() from a state of "
                           "another dimension", lambda s: s.call(
                               o, "predict", s.arr("q0", x), *(
                                   [5, s.arr("U", models.M_, 5)]
                                   if kind == "Discrete" else
                                   [s.arr("t", 5), models.free_fn(s.arr(
                                       "u", models.M_))])))
                for x in off(r):
                    refuse(s, ctx, W("decode"), "decode() of states of %s "
                           "rows, not %d" % (tm.show(x), r),
                           lambda s: s.call(o, "decode", s.arr("R", x, k)))


def estimators(ctx):
    r, k = 2, 6
    for name in ("NonuniformFiniteDifferencer", "InterpDerivativeEstimator"):
        with sized(ctx, name) as s:
            W = lambda x: ctx.locate("ddt." + name, x)
            o = s.new("ddt." + name, s.arr("t", k))
            for what, q, u in (
                    ("more snapshots than times", (r, k + 1), None),
                    ("fewer snapshots than times", (r, k - 1), None),
                    ("more inputs than snapshots", (r, k), (2, k + 1)),
                    ("fewer inputs than snapshots", (r, k), (2, k - 1))):
                refuse(s, ctx, W("estimate"), "estimate() with " + what,
                       lambda s: s.call(o, "estimate", s.arr("Q", *q), *(
                           [s.arr("U", *u)] if u else [])))


def derivatives(ctx):
    r, k = 2, 8
    for name in ("UniformFiniteDifferencer", "NonuniformFiniteDifferencer",
                 "InterpDerivativeEstimator"):
        with sized(ctx, name + ", axes") as s:
            t = s.arr("t", k)
            if name[0] == "U":
                t = s.arrt(tm.array([tm.add(s.flt("t0"), const(i / 8))
                                     for i in range(k)]))
            o = s.new("ddt." + name, t)
            refuse_all(s, ctx, "ddt." + name, [
                ("estimate", "estimate() of an array with %d axes" % len(sh),
                 lambda s, sh=sh: s.call(o, "estimate", s.arr("Q", *sh)))
                for sh in ((k,), (r, k, 1), (r, 2, k))] + [
                ("__init__", "a two-dimensional time domain", lambda s: s.new(
                    "ddt." + name, s.arr("t", k, 1)))])
    with sized(ctx, "finite difference functions") as s:
        dt, t = s.flt("dt"), s.arr("t", k)
        f = lambda n, q, *a: (lambda s: s.new("ddt." + n, s.arr(
            "Q", *q), *a))
        refuse_all(s, ctx, "ddt.ddt_uniform", [
            ("", "ddt_uniform() of shape %s" % (q,), f("ddt_uniform", q, dt))
            for q in ((k,), (r, k, 1))])
        refuse_all(s, ctx, "ddt.ddt_nonuniform", [
            ("", "ddt_nonuniform() of shapes %s and %s" % (q, x), (
                lambda s, q=q, x=x: s.new("ddt.ddt_nonuniform", s.arr(
                    "Q", *q), s.arr("t", *x))))
            for q, x in (((k,), (k,)), ((r, k, 1), (k,)), ((r, k), (k, 1)),
                         ((r, k), (k + 1,)), ((r, k), (k - 1,)),
                         ((k, r), (k,)))])
        refuse_all(s, ctx, "ddt.ddt", [
            ("", "ddt() of shapes %s and %s" % (q, x), (
                lambda s, q=q, x=x: s.new("ddt.ddt", s.arr(
                    "Q", *q), s.arr("t", *x))))
            for q, x in (((r, k), (k + 1,)), ((r, k), (k - 1,)))])


def refuse_all(s, ctx, name, table):
    for m, what, fn in table:
        refuse(s, ctx, ctx.locate(name, m), what, fn)


def setters(ctx):
    name = "pre.ShiftScaleTransformer"
    for label, kw, attrs in (
            ("centering", dict(centering=True), ("mean_",)),
            ("minmax", dict(scaling="minmax"), ("state_dimension",)),
            ("byrow", dict(centering=True, scaling="standard", byrow=True),
             ("mean_", "scale_", "shift_"))):
        with sized(ctx, "ShiftScaleTransformer(%s), assigned" % label) as s:
            n = s.dim("n")
            o = s.new(name, **kw)
            s.call(o, "fit", s.arr("X", n, s.dim("k")))
            bare = s.new(name, **kw)
            refuse_all(s, ctx, name, [
                ("fit_transform", "fit to a single snapshot",
                 lambda s: s.call(s.new(name, **kw), "fit", s.arr("x", n))),
                ("fit_transform", "fit to a three-dimensional array",
                 lambda s: s.call(s.new(name, **kw), "fit", s.arr(
                     "x", n, 2, 2)))] + [
                ("__init__", "assigning %s with %d axes" % (a, len(sh)),
                 lambda s, a=a, sh=sh, x=x: s.set(x, a, s.arr("v", *sh)))
                for a in attrs if a != "state_dimension"
                for x, shapes in ((o, [(y,) for y in off(n)] + [(n, 1)]),
                                  (bare, [(n, 2)]))
                for sh in shapes])
    with sized(ctx, "shift() and scale()") as s:
        n, k = s.dim("n"), s.dim("k")
        call = lambda f, *a, **kw: (lambda s: s.new(
            "pre." + f, *[s.arr("X", *x) if isinstance(x, tuple) else x
                          for x in a],
            **{q: s.arr("v", *x) for q, x in kw.items()}))
        refuse_all(s, ctx, "pre.shift", [
            ("", "shift() of a single snapshot", call("shift", (n,)))] + [
            ("", "shift() by an array of shape %s" % (sh,),
             call("shift", (n, k), shift_by=sh))
            for sh in [(n, 2)] + [(x,) for x in off(n)]])
        refuse_all(s, ctx, "pre.scale", [
            ("", "scale() %s %d bounds" % (q, j), call("scale", (n, k), *(
                [tm.array([const(i) for i in range(j)])] if q == "to" else [
                    tm.array([const(0), const(1)]),
                    tm.array([const(i) for i in range(j)])])))
            for q in ("to", "from") for j in (1, 3)])


def containers(ctx):
    for name, kw, sub, dim in (
            ("pre.TransformerMulti", "variable_sizes", "pre.ShiftTransformer",
             "state_dimension"),
            ("basis.BasisMulti", "full_variable_sizes", "basis.LinearBasis",
             "full_state_dimension")):
        def parts(s, *sizes):
            return [s.new(sub, s.arr("c%d" % i, *(
                (x,) if dim[0] == "s" else (x, 2))))
                for i, x in enumerate(sizes)]
        with sized(ctx, name + ", sizes") as s:
            inv = "inverse_transform" if dim[0] == "s" else "decompress"
            def multi(s):
                o = s.new(name, parts(s, 4, 3))
                return o
            refuse_all(s, ctx, name, [
                ("__init__", "sizes that are not those of the parts",
                 lambda s, z=z: s.new(name, parts(s, 4, 3), **{kw: z}))
                for z in ((4, 2), (3, 4), (5, 3)) if dim[0] == "s"] + [
                (inv, "%s() at locations for variables of unequal sizes" % inv,
                 lambda s: s.call(multi(s), inv, s.arr("P", 4, 5), locs=(
                     s.val(tm.array([const(0), const(2)])))))])
    with sized(ctx, "TransformerPipeline, sizes") as s:
        name = "pre.TransformerPipeline"
        refuse_all(s, ctx, name, [
            ("__init__", "transformers of unequal state dimensions",
             lambda s: s.new(name, [
                 s.new("pre.ShiftTransformer", s.arr("c%d" % i, x))
                 for i, x in enumerate((4, 3))]))])


def assembled(ctx):
    """models and operators built from parts"""
    r, m = 2, 3
    for kind in ("Discrete", "Continuous"):
        name = "models.%sModel" % kind
        with sized(ctx, kind + "Model, of given operators") as s:
            A = lambda s, r, t="A": ops.build(s, "LinearOperator", r, None, t)
            c = lambda s, r: ops.build(s, "ConstantOperator", r, None, "c")
            B = lambda s, r, m: ops.build(s, "InputOperator", r, m, "B")
            N = lambda s, r, m: ops.build(s, "StateInputOperator", r, m, "N")
            refuse_all(s, ctx, name, [
                ("__init__", "operators of unequal state dimensions",
                 lambda s: s.new(name, [A(s, r), c(s, r + 1)])),
                ("__init__", "operators of unequal input dimensions",
                 lambda s: s.new(name, [A(s, r), B(s, r, m), N(s, r, m + 1)])),
            ])
            def full(s):
                return s.new(name, [A(s, r), c(s, r), N(s, r, m)])
            refuse_all(s, ctx, name, [
                ("galerkin", "galerkin() with a basis of %d rows" % x,
                 lambda s, x=x: s.call(full(s), "galerkin", s.arr("V", x, 1)))
                for x in (r + 1, 1)])
        pname = "models.Parametric%sModel" % kind
        with sized(ctx, "Parametric%sModel, of given operators" % kind) as s:
            def aff(s, j, r=r, t="A", cls="LinearOperator"):
                return s.new("operators.Affine" + cls, j, entries=[
                    s.arr("%s%d" % (t, i), r, r) if cls[0] == "L" else
                    s.arr("%s%d" % (t, i), r) for i in range(j)])
            refuse_all(s, ctx, pname, [
                ("__init__", "operators of unequal parameter dimensions",
                 lambda s: s.new(pname, [aff(s, 2), aff(
                     s, 3, t="b", cls="ConstantOperator")])),
                ("__init__", "operators of unequal state dimensions",
                 lambda s: s.new(pname, [aff(s, 2), aff(
                     s, 2, r + 1, t="b", cls="ConstantOperator")])),
                ("predict", "a parameter of another dimension",
                 lambda s: s.call(s.new(pname, [aff(s, 2)]), "evaluate",
                                  s.arr("mu", 3)))])
        iname = "models.Interp%sModel" % kind
        with sized(ctx, "Interp%sModel, of models" % kind) as s:
            def models_(s, *sizes, more=None):
                return [s.new("models.%sModel" % kind, [
                    A(s, x, "A%d" % i)] + ([c(s, x)] if more == i else []))
                    for i, x in enumerate(sizes)]
            from_ = lambda mus, *sizes, **kw: (lambda s: s.new(
                iname + "._from_models", [s.flt("mu%d" % i) for i in range(
                    mus)], models_(s, *sizes, **kw)))
            refuse_all(s, ctx, iname, [
                ("_from_models", "models of unequal state dimensions",
                 from_(2, r, r + 1)),
                ("_from_models", "models of unequal numbers of operators",
                 from_(2, r, r, more=1)),
                ("_from_models", "models of unequal numbers of operators",
                 from_(2, r, r, more=0)),
                ("_from_models", "fewer parameters than models",
                 from_(2, r, r, r)),
                ("_from_models", "more parameters than models",
                 from_(3, r, r))])
    with sized(ctx, "TikhonovSolver.get_operator_regularizer()") as s:
        name = "lstsq.TikhonovSolver"
        op = lambda s: [s.new("operators.ConstantOperator"),
                        s.new("operators.LinearOperator")]
        refuse_all(s, ctx, name, [
            ("get_operator_regularizer", "%d parameters for 2 operators" % j,
             lambda s, j=j: s.new(
                 name + ".get_operator_regularizer", op(s),
                 [s.flt("c%d" % i) for i in range(j)], 3))
            for j in (1, 3)])
    for nm, good, bad in (
            ("Quadratic", (9, 6), (5, 7, 8)), ("Cubic", (27, 10), (9, 11, 26)),
            ("Quartic", (81, 15), (14, 17, 80))):
        name = "operators.%sOperator" % nm
        with sized(ctx, nm + "Operator, (un)compressed entries") as s:
            refuse_all(s, ctx, name, [
                (f, "%s() of %d columns" % (f, x),
                 lambda s, f=f, x=x, name=name: s.new(
                     name + "." + f, s.arr("E", 3, x)))
                for f, x in [("compress_entries", y) for y in bad] + [
                    ("expand_entries", y) for y in bad]])


def selections(ctx):
    """fit_regselect_*() of data that do not belong together"""
    from . import c19
    c19.setup(ctx.eng)
    k, M = 6, models.M_
    for kind in ("Discrete", "Continuous"):
        for bayes in (None, "L2Solver"):
            f = c19.Setting(ctx, kind, inp=True, ntraj=2, bayes=bayes)
            name = "roms." + f.cls
            with sized(ctx, "%s.%s()" % (f.cls, f.meth)) as s:
                def call(s, nq=2, nz=2, nu=2, nt=2, z=0, kz=0, kt=0, ku=0,
                         q=0, n=7):
                    p = f.parts(s)
                    o = f.rom(s, p, f.model(s))
                    last = lambda tag, c, odd, x: [s.arr(
                        "%s%d" % (tag, i), *x) for i in range(c - 1)] + [
                            s.arr("%s%d" % (tag, c - 1), *odd)]
                    Q = last("Q", nq, (n + q, k), (n, k))
                    if f.cont:
                        kw = dict(
                            train_time_domains=last("t", nt, (k + kt,), (k,)),
                            ddts=last("Z", nz, (n + z, k + kz), (n, k)),
                            input_functions=[models.free_fn(s.arr(
                                "u%d" % i, M)) for i in range(nu)])
                    else:
                        kw = dict(inputs=last("U", nu, (M, k + ku), (M, k)))
                    return s.call(o, f.meth, [s.flt("c0"), s.flt("c1")],
                                  states=Q, gridsearch_only=True, **kw)
                table = [("states of unequal dimensions", dict(q=1, z=1))]
                if f.cont:
                    table += [
                        ("time domains for some trajectories only",
                         dict(nt=1)),
                        ("a time domain too many", dict(nt=3)),
                        ("a longer time domain", dict(kt=1)),
                        ("a shorter time domain", dict(kt=-1)),
                        ("derivatives for some trajectories only",
                         dict(nz=1)),
                        ("derivatives of another dimension", dict(z=1)),
                        ("more derivatives than states", dict(kz=1)),
                        ("input functions for some trajectories only",
                         dict(nu=1)),
                        ("an input function too many", dict(nu=3))]
                else:
                    table += [("inputs for some trajectories only",
                               dict(nu=1)),
                              ("inputs for a trajectory more", dict(nu=3)),
                              ("fewer inputs than states", dict(ku=-1))]
                refuse_all(s, ctx, name, [
                    (f.meth, f.meth + "() with " + what,
                     lambda s, kw=kw: call(s, **kw)) for what, kw in table])
    name = "roms.OperatorPosterior"
    with sized(ctx, "OperatorPosterior") as s:
        d = 3
        good = [(d,), (d, d)]
        refuse_all(s, ctx, name, [
            ("__init__", "%d means and %d precisions" % (i, j),
             lambda s, i=i, j=j, inv=inv: s.new(
                 name, [s.arr("m%d" % x, d) for x in range(i)],
                 [s.arr("P%d" % x, d, d) for x in range(j)],
                 alreadyinverted=inv))
            for i, j in ((2, 3), (3, 2)) for inv in (False, True)] + [
            ("__init__", "means and precisions of sizes %s" % (bad,),
             lambda s, bad=bad, inv=inv: s.new(
                 name, [s.arr("m0", *good[0]), s.arr("m1", *bad[0])],
                 [s.arr("P0", *good[1]), s.arr("P1", *bad[1])],
                 alreadyinverted=inv))
            for bad in ([(d + 1,), (d, d)], [(d,), (d + 1, d + 1)],
                        [(d,), (d, d + 1)], [(d, 1), (d, d)], [(d,), (d,)])
            for inv in (False, True)])


def check(ctx):
    selections(ctx)
    derivatives(ctx)
    setters(ctx)
    containers(ctx)
    assembled(ctx)
    operators(ctx)
    parametric_operators(ctx)
    multi(ctx)
    roms(ctx)
    estimators(ctx)
    param(ctx)
    transformers(ctx)
    bases(ctx)
    solvers(ctx)
    mono(ctx)
