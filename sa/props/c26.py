"""Bases: dimension, entries, weights and energies stay coherent."""
from .. import terms as tm
from ..check import Fail
from ..terms import const, mk, sym, NONE, TRUE, FALSE, T
from ..values import Ext
from . import common
from .c12 import lst

R, RD, RE, RV, RM = ("maps-use-the-current-entries", "dimension-criterion",
                     "energies-match-the-dimension", "vectors",
                     "multi-basis-blocks")
ALL = ("s", None, None, None)


def ext(s, name, *a, **k):
    return s.eng.run(s.st, Ext(name), [s.val(x) for x in a],
                     {n: s.val(v) for n, v in k.items()}).value


def rows(t, v):
    """diag(v) t"""
    return tm.mul(tm.reshape(v, (v.shape[0], const(1))), t) if len(
        t.shape) == 2 else tm.mul(v, t)


def weigh(s, wl, q):
    """W q for the weights the scenario passed"""
    if wl == "none":
        return q
    if wl == "vector":
        return rows(q, s.term(s.arr("w", s.dim("n"))))
    if wl == "sparse dia":
        return rows(q, s.term(s.arr("wd", s.dim("n"))))
    if wl == "sparse bands":
        return tm.matmul(s.term(s.new_dia("wb", "n", (-1, 0, 1))), q)
    W = sym("W" if wl == "matrix" else "Wd", "arr", (s.dim("n"),) * 2)
    return tm.matmul(W, q)


def norm(s, t):
    return s.term(ext(s, "la.norm", s.arrt(t)))


def coherent(s, ctx, fam, o, wl, note, vectors=None):
    """the basis is what its entries say"""
    w = fam.where(ctx, "reduced_state_dimension")
    V = s.tget(o, "entries")
    n, r = V.shape
    if vectors is not None:
        s.same(R, w, V, vectors, note="entries " + note)
    s.same(R, w, s.tget(o, "reduced_state_dimension"), r,
           note="reported dimension " + note)
    s.same(R, fam.where(ctx, "full_state_dimension"),
           s.tget(o, "full_state_dimension"), n, note="full dimension " + note)
    sh = lst(s, s.get(o, "shape"))
    for x, d in zip(sh, (n, r)):
        s.same(R, fam.where(ctx, "shape"), x, d, note="shape " + note)
    for shape in ((s.dim("k"),), ()):
        q = s.term(s.arr("P%d" % len(shape), s.dim("n"), *shape))
        z = s.term(s.arr("R%d" % len(shape), r, *shape))
        c = tm.matmul(tm.transpose(V), weigh(s, wl, q))
        p = tm.matmul(V, c)
        s.same(R, fam.where(ctx, "compress"), s.tcall(
            o, "compress", s.arrt(q)), c, note="compress() " + note)
        s.same(R, fam.where(ctx, "decompress"), s.tcall(
            o, "decompress", s.arrt(z)), tm.matmul(V, z),
            note="decompress() " + note)
        locs = sym("locs", "idx", (s.dim("p"),))
        s.same(R, fam.where(ctx, "decompress"), s.tcall(
            o, "decompress", s.arrt(z), locs=s.arrt(locs)), tm.matmul(
                tm.getitem(V, (("a", locs), ALL)), z),
            note="decompress(locs) " + note)
        s.same(R, fam.where(ctx, "project"), s.tcall(
            o, "project", s.arrt(q)), p, note="project() " + note)
        e = norm(s, tm.sub(q, p))
        f = fam.where(ctx, "projection_error")
        s.same(R, f, s.tcall(o, "projection_error", s.arrt(q)),
               tm.div(e, norm(s, q)), note="relative error " + note)
        s.same(R, f, s.tcall(o, "projection_error", s.arrt(q),
                             relative=False), e,
               note="absolute error " + note)


def chosen(s, crit, value, sig, avail):
    """the smallest dimension that satisfies the criterion; None: all"""
    s2 = tm.mul(sig, sig)
    en = tm.div(s.term(ext(s, "np.cumsum", s.arrt(s2))), s.term(
        ext(s, "np.sum", s.arrt(s2))))

    def count(c):
        return s.term(ext(s, "np.count_nonzero", s.arrt(c)))
    if crit == "num_vectors":
        r = value
    elif crit == "svdval_threshold":
        r = count(tm.le(value, sig))
    else:
        x = {"cumulative_energy": lambda: tm.lt(en, value),
             "residual_energy": lambda: tm.lt(value, tm.sub(const(1), en)),
             "projection_error": lambda: tm.lt(value, tm.power(tm.sub(
                 const(1), en), tm.div(const(1), const(2))))}[crit]()
        r = tm.add(count(x), const(1))
    return tm.phi(tm.lt(avail, r), avail, r)


def pod(s, ctx, fam, o, crit, value, wl, note):
    """dimension by the criterion, entries, energies"""
    L, sig = s.tget(o, "leftvecs"), s.tget(o, "svdvals")
    avail = L.shape[1]
    s.same(RD, fam.where(ctx, "max_vectors"), s.tget(o, "max_vectors"),
           avail, note="vectors available " + note)
    r = s.tget(o, "reduced_state_dimension")
    if crit is not None:
        s.same(RD, fam.where(ctx, "set_dimension"), r, chosen(
            s, crit, value, sig, avail), note="dimension " + note)
    coherent(s, ctx, fam, o, wl, note, tm.getitem(L, (ALL, (
        "s", None, r, None))))
    energies(s, ctx, fam, o, note)


def energies(s, ctx, fam, o, note):
    sig, r = s.tget(o, "svdvals"), s.tget(o, "reduced_state_dimension")
    s2 = tm.mul(sig, sig)
    ce = tm.div(s.term(ext(s, "np.sum", s.arrt(tm.getitem(s2, ((
        "s", None, r, None),))))), s.term(ext(s, "np.sum", s.arrt(s2))))
    s.same(RE, fam.where(ctx, "cumulative_energy"), s.tget(
        o, "cumulative_energy"), ce, note="cumulative energy " + note)
    s.same(RE, fam.where(ctx, "residual_energy"), s.tget(
        o, "residual_energy"), tm.sub(const(1), ce),
        note="residual energy " + note)


CRITS = ["num_vectors", "svdval_threshold", "cumulative_energy",
         "residual_energy", "projection_error"]


def val(s, crit):
    return s.int("nv") if crit == "num_vectors" else s.flt("tol")


def check(ctx):
    for fam in common.bases(ctx):
        if fam.cls == "basis.LinearBasis":
            wl = fam.label.split("weights=")[1].split(",")[0]
            with ctx.case(fam.label, R) as s:
                coherent(s, ctx, fam, fam.build(s), wl, "as built",
                         sym("V", "arr", (s.dim("n"), s.dim("r"))))
    Fam = common.Fam
    fam = Fam("PODBasis", "basis.PODBasis", None)
    forms = dict(common.weights_forms())

    def new(s, crit, wl="none", **kw):
        return s.new("basis.PODBasis", **{crit: val(s, crit)},
                     weights=forms[wl](s), **kw)

    def X(s, tag="X"):
        return s.arr(tag, s.dim("n"), s.dim("k0"))
    solvers = [{}, {"max_vectors": 3}, {"svdsolver": "randomized",
                                        "max_vectors": 3, "random_state": 0},
               {"svdsolver": "eigh"},
               {"svdsolver": "method-of-snapshots", "minthresh": 1e-9},
               {"lapack_driver": "gesvd"}]
    for wl in forms:
        for crit in CRITS:
            for kw in solvers if crit in CRITS[:1] else solvers[:2]:
                if wl not in ("none", "vector") and (
                        crit not in CRITS[:3:2] or kw):
                    continue
                L = "PODBasis(%s, weights=%s%s)" % (crit, wl, "".join(
                    ", %s=%s" % x for x in kw.items()))
                with ctx.case(L + ", fit", RD) as s:
                    o = new(s, crit, wl, **kw)
                    s.call(o, "fit", X(s))
                    pod(s, ctx, fam, o, crit, val(s, crit), wl,
                        "after fit()")
                    if not wl == "none" or kw.get("svdsolver") in (
                            None,):
                        vectors(s, ctx, fam, o, wl, kw)
    for wl in ("none", "vector"):
        for crit in CRITS[::2]:
            L = "PODBasis(%s, weights=%s)" % (crit, wl)
            with ctx.case(L + ", fit, assign the dimension", RD) as s:
                o = new(s, crit, wl)
                s.call(o, "fit", X(s))
                s.set(o, "reduced_state_dimension", s.int("nv2"))
                pod(s, ctx, fam, o, "num_vectors", s.int("nv2"), wl,
                    "after assigning it")
            for c2 in CRITS:
                with ctx.case("%s, fit, set_dimension(%s)" % (L, c2),
                              RD) as s:
                    o = new(s, crit, wl)
                    s.call(o, "fit", X(s))
                    s.call(o, "set_dimension", **{c2: s.int("nv3") if c2 ==
                           "num_vectors" else s.flt("tol3")})
                    v3 = s.int("nv3") if c2 == "num_vectors" else \
                        s.flt("tol3")
                    pod(s, ctx, fam, o, c2, v3, wl, "after set_dimension()")
                    if wl == "none":
                        s.call(o, "fit", X(s, "X2"))
                        pod(s, ctx, fam, o, c2, v3, wl,
                            "after set_dimension() and another fit()")
                with ctx.case("%s, set_dimension(%s), fit" % (L, c2),
                              RD) as s:
                    if wl != "none":
                        continue
                    o = new(s, crit, wl)
                    v3 = s.int("nv3") if c2 == "num_vectors" else \
                        s.flt("tol3")
                    s.call(o, "set_dimension", **{c2: v3})
                    s.call(o, "fit", X(s))
                    pod(s, ctx, fam, o, c2, v3, wl,
                        "after set_dimension() and fit()")
            if wl == "none":
                with ctx.case(L + ", assign the dimension, fit", RD) as s:
                    o = new(s, crit, wl)
                    s.set(o, "reduced_state_dimension", s.int("nv2"))
                    s.same(RD, fam.where(ctx, "reduced_state_dimension"),
                           s.tget(o, "reduced_state_dimension"),
                           s.int("nv2"), note="dimension before fit()")
                    s.call(o, "fit", X(s))
                    pod(s, ctx, fam, o, "num_vectors", s.int("nv2"), wl,
                        "assigned before fit()")
    boundary(ctx, fam)
    snapshots(ctx)
    options(ctx, fam)
    factors(ctx, fam)
    multi(ctx)
    blocks(ctx)
    functions(ctx)


def snapshots(ctx):
    """the method of snapshots computes the (weighted) singular value
    decomposition"""
    f0 = "opinf.basis.method_of_snapshots"
    for wl in ("none", "vector", "matrix"):
        for kw in ({}, {"minthresh": 1e-9}):
            with ctx.case("method_of_snapshots(weights=%s%s)" % (
                    wl, "".join(", %s=%s" % x for x in kw.items())),
                    RV) as s:
                f = s.eng.lookup(f0)
                w = ctx.locate(f)
                n = s.dim("n")
                X = s.arr("X", n, s.dim("k0"))
                xt = s.term(X)
                if wl == "none":
                    W, root = None, xt
                elif wl == "vector":
                    W = s.arr("w", n)
                    root = rows(xt, tm.power(s.term(W), tm.div(
                        const(1), const(2))))
                else:
                    B = sym("B", "arr", (n, n))
                    root = tm.matmul(B, xt)
                    W = s.arrt(tm.matmul(tm.transpose(B), B))
                got = s.new(f, X, W, **kw) if W is not None else s.new(
                    f, X, **kw)
                V, sv, Wt = [s.term(x) for x in lst(s, got)]
                wx = lambda t: t if wl == "none" else (
                    rows(t, s.term(W)) if wl == "vector" else
                    tm.matmul(s.term(W), t))
                one = lambda d: s.term(ext(s, "np.eye", d))
                r = sv.shape[0]
                s.same(RV, w, tm.matmul(tm.transpose(V), wx(V)), one(r),
                       note="left vectors are orthonormal")
                s.same(RV, w, tm.matmul(Wt, tm.transpose(Wt)), one(r),
                       note="right vectors are orthonormal")
                s.same(RV, w, tm.mul(V, tm.reshape(sv, (const(1), r))),
                       tm.matmul(xt, tm.transpose(Wt)),
                       note="left vectors times singular values")
                S_ = s.term(ext(s, "la.svdvals", s.arrt(root)))
                s.same(RV, w, sv, tm.getitem(S_, (("s", None, r, None),)),
                       note="singular values")


def options(ctx, fam):
    """changing the SVD routine or its options affects the next fit only"""
    w = fam.where(ctx, "fit")
    kws = [("dense", {}), ("dense", {"lapack_driver": "gesvd"}),
           ("randomized", {"random_state": 0}),
           ("method-of-snapshots", {"minthresh": 1e-9})]
    q = lambda s: s.dim("k")
    for i, (a, ka) in enumerate(kws):
        for j, (b, kb) in enumerate(kws):
            with ctx.case("PODBasis: svdsolver %s%s, then %s%s" % (
                    a, "".join(" %s" % x for x in ka), b, "".join(
                        " %s" % x for x in kb)), RV) as s:
                X, X2 = [s.arr(x, s.dim("n"), s.dim("k0"))
                         for x in ("X", "X2")]
                o = s.new("basis.PODBasis", num_vectors=2, max_vectors=3,
                          svdsolver=a, **ka)
                s.call(o, "fit", X)
                d = s.get(o, "svdsolver_options")
                s.same(RV, w, const(s.len(d)), const(len(ka)),
                       note="number of solver options after fit()")
                s.set(o, "svdsolver", b)
                s.set(o, "svdsolver_options", dict(kb))
                s.call(o, "fit", X2)
                p = s.new("basis.PODBasis", num_vectors=2, max_vectors=3,
                          svdsolver=b, **kb)
                s.call(p, "fit", X2)
                for x in ("entries", "svdvals", "leftvecs", "rightvecs"):
                    s.same(RV, w, s.tget(o, x), s.tget(p, x), note=x)


def factors(ctx, fam):
    """a basis made of given factors remembers its options"""
    w = fam.where(ctx, "from_svd")
    for kw in ({}, {"max_vectors": 2}, {"max_vectors": 9}, {"weights": 1}):
        for right in (False, True):
            with ctx.case("PODBasis.from_svd(%s%s)" % (", ".join(kw), (
                    ", " if kw else "") + "right vectors" if right else ""),
                    RV) as s:
                k = dict(kw)
                if "weights" in k:
                    k["weights"] = s.arr("w", s.dim("n"))
                U, sv, V = s.arr("U", s.dim("n"), s.dim("d")), s.arr(
                    "sv", s.dim("d")), s.arr("V", s.dim("k0"), s.dim("d"))
                if right:
                    k["rightvecs"] = V
                o = s.call(s.cls("basis.PODBasis"), "from_svd", U, sv,
                           num_vectors=2, **k)
                k.pop("rightvecs", None)
                p = s.new("basis.PODBasis", num_vectors=2, **k)
                X = s.arr("X", s.dim("n"), s.dim("k0"))
                s.same(RV, w, s.tget(o, "name"), s.tget(p, "name"),
                       note="name")
                s.call(o, "fit", X)
                s.call(p, "fit", X)
                for x in ("entries", "svdvals", "leftvecs", "rightvecs",
                          "max_vectors"):
                    s.same(RV, w, s.tget(o, x), s.tget(p, x),
                           note=x + " after another fit()")


def vectors(s, ctx, fam, o, wl, kw):
    """the vectors are the (weighted) singular vectors of the data"""
    if kw.get("svdsolver") is not None or wl not in ("none", "vector"):
        return
    w = fam.where(ctx, "fit")
    q = s.term(s.arr("X", s.dim("n"), s.dim("k0")))
    root = None
    if wl == "vector":
        root = tm.power(s.term(s.arr("w", s.dim("n"))), tm.div(
            const(1), const(2)))
        q = rows(q, root)
    opts = {k: v for k, v in kw.items() if k == "lapack_driver"}
    U, S_, Vt = lst(s, ext(s, "la.svd", s.arrt(q), full_matrices=False,
                           **opts))
    U, S_, Vt = s.term(U), s.term(S_), s.term(Vt)
    if root is not None:
        U = rows(U, tm.div(const(1), root))
    L = s.tget(o, "leftvecs")
    keep = ("s", None, L.shape[1], None)
    s.same(RV, w, L, tm.getitem(U, (ALL, keep)), note="left vectors")
    s.same(RV, w, s.tget(o, "rightvecs"), tm.transpose(tm.getitem(
        Vt, (keep, ALL))), note="right vectors")
    s.same(RV, w, s.tget(o, "svdvals"), tm.div(S_, tm.getitem(
        S_, (("i", const(0)),))), note="normalized singular values")
    mv = kw.get("max_vectors")
    m = s.eng.term(s.st, ext(s, "builtins.min", s.dim("n"), s.dim("k0")))
    if mv is not None:
        m = tm.phi(tm.lt(m, const(mv)), m, const(mv))
    s.same(RV, w, L.shape[1], m, note="number of vectors kept")


def boundary(ctx, fam):
    """criteria at, below and above the exact energies of given singular
    values"""
    sv = [2, 2, 2, 1, 1, 1, 1]
    tot = sum(x * x for x in sv)
    en = [sum(x * x for x in sv[:i + 1]) / tot for i in range(len(sv))]

    def first(f):
        return min([i for i in range(1, 8) if f(en[i - 1])] + [7])
    cases = []
    for v in (0.25, 0.5, 0.6, 0.75, 0.8125, 0.9375, 1.0, 0.1):
        cases.append(("cumulative_energy", v, first(lambda e: e >= v)))
        cases.append(("residual_energy", v, first(lambda e: 1 - e <= v)))
    for v in (0.5, 0.25, 0.3, 0.75, 0.6):
        cases.append(("projection_error", v, first(
            lambda e: 1 - e <= v * v)))
    for v in (0.5, 0.4, 1.0, 0.6):
        cases.append(("svdval_threshold", v, len(
            [x for x in sv if x / 2 >= v])))
    for v in (1, 4, 7, 9):
        cases.append(("num_vectors", v, min(v, 7)))
    cases.append((None, None, 7))
    for crit, v, r in cases:
        for how in ("from_svd", "set_dimension", "constructor"):
            if crit is None and how != "from_svd":
                continue
            with ctx.case("given singular values, %s=%s by %s" % (
                    crit, v, how), RD) as s:
                U = s.arr("U", 9, 7)
                S_ = s.arrt(tm.array([const(x) for x in sv]))
                kw = {} if crit is None else {crit: v}
                if how == "from_svd":
                    o = s.new("basis.PODBasis.from_svd", U, S_, **kw)
                elif how == "set_dimension":
                    o = s.new("basis.PODBasis.from_svd", U, S_,
                              num_vectors=2)
                    s.call(o, "set_dimension", **kw)
                else:
                    Vt = s.arr("Vt", 7, s.dim("k0"))
                    o = s.new("basis.PODBasis", svdsolver=s.val(
                        given(s, U, S_, Vt)), **kw)
                    s.call(o, "fit", s.arr("X", 9, 7))
                s.same(RD, fam.where(ctx, "set_dimension"), s.tget(
                    o, "reduced_state_dimension"), const(r),
                    note="dimension for %s" % crit)


def given(s, U, S_, Vt):
    """a user-supplied SVD routine"""
    from ..values import PyFn, Tup
    return PyFn("svd", lambda e, st, a, k: Tup([U, S_, Vt]))


def multi(ctx):
    for fam in common.basis_composites(ctx):
        with ctx.case(fam.label, RM) as s:
            o = fam.build(s)
            if not fam.ready:
                fam.fit(s, o)
            bs = lst(s, s.get(o, "bases"))
            ns = [s.tget(b, "full_state_dimension") for b in bs]
            rs = [s.tget(b, "reduced_state_dimension") for b in bs]
            n, r = const(0), const(0)
            for a, b in zip(ns, rs):
                n, r = tm.add(n, a), tm.add(r, b)
            w = fam.where
            s.same(RM, w(ctx, "reduced_state_dimension"), s.tget(
                o, "reduced_state_dimension"), r)
            s.same(RM, w(ctx, "full_state_dimension"), s.tget(
                o, "full_state_dimension"), n)
            for x, d in zip(lst(s, s.get(o, "shape")), (n, r)):
                s.same(RM, w(ctx, "shape"), x, d)
            for shape in ((s.dim("k"),), ()):
                tail = (ALL,) * len(shape)
                q = s.term(s.arr("P%d" % len(shape), n, *shape))
                z = s.term(s.arr("R%d" % len(shape), r, *shape))
                cs, ds, ps = [], [], []
                i, j = const(0), const(0)
                for b, a, c in zip(bs, ns, rs):
                    i2, j2 = tm.add(i, a), tm.add(j, c)
                    qb = tm.getitem(q, (("s", i, i2, None),) + tail)
                    zb = tm.getitem(z, (("s", j, j2, None),) + tail)
                    cs.append(s.tcall(b, "compress", s.arrt(qb)))
                    ds.append(s.tcall(b, "decompress", s.arrt(zb)))
                    ps.append(s.tcall(b, "project", s.arrt(qb)))
                    i, j = i2, j2
                p = tm.concat(ps, 0)
                s.same(RM, w(ctx, "compress"), s.tcall(
                    o, "compress", s.arrt(q)), tm.concat(cs, 0))
                s.same(RM, w(ctx, "decompress"), s.tcall(
                    o, "decompress", s.arrt(z)), tm.concat(ds, 0))
                s.same(RM, w(ctx, "project"), s.tcall(
                    o, "project", s.arrt(q)), p)
                e = norm(s, tm.sub(q, p))
                s.same(RM, w(ctx, "projection_error"), s.tcall(
                    o, "projection_error", s.arrt(q)),
                    tm.div(e, norm(s, q)))
                s.same(RM, w(ctx, "projection_error"), s.tcall(
                    o, "projection_error", s.arrt(q), relative=False), e)
                if len(set(fam.sizes)) == 1:
                    locs = sym("locs", "idx", (s.dim("p"),))
                    j, ds = const(0), []
                    for b, c in zip(bs, rs):
                        j2 = tm.add(j, c)
                        zb = tm.getitem(z, (("s", j, j2, None),) + tail)
                        ds.append(s.tcall(b, "decompress", s.arrt(zb),
                                          locs=s.arrt(locs)))
                        j = j2
                    s.same(RM, w(ctx, "decompress"), s.tcall(
                        o, "decompress", s.arrt(z), locs=s.arrt(locs)),
                        tm.concat(ds, 0))


def blocks(ctx):
    """variables are found by index or name, and split in order"""
    w = lambda m: ctx.locate("basis.BasisMulti", m)
    for names in ((None, None, None), ("q", "c", "a"), ("b", None, "a")):
        with ctx.case("names %s, %s %s" % names, RM) as s:
            bs = [s.new("basis.LinearBasis", s.arr("V%d" % i, s.dim(
                "n%d" % i), s.dim("r%d" % i)), **({"name": x} if x else {}))
                for i, x in enumerate(names)]
            o = s.new("basis.BasisMulti", bs)
            s.same(RM, w("__len__"), const(s.len(o)), const(3), note="len()")
            for red in (False, True):
                szs = [s.term(s.dim("%s%d" % ("r" if red else "n", i)))
                       for i in range(3)]
                q = s.fork()
                tot = tm.add(tm.add(szs[0], szs[1]), szs[2])
                other = tm.add(tm.add(*[s.term(s.dim("%s%d" % (
                    "n" if red else "r", i))) for i in (0, 1)]),
                    s.term(s.dim("%s2" % ("n" if red else "r"))))
                q.st.learn(tm.eq(tot, other), False)
                X = q.arr("X", tot, q.dim("k"))
                xt = q.term(X)
                edge = [const(0)]
                for z in szs:
                    edge.append(tm.add(edge[-1], z))
                blk = [tm.getitem(xt, (("s", edge[i], edge[i + 1], None),))
                       for i in range(3)]
                parts = lst(q, q.call(o, "split", X))
                q.same(RM, w("split"), const(len(parts)), const(3),
                       note="number of parts")
                for i, p in enumerate(parts):
                    q.same(RM, w("split"), q.term(p), blk[i],
                           note="split()[%d]" % i)
                full = [x or "variable %d" % i for i, x in enumerate(names)]
                for i, x in enumerate(full):
                    for key in (i, x):
                        p = q.fork()
                        got = p.call(o, "get_var", key, X)
                        p.same(RM, w("get_var"), p.term(got), blk[i],
                               note="get_var(%r)" % key)
                        p = q.fork()
                        got = p.eng.meth(p.st, o, "__getitem__",
                                         [p.val(key)], {}).value
                        if got == bs[i]:
                            ctx.ok(RM, w("__getitem__"))
                        else:
                            ctx.bad(RM, w("__getitem__"),
                                    "[%r] is not part %d" % (key, i))


def functions(ctx):
    """pod_basis() and the dimension-selection functions"""
    mod = "opinf.basis."
    RF = "functions-agree-with-the-class"
    for crit in [None] + CRITS:
        for right in (False, True):
            with ctx.case("pod_basis(%s%s)" % (crit, ", right vectors" if
                                               right else ""), RF) as s:
                X = s.arr("X", s.dim("n"), s.dim("k0"))
                kw = {} if crit is None else {crit: val(s, crit)}
                f = s.eng.lookup(mod + "pod_basis")
                w = ctx.locate(f)
                got = lst(s, s.new(f, X, return_rightvecs=right, **kw))
                o = s.new("basis.PODBasis", **(kw or {
                    "num_vectors": s.term(s.done(s.run(
                        Ext("builtins.min"), s.dim("n"), s.dim("k0")),
                        "min", ""))}))
                s.call(o, "fit", X)
                want = [s.tget(o, "entries"), s.tget(o, "svdvals")]
                if right:
                    want.append(tm.getitem(s.tget(o, "rightvecs"), (ALL, (
                        "s", None, s.tget(o, "reduced_state_dimension"),
                        None))))
                for i, x in enumerate(want):
                    s.same(RF, w, got[i], x, note="result %d" % i)
    sv = [2, 1, 2, 1, 2, 1, 1]
    srt = sorted(sv, reverse=True)
    tot = sum(x * x for x in sv)
    en = [0] + [sum(x * x for x in srt[:i + 1]) / tot for i in range(7)]
    jobs = []
    for v in (0.25, 0.5, 0.6, 0.75, 0.8125, 0.9375, 1.0, 0.1):
        jobs.append(("cumulative_energy", v, {}, min(
            i for i in range(8) if en[i] >= v)))
        jobs.append(("residual_energy", v, {}, min(
            i for i in range(8) if 1 - en[i] <= v)))
    for v in (0.5, 0.25, 0.3, 0.75):
        jobs.append(("residual_energy", v, {"sqrt": True}, min(
            i for i in range(8) if 1 - en[i] <= v * v)))
    for v in (0.5, 0.4, 1.0, 0.6):
        jobs.append(("svdval_decay", v, {}, len(
            [x for x in sv if x / 2 > v])))
    for name, v, kw, r in jobs:
        for many in (False, True):
            with ctx.case("%s(threshold=%s%s%s)" % (
                    name, v, "".join(", %s=%s" % x for x in kw.items()),
                    ", as a list" if many else ""), RD) as s:
                f = s.eng.lookup(mod + name)
                got = s.new(f, s.arrt(tm.array([const(x) for x in sv])),
                            [v, 0.99] if many else v, plot=False, **kw)
                s.same(RD, ctx.locate(f), s.item(got, 0) if many else got,
                       const(r), note="number of vectors")
