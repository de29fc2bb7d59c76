"""Finite-difference estimates: exact on polynomials up to the documented
order, aligned with the state and input samples, and dropping exactly the
samples the stencil cannot reach."""
from ..extern import np_arange_t
from .common import tm, const, NONE, Ext

NAMES = (["fwd%d" % i for i in range(1, 7)] + ["bwd%d" % i for i in
         range(1, 7)] + ["ctr%d" % i for i in (2, 4, 6)] +
         ["ord%d" % i for i in (2, 4, 6)])


def times(s, k):
    """t0 + dt * (0, 1, ..., k-1)."""
    t0, dt = s.term(s.flt("t0")), s.term(s.flt("pm:dt"))
    j = np_arange_t(const(0), k, const(1))
    return t0, dt, tm.add(t0, tm.mul(dt, j))


def kept(name, t, k):
    order = int(name[3])
    lo, hi = {"fwd": (0, order), "bwd": (order, 0), "ctr": (
        order // 2, order // 2), "ord": (0, 0)}[name[:3]]
    return tm.getitem(t, (("s", const(lo) if lo else None, tm.sub(
        k, const(hi)) if hi else None, None),))


def powers(s, t, d):
    """Rows t^d, an arbitrary signal, t."""
    k = t.shape[0]
    rows = [tm.power(t, const(d)) if d else tm.add(
        tm.mul(const(0), t), const(1)), s.term(s.arr("x", k)), t]
    return rows, s.arrt(tm.concat([tm.reshape(r, (const(1), k))
                                   for r in rows], 0))


def slope(d, t):
    if d == 0:
        return tm.mul(const(0), t)
    return tm.mul(const(d), tm.power(t, const(d - 1)))


def aligned(s, ctx, where, outs, t, tau, d, inputs):
    """The three results against the retained times."""
    R = "exact-to-the-documented-order"
    A = "states-and-inputs-stay-aligned"
    Q, dQ = outs[:2]
    s.same(A, where, tm.getitem(Q, (("i", const(2)),)), tau, note="retained times")
    s.same(R, where, tm.getitem(dQ, (("i", const(0)),)), slope(d, tau),
           note="derivative of t^%d" % d)
    s.same(R, where, tm.getitem(dQ, (("i", const(2)),)), slope(1, tau),
           note="derivative of t")
    if inputs == "2-D":
        s.same(A, where, tm.getitem(outs[2], (("i", const(1)),)), tau,
               note="times of the retained inputs")
    elif inputs:
        u = outs[2]
        if len(u.shape) == 2:
            u = tm.getitem(u, (("i", const(0)),))
        s.same(A, where, u, tau, note="times of the retained inputs")


def inputs_of(s, t, kind):
    if kind is None:
        return NONE
    if kind == "1-D":
        return s.arrt(t)
    return s.arrt(tm.concat([tm.reshape(r, (const(1), t.shape[0])) for r in (
        s.term(s.arr("v", t.shape[0])), t)], 0))


def outs_of(s, ctx, val, n, where, what):
    m = s.term(s.len(val))
    s.same("results", where, m, const(n), note="number of results of " + what)
    return [s.term(s.item(val, i)) for i in range(n)]


def check(ctx):
    more(ctx)
    degrees = range(0, 7)
    for name in NAMES:
        order = int(name[3])
        ds = [d for d in degrees if d <= order]
        if not ctx.thorough:
            ds = sorted({0, 2, order} & set(ds) | {order})
        for d in ds:
            for kind in (None, "2-D", "1-D"):
                if kind == "1-D" and d != order:
                    continue
                lab = "%s of t^%d%s" % (name, d, ", inputs " + kind if kind
                                        else "")
                with ctx.case(lab, "function") as s:
                    k = tm.add(s.dim("k"), const(8))
                    t0, dt, t = times(s, k)
                    tau = kept(name, t, k)
                    rows, Q = powers(s, t, d)
                    args = [Q, dt] + ([inputs_of(s, t, kind)] if kind else [])
                    f = s.eng.lookup("opinf.ddt._finite_difference." + name)
                    w = ctx.locate(f)
                    v = s.done(s.run(f, *args), name + "()", w)
                    outs = outs_of(s, ctx, v, 3 if kind else 2, w, name)
                    aligned(s, ctx, w, outs, t, tau, d, kind)
                with ctx.case("UniformFiniteDifferencer, " + lab,
                              "estimator") as s:
                    k = tm.add(s.dim("k"), const(8))
                    t0, dt, t = times(s, k)
                    tau = kept(name, t, k)
                    rows, Q = powers(s, t, d)
                    E = s.new("ddt.UniformFiniteDifferencer", s.arrt(t), name)
                    estimated(s, ctx, E, rows, Q, t, tau, d, kind)


def estimated(s, ctx, E, rows, Q, t, tau, d, kind):
    w = ctx.locate(s.clsof(E), "estimate")
    args = [Q] + ([inputs_of(s, t, kind)] if kind else [])
    v = s.call(E, "estimate", *args)
    outs = outs_of(s, ctx, v, 3 if kind else 2, w, "estimate")
    aligned(s, ctx, w, outs, t, tau, d, kind)
    M = "mask-keeps-the-same-samples"
    w = ctx.locate(s.clsof(E), "mask")
    s.same(M, w, s.tcall(E, "mask", Q), outs[0], note="states")
    s.same(M, w, s.tcall(E, "mask", s.arrt(t)), tau, note="times")
    if kind == "2-D":
        s.same(M, w, s.tcall(E, "mask", args[1]), outs[2], note="inputs")


def more(ctx):
    """The array functions, non-uniform times, and interpolation."""
    R = "exact-to-the-documented-order"
    mod = "opinf.ddt._finite_difference."
    uni = [("ddt_uniform(order=%d)" % o, "ddt_uniform", (), {"order": o}, o)
           for o in (2, 4, 6)]
    uni += [("ddt_uniform(%d)" % o, "ddt_uniform", (o,), {}, o)
            for o in (4, 6)]
    uni += [("ddt_uniform", "ddt_uniform", (), {}, 2),
            ("ddt(dt)", "ddt", (), {}, 2),
            ("ddt(dt, 4)", "ddt", (4,), {}, 4),
            ("ddt(dt, order=6)", "ddt", (), {"order": 6}, 6),
            ("ddt(dt=)", "ddt", None, {}, 2),
            ("ddt(dt=, order=4)", "ddt", None, {"order": 4}, 4)]
    for lab, name, a, kw, order in uni:
        for d in range(order + 1):
            with ctx.case("%s of t^%d" % (lab, d), "function") as s:
                k = tm.add(s.dim("k"), const(8))
                t0, dt, t = times(s, k)
                rows, Q = powers(s, t, d)
                f = s.eng.lookup(mod + name)
                w = ctx.locate(f)
                if a is None:
                    o = s.run(f, Q, dt=dt, **kw)
                else:
                    o = s.run(f, Q, dt, *a, **kw)
                dQ = s.term(s.done(o, name + "()", w))
                s.same(R, w, tm.getitem(dQ, (("i", const(0)),)), slope(d, t),
                       note="derivative of t^%d" % d)
                s.same(R, w, tm.getitem(dQ, (("i", const(2)),)), slope(1, t),
                       note="derivative of t")
    for lab in ("ddt_nonuniform", "ddt(t)", "ddt(t=)",
                "NonuniformFiniteDifferencer"):
        for d in range(3):
            for kind in (None, "2-D", "1-D"):
                if kind and lab[0] == "d":
                    continue
                with ctx.case("%s of t^%d%s" % (
                        lab, d, ", inputs " + kind if kind else ""),
                        "function") as s:
                    k = tm.add(s.dim("k"), const(8))
                    t = s.term(s.arr("t", k))
                    rows, Q = powers(s, t, d)
                    if lab[0] == "N":
                        E = s.new("ddt." + lab, s.arrt(t))
                        estimated(s, ctx, E, rows, Q, t, t, d, kind)
                        continue
                    f = s.eng.lookup(mod + lab.split("(")[0])
                    w = ctx.locate(f)
                    o = s.run(f, Q, t=s.arrt(t)) if lab[-2] == "=" else \
                        s.run(f, Q, s.arrt(t))
                    dQ = s.term(s.done(o, lab, w))
                    s.same(R, w, tm.getitem(dQ, (("i", const(0)),)),
                           slope(d, t), note="derivative of t^%d" % d)
    interpolated(ctx)
    integers(ctx)
    uneven(ctx)


SPLINES = {"cubic": "CubicSpline", "akima": "Akima1DInterpolator",
           "pchip": "PchipInterpolator"}


def uneven(ctx):
    """uniform stencils are refused for times that are not uniform"""
    R = "uniform-stencils-need-uniform-times"
    for ts, good in (((0, 1, 2, 3, 4), True), ((0, -1, -2, -3, -4), True),
                     ((5, 7, 9, 11, 13), True),
                     ((0, 1, 2, 3, 5), False), ((0, 2, 3, 4, 5), False),
                     ((0, 1, 2, 4, 5), False), ((0, 1, 0, 1, 0), False),
                     ((0, 1, 2, 3, 2), False), ((0, 1, 3, 4, 5), False)):
        for name in NAMES[::4]:
            with ctx.case("UniformFiniteDifferencer, %s, times %s" % (
                    name, ts), R) as s:
                t = s.arrt(tm.array([const(x) for x in ts]))
                C = s.cls("ddt.UniformFiniteDifferencer")
                w = ctx.locate(C, "__init__")
                o = s.run(C, t, name)
                if good:
                    s.done(o, "UniformFiniteDifferencer()", w)
                    ctx.ok(R, w)
                else:
                    s.must_raise(R, w, o, ("ValueError",),
                                 "UniformFiniteDifferencer()")


def integers(ctx):
    """Integer snapshots have the derivatives of the same real snapshots."""
    R = "integer-snapshots"
    for name in NAMES:
        with ctx.case(name, R) as s:
            k = tm.add(s.dim("k"), const(8))
            dt, Q = s.flt("dt"), s.iarr("Q", s.dim("r"), k)
            f = s.eng.lookup("opinf.ddt._finite_difference." + name)
            w = ctx.locate(f)
            one = s.term(s.item(s.done(s.run(f, Q, dt), name, w), 1))
            two = s.term(s.item(s.done(s.run(f, s.arrt(s.term(Q)), dt), name,
                                       w), 1))
            s.same(R, w, one, two, note="derivatives")
    for name in ("ord2", "ord4", "ord6"):
        with ctx.case("UniformFiniteDifferencer, " + name, R) as s:
            k = tm.add(s.dim("k"), const(8))
            Q, t = s.iarr("Q", s.dim("r"), k), s.arrt(times(s, k)[2])
            E = s.new("ddt.UniformFiniteDifferencer", t, name)
            w = ctx.locate(s.clsof(E), "estimate")
            one = s.term(s.item(s.call(E, "estimate", Q), 1))
            two = s.term(s.item(s.call(E, "estimate", s.arrt(s.term(Q))), 1))
            s.same(R, w, one, two, note="derivatives")


def interpolated(ctx):
    R, A = "derivative-of-the-interpolant", "states-and-inputs-stay-aligned"
    forms = [(n, n, {}) for n in SPLINES] + [("default", "cubic", {})]
    forms += [("cubic with a boundary condition", "cubic",
               {"bc_type": "clamped"})]
    for lab, n, opts in forms:
        for new in (False, True):
            for kind in (None, "2-D", "1-D"):
                with ctx.case("InterpDerivativeEstimator, %s%s%s" % (
                        lab, ", new times" if new else "",
                        ", inputs " + kind if kind else ""), R) as s:
                    k, r = s.dim("k"), s.dim("r")
                    t, Q = s.arr("t", k), s.arr("Q", r, k)
                    U = s.arr("U", *((s.dim("m"), k) if kind == "2-D"
                                     else (k,)))
                    args = [t] + ([] if lab == "default" else [n])
                    kw = dict(opts)
                    if new:
                        kw["new_time_domain"] = s.arr("t2", s.dim("k2"))
                    E = s.new("ddt.InterpDerivativeEstimator", *args, **kw)
                    c = s.clsof(E)
                    w = ctx.locate(c, "estimate")
                    v = s.call(E, "estimate", Q, *([U] if kind else []))
                    outs = outs_of(s, ctx, v, 3 if kind else 2, w,
                                   "estimate")
                    IC = Ext("spinterp." + SPLINES[n])
                    at = kw.get("new_time_domain", t)

                    def fit(y, *nu):
                        f = s.run(IC, t, y, axis=const(1), **opts).value
                        o = s.run(f, at, *[const(i) for i in nu])
                        return s.term(o.value)
                    s.same(R, w, outs[1], fit(Q, 1), note="derivatives")
                    s.same(A, w, outs[0], fit(Q) if new else s.term(Q),
                           note="states")
                    M = "mask-keeps-the-same-samples"
                    wm = ctx.locate(c, "mask")
                    s.same(M, wm, s.tcall(E, "mask", Q), outs[0],
                           note="states")
                    if kind:
                        u = s.term(U)
                        if kind == "1-D":
                            u = tm.reshape(u, (const(1), k))
                        u = s.arrt(u)
                        s.same(A, w, outs[2], fit(u) if new else s.term(u),
                               note="inputs")
                        s.same(M, wm, s.tcall(E, "mask", u), outs[2],
                               note="inputs")
