"""Models move along their own right-hand side."""
from . import ops, models
from .c14 import stencil, jac_times
from .c12 import lst
from .common import tm, const, NONE, Ext
from ..values import PyFn

R_ = models.R_


def oplist(s, o):
    return lst(s, s.get(o, "operators"))


def is_param(s, op):
    return s.ctx.eng.class_lookup(s.clsof(op), "evaluate") is not None


def summed(s, o, mu, q, u, what="apply"):
    """sum over the operators of apply() or jacobian() at one state"""
    t = const(0)
    for op in oplist(s, o):
        a = [mu] if is_param(s, op) else []
        t = tm.add(t, s.tcall(op, what, *a, s.arrt(q), NONE if u is None
                              else s.arrt(u)))
    return t


def rhs_args(s, f, mu, t, q, u, form="function"):
    """arguments of rhs() and jacobian()"""
    if f.kind == "Discrete":
        return ([mu] if f.parametric else []) + [s.arrt(q)] + (
            [s.arrt(u)] if u is not None else [])
    a = [t] + ([mu] if f.parametric else []) + [s.arrt(q)]
    if u is not None:
        a.append(inputs_at(s, u))
    return a


def inputs_at(s, u):
    """a function of time with value u(t)"""
    def f(eng, st, args, kwargs):
        t = eng.term(st, args[0])
        return eng.wrap(st, tm.mul(u, tm.add(const(1), t)))
    return PyFn("u(t)", f)


def value_at(u, t):
    return None if u is None else tm.mul(u, tm.add(const(1), t))


def rhs_is_sum(ctx, f):
    R = "rhs-is-the-sum-of-the-operators"
    c = ctx.eng.lookup("opinf." + f.cls)
    with ctx.case(f.label, R) as s:
        o = f.build(s)
        if f.fit:
            f.fit(s, o)
        inp = models.has_input(f.mix)
        mu, t = s.flt("mu"), s.flt("t")
        q, v = s.term(ops.state(s, R_)), s.term(ops.state(s, R_, None, "v"))
        u = s.term(ops.input_(s, models.M_)) if inp else None
        ut = u if f.kind == "Discrete" else value_at(u, t)
        a = rhs_args(s, f, mu, t, q, u)
        s.same(R, ctx.locate(c, "rhs"), s.tcall(o, "rhs", *a),
               summed(s, o, mu, q, ut))
        w = ctx.locate(c, "jacobian")
        J = s.tcall(o, "jacobian", *a)
        s.same("jacobian-is-the-derivative-of-rhs", w, jac_times(s, J, v),
               stencil(lambda x: summed(s, o, mu, x, ut), q, v))
        for d in (0, 1):
            s.same("jacobian-is-the-derivative-of-rhs", w, J.shape[d],
                   const(R_), note="shape")


def column(t, j):
    return tm.getitem(t, (("s", None, None, None), ("i", const(j))))


def discrete(ctx, f, n, extra):
    R = "prediction-iterates-rhs"
    c = ctx.eng.lookup("opinf." + f.cls)
    inp = models.has_input(f.mix)
    with ctx.case("%s, %d steps%s" % (f.label, n, ", more inputs than needed"
                                      if extra else ""), R) as s:
        o = f.build(s)
        if f.fit:
            f.fit(s, o)
        mu, q0 = s.flt("mu"), s.arr("q0", R_)
        a = ([mu] if f.parametric else []) + [q0, n]
        U = None
        if inp:
            U = s.arr("U", models.M_, n - 1 + extra)
            a.append(U)
            U = s.term(U)
        y = s.tcall(o, "predict", *a)
        w = ctx.locate(c, "predict")
        s.same(R, w, y.shape[0], const(R_), note="rows")
        s.same(R, w, y.shape[1], const(n), note="columns")
        x = s.term(q0)
        for j in range(n):
            s.same(R, w, column(y, j), x, note="state %d" % j)
            if j < n - 1:
                x = s.tcall(o, "rhs", *rhs_args(
                    s, f, mu, None, x, column(U, j) if inp else None))


def paired(ctx, f):
    """Without separate left-hand sides a trajectory trains one step maps."""
    R = "training-pairs-each-state-with-the-next"
    c = ctx.eng.lookup("opinf." + f.cls)
    inp = models.has_input(f.mix)
    with ctx.case(f.label, R) as s:
        res = []
        n = models.N_ if f.parametric else 1
        k = [tm.add(s.dim("k%d" % i), const(2)) for i in range(n)]
        Q = [s.term(s.arr("Q%d" % i, R_, k[i])) for i in range(n)]
        U = [s.term(s.arr("U%d" % i, models.M_, k[i])) for i in range(n)]
        head, tail = ("s", None, const(-1), None), ("s", const(1), None, None)
        every = ("s", None, None, None)
        for way in range(2 + (inp and 1)):
            o = f.build(s)
            if way:
                qs = [tm.getitem(x, (every, head)) for x in Q]
                zs = [tm.getitem(x, (every, tail)) for x in Q]
                us = [tm.getitem(x, (every, head)) for x in U]
            else:
                qs, zs, us = Q, None, U
            if way == 2:
                us = U

            def pack(xs):
                xs = [s.arrt(x) for x in xs]
                return xs if f.parametric else xs[0]
            a = [s.arr("mus", n)] if f.parametric else []
            a.append(pack(qs))
            if zs is not None:
                a.append(pack(zs))
            kw = {"inputs": pack(us)} if inp else {}
            s.call(o, "fit", *a, **kw)
            res.append([s.tget(op, "entries") for op in oplist(s, o)])
        for other in res[1:]:
            for i, (x, y) in enumerate(zip(res[0], other)):
                s.same(R, ctx.locate(c, "fit"), x, y,
                       note="entries of operator %d" % i)


def stacked(ctx):
    R = "training-pairs-each-state-with-the-next"
    c = ctx.eng.lookup("opinf.models.DiscreteModel")
    for n in (1, 2, 3):
        for nd in (None, 1, 2):
            with ctx.case("stack_trajectories of %d%s" % (
                    n, "" if nd is None else ", %d-D inputs" % nd), R) as s:
                w = ctx.locate(c, "stack_trajectories")
                k = [tm.add(s.dim("k%d" % i), const(2)) for i in range(n)]
                Q = [s.arr("Q%d" % i, R_, k[i]) for i in range(n)]
                sh = (lambda i: (models.M_, k[i])) if nd == 2 else (
                    lambda i: (k[i],))
                U = [s.arr("U%d" % i, *sh(i)) for i in range(n)]
                v = s.call(c, "stack_trajectories", Q,
                           *([U] if nd else []))
                out = [s.term(x) for x in lst(s, v)]
                every = ("s", None, None, None)
                head = ("s", None, const(-1), None)
                tail = ("s", const(1), None, None)
                s.same(R, w, const(len(out)), const(3 if nd else 2),
                       note="number of results")
                s.same(R, w, out[0], tm.concat([tm.getitem(
                    s.term(x), (every, head)) for x in Q], 1), note="states")
                s.same(R, w, out[1], tm.concat([tm.getitem(
                    s.term(x), (every, tail)) for x in Q], 1),
                    note="next states")
                if nd:
                    s.same(R, w, out[2], tm.concat([tm.getitem(
                        s.term(x), (every, head) if nd == 2 else (head,))
                        for x in U], nd - 1), note="inputs")


METHODS = [None, "RK45", "BDF", "Radau", "LSODA"]


def continuous(ctx, f, method, form):
    R = "prediction-integrates-rhs"
    c = ctx.eng.lookup("opinf." + f.cls)
    inp = models.has_input(f.mix)
    with ctx.case("%s, method=%s%s" % (f.label, method, ", inputs: " + form
                                       if form else ""), R) as s:
        o = f.build(s)
        if f.fit:
            f.fit(s, o)
        w = ctx.locate(c, "predict")
        nt = tm.add(s.dim("nt"), const(2))
        mu, q0, t = s.flt("mu"), s.arr("q0", R_), s.arr("t", nt)
        a = ([mu] if f.parametric else []) + [q0, t]
        u = s.term(s.arr("u", models.M_)) if inp else None
        U = s.arr("U", models.M_, nt) if form == "array" else None
        if inp:
            a.append(U if form == "array" else inputs_at(s, u))
        kw = {"rtol": s.flt("rtol"), "max_step": s.flt("max_step")}
        if method:
            kw["method"] = method
        n0 = len(ctx.eng.events)
        y = s.tcall(o, "predict", *a, **kw)
        evs = [e for e in ctx.eng.events[n0:] if e.kind == "solve_ivp"]
        if len(evs) != 1:
            if not evs:
                ctx.bad(R, w, "predict() never integrates")
            else:
                ctx.undec(R, w, "several integrations")
            return
        k = dict(evs[0].kwargs)
        T = s.term
        s.same(R, w, y, T(s.get(evs[0].result, "y")),
               note="the computed solution")
        span = s.term(k["t_span"])
        tt = s.term(t)
        for i, x in ((0, const(0)), (1, tm.sub(nt, const(1)))):
            s.same(R, w, T(s.item(k["t_span"], i)), tm.getitem(
                tt, (("i", x),)), note="interval of integration")
        s.same(R, w, T(k["y0"]), s.term(q0), note="initial state")
        s.same(R, w, T(k["t_eval"]) if "t_eval" in k else NONE, tt,
               note="times of the solution")
        for n in ("rtol", "max_step") + (("method",) if method else ()):
            s.same(R, w, T(k[n]) if n in k else NONE, s.term(s.val(kw[n])),
                   note="option " + n)
        x, v, tau = (s.term(ops.state(s, R_, None, "x")),
                     s.term(ops.state(s, R_, None, "v")), s.flt("tau"))
        extra = lst(s, k["args"]) if "args" in k and k["args"] is not NONE \
            else []
        ut = value_at(u, tau)
        if form == "array":
            ut = spline(s, t, U, tau)
        got = s.done(s.run(k["fun"], tau, s.arrt(x), *extra),
                     "the integrated function", w)
        s.same(R, w, T(got), summed(s, o, mu, x, ut), note="integrated "
               "function")
        if "jac" in k and k["jac"] is not NONE:
            J = T(s.done(s.run(k["jac"], tau, s.arrt(x), *extra),
                         "the Jacobian", w))
            s.same(R, w, jac_times(s, J, v), stencil(
                lambda z: summed(s, o, mu, z, ut), x, v),
                note="Jacobian given to the integrator")


def spline(s, t, U, tau):
    """the documented interpolation of sampled inputs at time tau"""
    f = s.run(Ext("spinterp.CubicSpline"), t, U, axis=const(1)).value
    return s.term(s.run(f, tau).value)


def check(ctx):
    fams = models.mono_fams(ctx) + models.param_fams(ctx)
    for f in fams:
        rhs_is_sum(ctx, f)
        inp = models.has_input(f.mix)
        if f.kind == "Discrete":
            for n in ((1, 2, 4) + ((3, 6) if ctx.thorough else ())):
                for extra in ((0, 3) if inp else (0,)):
                    discrete(ctx, f, n, extra)
            if f.pattern in ("free", "first given"):
                paired(ctx, f)
        else:
            for method in METHODS:
                for form in (("function", "array") if inp else (None,)):
                    if method is None or f.pattern == "given" or \
                            ctx.thorough:
                        continuous(ctx, f, method, form)
    stacked(ctx)
    integers(ctx, fams)
    saved = models.M_
    models.M_ = 1
    try:
        for f in models.mono_fams(ctx) + models.param_fams(ctx):
            if models.has_input(f.mix) and f.pattern in (
                    "given", "last given"):
                single(ctx, f)
    finally:
        models.M_ = saved


def integers(ctx, fams):
    """Integer states are states."""
    R = "integer-states"
    for f in fams:
        if f.pattern != "given":
            continue
        with ctx.case(f.label, R) as s:
            c = ctx.eng.lookup("opinf." + f.cls)
            o = f.build(s)
            u = s.term(ops.input_(s, models.M_)) if models.has_input(
                f.mix) else None
            q = s.iarr("q", R_)
            for m in ("rhs", "jacobian"):
                a = rhs_args(s, f, s.flt("mu"), s.flt("t"), s.term(q), u)
                i = 1 if f.kind == "Continuous" else 0
                i += bool(f.parametric)
                want = s.tcall(o, m, *a)
                got = s.tcall(o, m, *(a[:i] + [q] + a[i + 1:]))
                s.same(R, ctx.locate(c, m), got, want, note=m)


def single(ctx, f):
    """One input may be given without its axis."""
    R = "single-input"
    c = ctx.eng.lookup("opinf." + f.cls)
    w = ctx.locate(c, "predict")
    with ctx.case(f.label, R) as s:
        k = s.dim("k")
        n = models.N_ if f.parametric else 1
        u = [s.term(s.arr("U%d" % i, k)) for i in range(n)]
        mu = [s.flt("mu")] if f.parametric else []
        objs = []
        for flat in (True, False):
            o = f.build(s)
            objs.append(o)
            if f.fit:
                ins = [s.arrt(x if flat else tm.reshape(x, (const(1), k)))
                       for x in u]
                qs = [s.arr("Q%d" % i, R_, k) for i in range(n)]
                zs = [s.arr("Z%d" % i, R_, k) for i in range(n)]
                if f.parametric:
                    s.call(o, "fit", s.arr("mus", n), qs, zs, inputs=ins)
                else:
                    s.call(o, "fit", qs[0], zs[0], inputs=ins[0])
        for i, (x, y) in enumerate(zip(*[oplist(s, o) for o in objs])):
            s.same(R, ctx.locate(c, "fit"), s.tget(x, "entries"),
                   s.tget(y, "entries"), note="operator %d" % i)
        o = objs[1]
        q0 = s.arr("q0", R_)
        if f.kind == "Discrete":
            v = s.term(s.arr("V", 4))
            one, two = [s.tcall(o, "predict", *mu, q0, 4, s.arrt(x)) for x in
                        (v, tm.reshape(v, (const(1), const(4))))]
            s.same(R, w, one, two, note="prediction")
            return
        nt = tm.add(s.dim("nt"), const(2))
        t, v = s.arr("t", nt), s.term(s.arr("V", nt))
        g = s.flt("g")
        x, tau = s.arr("x", R_), s.flt("tau")

        def scalar(eng, st, args, kwargs):
            return tm.mul(g, tm.add(const(1), eng.term(st, args[0])))

        def array(eng, st, args, kwargs):
            return eng.wrap(st, tm.reshape(scalar(eng, st, args, kwargs),
                                           (const(1),)))
        for forms in ((s.arrt(v), s.arrt(tm.reshape(v, (const(1), nt)))),
                      (PyFn("g", scalar), PyFn("g", array))):
            got = []
            for form in forms:
                n0 = len(ctx.eng.events)
                s.call(o, "predict", *mu, q0, t, form)
                ev = [e for e in ctx.eng.events[n0:] if
                      e.kind == "solve_ivp"]
                if len(ev) != 1:
                    ctx.undec(R, w, "%d integrations" % len(ev))
                    return
                kw = ev[0].kwargs
                extra = lst(s, kw["args"]) if "args" in kw and \
                    kw["args"] is not NONE else []
                got.append(s.term(s.done(s.run(
                    kw["fun"], tau, x, *extra), "the integrated function",
                    w)))
            s.same(R, w, got[0], got[1], note="integrated function")
