"""Parametric operators and models evaluate to what they describe."""
from . import ops
from .common import tm, const, NONE
from ..terms import mk
from ..values import PyFn, Arr, Ext
from .. import extern


def user_interp(s):
    """an interpolator class supplied by the user: any function of the
    training parameters, the entries and the point of evaluation"""
    def cls(eng, st, args, kwargs):
        p, v = [extern.arr_term(eng, st, a) for a in args[:2]]

        def ev(eng, st, a, k):
            mu = extern.arr_term(eng, st, a[0])
            sh = v.shape[1:] if v.shape is not None else None
            return eng.alloc(st, Arr(mk("userinterp", p, v, mu, kind="arr",
                                        shape=sh)))
        return PyFn(mk("userinterpolator", p, v), ev)
    return PyFn("UserInterpolator", cls)


def linear_interp(n):
    """an interpolator class that is linear in the entries, as any
    interpolation that commutes with a projection is"""
    def cls(eng, st, args, kwargs):
        p, v = [extern.arr_term(eng, st, a) for a in args[:2]]

        def ev(eng, st, a, k):
            mu = extern.arr_term(eng, st, a[0])
            wt = mk("interpweights", p, mu, kind="arr", shape=(const(n),))
            out = None
            for i in range(n):
                at = (("i", const(i)),)
                x = tm.mul(tm.getitem(wt, at), tm.getitem(v, at))
                out = x if out is None else tm.add(out, x)
            return eng.alloc(st, Arr(out))
        return PyFn(mk("linearinterpolator", p, v), ev)
    return PyFn("LinearInterpolator", cls)


def coefs(s, how, mu, n):
    mu = s.term(mu)
    if how == "int":
        return [tm.getitem(mu, (("i", const(i)),)) for i in range(n)]
    if how == "fn":
        t = mk("theta", mu, kind="arr", shape=(const(n),))
        return [tm.getitem(t, (("i", const(i)),)) for i in range(n)]
    return [mk("theta%d" % i, mu, kind="float", shape=()) for i in range(n)]


def expected(s, kind, how, E, mu, params, n):
    """entries of the operator at mu"""
    if kind == "Affine":
        out = None
        for c, e in zip(coefs(s, how, mu, n), E):
            x = tm.mul(c, e)
            out = x if out is None else tm.add(out, x)
        return out
    V = tm.array(list(E))
    m = s.term(mu)
    if how in ("1-D", "1-D user") and m.shape != ():
        m = tm.getitem(m, (("i", const(0)),))
    if how.endswith("user"):
        return mk("userinterp", params, V, m, kind="arr",
                  shape=V.shape[1:])
    out = s.term(extern.interp_value(
        s.eng, s.st, "CubicSpline" if how == "1-D" else
        "LinearNDInterpolator", 0, params, V, m, [const("nu"), const(0)]))
    if how == "2-D":
        out = tm.getitem(out, (("i", const(0)),))
    return out


def grid(ctx):
    for nm in ops.PARAM:
        cls = nm + "Operator"
        m = 2 if "Input" in nm else None
        for r in (1, 2) if not ctx.thorough else (1, 2, 3):
            for kind, hows in (("Affine", ("int", "fn", "list")),
                               ("Interp", ("1-D", "2-D", "1-D user",
                                           "2-D user"))):
                for how in hows:
                    for n in (3,) if not ctx.thorough or kind == "Interp" \
                            else (1, 2, 3, 4):
                        yield cls, r, m, kind, how, n


def make(s, kind, cls, r, m, how, n, tag="E"):
    """(operator, entries, parameters)"""
    if kind == "Affine":
        op = ops.build_param(s, kind, cls, r, m, how, tag, n)
        E = [s.term(ops.entries(s, cls, r, m, "%s%d" % (tag, i)))
             for i in range(n)]
        return op, E, None
    E = [s.term(ops.entries(s, cls, r, m, "%s%d" % (tag, i)))
         for i in range(n)]
    mus = s.arr("mus", n) if how.startswith("1") else s.arr("mus", n, 2)
    kw = {}
    if how.endswith("user"):
        kw["InterpolatorClass"] = user_interp(s)
    op = s.new("operators.Interp" + cls, mus, entries=[
        s.arrt(e) for e in E], **kw)
    return op, E, s.term(mus)


def points(s, kind, how, n):
    if kind == "Affine":
        return [s.arr("mu", n)] if how == "int" else [
            s.flt("mu"), s.arr("muv", 2)]
    return [s.flt("mu"), s.arr("muv", 1)] if how.startswith("1") else [
        s.arr("mu", 2)]


def check(ctx):
    R = "evaluate"
    for cls, r, m, kind, how, n in grid(ctx):
        w = ctx.locate(ctx.eng.lookup("opinf.operators.%s%s" % (kind, cls)),
                       "evaluate")
        for j in range(2):
            with ctx.case("%s%s(%s,%d terms) r=%s point %d" % (
                    kind, cls, how, n, r, j), R) as s:
                op, E, params = make(s, kind, cls, r, m, how, n)
                pts = points(s, kind, how, n)
                if j >= len(pts):
                    continue
                mu = pts[j]
                got = s.call(op, "evaluate", mu)
                want = expected(s, kind, how, E, mu, params, n)
                s.same(R, w, const(ops.cls_name(s, got)), const(cls),
                       note="class")
                ref = s.new("operators." + cls, s.arrt(want))
                s.same(R, w, s.tget(got, "entries"), s.tget(ref, "entries"),
                       note="entries")
                q = ops.state(s, r)
                a = [] if m is None else [ops.input_(s, m)]
                for mt in ("apply", "jacobian"):
                    # the base class documents jacobian(parameter, q, u)
                    s.same(R, ctx.locate(s.clsof(op), mt),
                           s.tcall(op, mt, mu, q, *a),
                           s.tcall(ref, mt, q, *(a or [NONE])), note=mt)
                # evaluating does not change the operator
                for e, x in zip(E, entries_of(s, op, n)):
                    s.same(R, w, x, s.tget(s.new(
                        "operators." + cls, s.arrt(e)), "entries"),
                        note="entries afterwards")
                # new entries are used from then on
                E2 = [s.term(ops.entries(s, cls, r, m, "F%d" % i))
                      for i in range(n)]
                if kind == "Interp" and ctx.label.endswith("point 0"):
                    s.call(op, "_clear")
                    s.call(op, "set_training_parameters",
                           s.arrt(params))
                s.call(op, "set_entries", [s.arrt(e) for e in E2])
                want = expected(s, kind, how, E2, mu, params, n)
                got = s.call(op, "evaluate", mu)
                ref = s.new("operators." + cls, s.arrt(want))
                s.same(R, w, s.tget(got, "entries"), s.tget(ref, "entries"),
                       note="entries after set_entries")
    forms(ctx)
    blocks(ctx)
    models(ctx)


def forms(ctx):
    """Ways of giving an interpolated or affine operator its parameters,
    entries and interpolator that make no difference."""
    R = "construction"
    for nm in ops.PARAM:
        cls = nm + "Operator"
        m = 2 if "Input" in nm else None
        r, n = 2, 3
        C = ctx.eng.lookup("opinf.operators.Interp" + cls)
        w = ctx.locate(C, "set_training_parameters")
        with ctx.case("Interp%s, column of parameters" % cls, R) as s:
            op, E, p = make(s, "Interp", cls, r, m, "1-D", n)
            col = s.new("operators.Interp" + cls, s.arrt(tm.col(p)),
                        entries=[s.arrt(e) for e in E])
            lst = s.new("operators.Interp" + cls, [
                s.arrt(tm.getitem(p, (("i", const(i)),)))
                for i in range(n)], entries=[s.arrt(e) for e in E])
            for o in (col, lst):
                for mu in (s.flt("mu"), s.arr("muv", 1)):
                    s.same(R, w, s.tget(s.call(o, "evaluate", mu),
                                        "entries"),
                           s.tget(s.call(op, "evaluate", mu), "entries"))
                s.same(R, w, s.tget(o, "parameter_dimension"), const(1),
                       note="parameter_dimension")
        with ctx.case("Interp%s, interpolator before the entries" % cls,
                      R) as s:
            for how in ("1-D", "2-D"):
                op, E, p = make(s, "Interp", cls, r, m, how + " user", n)
                o2 = s.new("operators.Interp" + cls, s.arrt(p))
                # the first call reads the class in "make" again
                s.call(o2, "set_interpolator", user_interp(s))
                s.call(o2, "set_entries", [s.arrt(e) for e in E])
                mu = points(s, "Interp", how, n)[0]
                s.same(R, ctx.locate(C, "set_interpolator"),
                       s.tget(s.call(o2, "evaluate", mu), "entries"),
                       s.tget(s.call(op, "evaluate", mu), "entries"))
                o3 = s.new("operators.Interp" + cls, s.arrt(p),
                           entries=[s.arrt(e) for e in E])
                s.call(o3, "set_interpolator", user_interp(s))
                s.same(R, ctx.locate(C, "set_interpolator"),
                       s.tget(s.call(o3, "evaluate", mu), "entries"),
                       s.tget(s.call(op, "evaluate", mu), "entries"))
        A = ctx.eng.lookup("opinf.operators.Affine" + cls)
        with ctx.case("Affine%s, number of coefficients" % cls, R) as s:
            op = ops.build_param(s, "Affine", cls, r, m, "int", n=n)
            s.same(R, ctx.locate(A, "__init__"),
                   s.tget(op, "parameter_dimension"), const(n),
                   note="parameter_dimension")


def entries_of(s, op, n):
    e = s.tget(op, "entries")
    if e.op == "list":
        return list(e.args)
    return [tm.getitem(e, (("i", const(i)),)) for i in range(n)]


def blocks(ctx):
    """one matrix holding every term side by side describes the same
    operator as the list of terms"""
    R = "block-entries"
    for cls, r, m, kind, how, n in grid(ctx):
        if how in ("list", "1-D user", "2-D user") or r == 1:
            continue
        for r in (2, 3):
            block(ctx, R, cls, r, m, kind, how, n)


def block(ctx, R, cls, r, m, kind, how, n):
    if True:
        w = ctx.locate(ctx.eng.lookup("opinf.operators.%s%s" % (kind, cls)),
                       "set_entries")
        with ctx.case("%s%s(%s,%d) r=%d block" % (
                kind, cls, how, n, r), R) as s:
            op, E, params = make(s, kind, cls, r, m, how, n)
            cols = [e if len(e.shape) == 2 else tm.col(e) for e in E]
            B = tm.concat(cols, 1)
            o2 = ops.build_param(s, kind, cls, r, m, how, n=n, ent=False)
            s.call(o2, "set_entries", s.arrt(B), fromblock=True)
            for x, y in zip(entries_of(s, o2, n), entries_of(s, op, n)):
                s.same(R, w, x, y)


MIXES = [("Constant", "Linear"), ("Linear", "Quadratic", "Input"),
         ("Cubic", "StateInput", "Linear"), ("Quadratic", "Constant"),
         ("Input", "Linear", "StateInput")]


def models(ctx):
    R = "model-evaluate"
    r, m, n = 2, 2, 3
    for kindm in ("Discrete", "Continuous"):
        for mix in MIXES:
            for pat in range(4):
                with ctx.case("Parametric%sModel(%s) pattern %d" % (
                        kindm, "+".join(mix), pat), R) as s:
                    mu = s.flt("mu")
                    built, ref = [], []
                    for j, nm in enumerate(mix):
                        cls = nm + "Operator"
                        mm = m if "Input" in nm else None
                        k = (j + pat) % 3 if pat < 3 else 1 + j % 2
                        if k == 0:
                            o = ops.build(s, cls, r, mm, "P%d" % j)
                            built.append(o)
                            ref.append((cls, s.tget(o, "entries"), o))
                            continue
                        kind, how = (("Affine", "fn"), ("Interp", "1-D"))[
                            k - 1]
                        o, E, p = make(s, kind, cls, r, mm, how, n,
                                       "E%d" % j)
                        built.append(o)
                        want = expected(s, kind, how, E, mu, p, n)
                        ro = s.new("operators." + cls, s.arrt(want))
                        ref.append((cls, s.tget(ro, "entries"), ro))
                    evaluate_model(ctx, s, R, "Parametric%sModel" % kindm,
                                   built, ref, mu, r, m, kindm)
            with ctx.case("Interp%sModel(%s)" % (kindm, "+".join(mix)),
                          R) as s:
                mu = s.flt("mu")
                built, ref = [], []
                for j, nm in enumerate(mix):
                    cls = nm + "Operator"
                    mm = m if "Input" in nm else None
                    o, E, p = make(s, "Interp", cls, r, mm, "1-D", n,
                                   "E%d" % j)
                    built.append(o)
                    want = expected(s, "Interp", "1-D", E, mu, p, n)
                    ro = s.new("operators." + cls, s.arrt(want))
                    ref.append((cls, s.tget(ro, "entries"), ro))
                evaluate_model(ctx, s, R, "Interp%sModel" % kindm, built,
                               ref, mu, r, m, kindm)


def evaluate_model(ctx, s, R, name, built, ref, mu, r, m, kindm):
    M = s.new("models." + name, built)
    w = s.where(M, "evaluate")
    ev = s.call(M, "evaluate", mu)
    lst = s.get(ev, "operators")
    s.same(R, w, s.len(lst), const(len(ref)), note="number of operators")
    inp = any("Input" in c for c, _, _ in ref)
    for i, (cls, want, _) in enumerate(ref):
        o = s.item(lst, i)
        s.same(R, w, const(ops.cls_name(s, o)), const(cls),
               note="class of operator %d" % i)
        s.same(R, w, s.tget(o, "entries"), want,
               note="entries of operator %d" % i)
    s.same(R, w, s.tget(ev, "state_dimension"), const(r),
           note="state_dimension")
    q = ops.state(s, r)
    u = ops.input_(s, m) if inp else NONE
    for mt, wr in (("rhs", "apply"), ("jacobian", "jacobian")):
        want = None
        for _, _, o in ref:
            x = s.tcall(o, wr, q, u)
            want = x if want is None else tm.add(want, x)
        if mt == "jacobian":
            want = tm.add(s.term(s.run(Ext("np.zeros"), (r, r)).value), want)
        if kindm == "Discrete":
            got = s.tcall(M, mt, mu, q, u)
        else:
            f = PyFn("u", lambda e, st, a, k: u) if inp else NONE
            got = s.tcall(M, mt, s.flt("t"), mu, q, f)
        s.same(R, s.where(M, mt), got, want, note=mt)
