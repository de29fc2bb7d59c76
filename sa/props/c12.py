"""Learned operators are read from the columns they were fitted to."""
from . import ops, models
from .common import tm, const, NONE
from ..terms import concat


def lst(s, v):
    return [s.item(v, i) for i in range(int(tm.cval(s.len(v))))]


def add_up(s, vals, shape):
    t = const(0)
    for v in vals:
        t = tm.add(t, v)
    return t


def applied(s, op, mu, q, u):
    """value of the operator at a set of states"""
    t = s.tcall(op, "apply", *([] if mu is None else [mu]), q, u)
    return spread(s, op, t, q)


def spread(s, op, t, q):
    # constants are the same at every state
    if t.shape is not None and len(t.shape) == 1:
        return tm.matmul(tm.reshape(t, (t.shape[0], const(1))), ones(q))
    return t


def ones(q):
    sh = (const(1), q.shape[1])
    return tm.mk("full", tm.ONE, sh, shape=sh, kind="arr")


def data(s, name, *shape):
    return s.term(s.arr(name, *shape))


def total(s, oplist, mus, qs, us):
    """sum of the operators over all training states, side by side"""
    cols = []
    for mu, q, u in zip(mus, qs, us):
        t = const(0)
        for par, op in oplist:
            t = tm.add(t, applied(s, op, mu if par else None, q, u))
        cols.append(t)
    return cols


def check(ctx):
    mono(ctx)
    param(ctx)
    flat(ctx)


def split(s, o, mix, pattern):
    opl = lst(s, s.get(o, "operators"))
    kn, unk = [], []
    for i, op in enumerate(opl):
        c = ops.cls_name(s, op)
        par = c.startswith(("Affine", "Interp"))
        (kn if models.known(pattern, i, len(mix)) else unk).append((par, op))
    return kn, unk


def regression(s, R, w, solver, kn, unk, mus, qs, us, zs, note=""):
    """the solver was given the training data less the known operators, and
    the unknown operators are what it solved for"""
    D = s.tget(solver, "data_matrix")
    Z = s.tget(solver, "lhs_matrix")
    O = s.tcall(solver, "solve")
    known = total(s, kn, mus, qs, us)
    want = [tm.sub(z, c) for z, c in zip(zs, known)]
    s.same("left-hand-side", w, Z, concat(want, 1),
           note=note + "the left-hand side of the regression")
    got = total(s, unk, mus, qs, us)
    s.same(R, w, concat(got, 1), tm.matmul(O, tm.transpose(D)),
           note=note + "the learned operators at the training data and the "
           "regression's own prediction")


def mono(ctx):
    R = "columns"
    shapes = [("", models.R_, models.M_)]
    for fam in models.mono_fams(ctx, solvers=True):
        if fam.fit is None:
            continue
        w = fam.where(ctx, "fit")
        for hist in ("fitted", "fitted again", "refitted with another "
                     "regularization"):
            if "refit" in hist and "L2" not in fam.label:
                continue
            with ctx.case("%s, %s" % (fam.label, hist), R) as s:
                o = fam.build(s)
                if hist == "fitted again":
                    fam.fit(s, o, "b")
                fam.fit(s, o)
                solver = s.get(o, "solver")
                if "refit" in hist:
                    s.set(solver, "regularizer", s.flt("reg2"))
                    s.call(o, "refit")
                k = s.dim("k")
                q = data(s, "Q", models.R_, k)
                z = data(s, "Z", models.R_, k)
                u = data(s, "U", models.M_, k) if models.has_input(
                    fam.mix) else NONE
                kn, unk = split(s, o, fam.mix, fam.pattern)
                regression(s, R, w, solver, kn, unk, [None], [q], [u], [z])


def param(ctx):
    R = "columns"
    for fam in models.param_fams(ctx, solvers=True):
        if fam.fit is None:
            continue
        w = fam.where(ctx, "fit")
        interp = fam.label.startswith("Interp")
        for hist in ("fitted", "fitted again", "refitted with another "
                     "regularization"):
            if "refit" in hist and "L2" not in fam.label:
                continue
            with ctx.case("%s, %s" % (fam.label, hist), R) as s:
                o = fam.build(s)
                if hist == "fitted again":
                    fam.fit(s, o, "b")
                fam.fit(s, o)
                n = models.N_
                ks = [s.dim("k%d" % i) for i in range(n)]
                qs = [data(s, "Q%d" % i, models.R_, ks[i]) for i in range(n)]
                zs = [data(s, "Z%d" % i, models.R_, ks[i]) for i in range(n)]
                us = [data(s, "U%d" % i, models.M_, ks[i])
                      if models.has_input(fam.mix) else NONE
                      for i in range(n)]
                mus = [tm.getitem(data(s, "mus", n), (("i", const(i)),))
                       for i in range(n)]
                kn, unk = split(s, o, fam.mix, fam.pattern)
                if "refit" in hist:
                    sv = lst(s, s.get(o, "solvers")) if interp else [
                        s.get(o, "solver")]
                    for x in sv:
                        s.set(x, "regularizer", s.flt("reg2"))
                    s.call(o, "refit")
                if not interp:
                    regression(s, R, w, s.get(o, "solver"), kn, unk, mus, qs,
                               us, zs)
                    continue
                svs = lst(s, s.get(o, "solvers"))
                for i, sv in enumerate(svs):
                    at = []
                    for par, op in unk:
                        c = ops.cls_name(s, op)
                        at.append((False, s.new(
                            "operators." + c.replace("Interp", ""),
                            s.item(s.get(op, "entries"), i))))
                    regression(s, R, w, sv, kn, at, [mus[i]], [qs[i]],
                               [us[i]], [zs[i]], "training parameter %d, "
                               % i)


def flat(ctx):
    """the data of a single input may be one-dimensional"""
    R = "one-dimensional-inputs"
    for kind in ("Continuous", "Discrete"):
        for fam in ("%sModel", "Parametric%sModel", "Interp%sModel"):
            name = "models." + fam % kind
            w = ctx.locate(name, "fit")
            for r in (1, models.R_):
                with ctx.case("%s with %s state%s and one input" % (
                        name, r, "s" * (r != 1)), R) as s:
                    got = [fit_flat(s, name, r, f) for f in (0, 1)]
                    for a, b in zip(*got):
                        s.same(R, w, b, a, note="the data of the regression")


def fit_flat(s, name, r, f):
    k = s.dim("k")
    n = 1 if "Param" not in name and "Interp" not in name else 3
    first = "operators.AffineLinearOperator" if "Param" in name else (
        "operators.InterpLinearOperator" if "Interp" in name else
        "operators.LinearOperator")
    lst_ = [s.new(first, *([ops.scalar_fn("th"), 1] if "Affine" in first
                           else []))]
    lst_.append(s.new("operators.%sInputOperator" % (
        "Interp" if "Interp" in name else "")))
    o = s.new(name, lst_)

    def one(tag):
        v = s.term(s.arr(tag, k))
        return s.arrt(v if f else tm.reshape(v, (const(1), k)))
    Q = [s.arr("Q%d" % i, r, k) for i in range(n)]
    Z = [s.arr("Z%d" % i, r, k) for i in range(n)]
    U = [one("U%d" % i) for i in range(n)]
    if n == 1:
        s.call(o, "fit", Q[0], Z[0], U[0])
    else:
        s.call(o, "fit", s.arr("mus", n), Q, Z, U)
    sv = lst(s, s.get(o, "solvers")) if "Interp" in name else [
        s.get(o, "solver")]
    return [s.tget(x, a) for x in sv for a in ("data_matrix", "lhs_matrix")]
