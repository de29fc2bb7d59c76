"""Least-squares solvers solve the problem they document, as now configured."""
from .. import terms as tm
from ..terms import const, mk, concat, NONE, T
from . import common, ops, models
from .c12 import lst
from .c26 import ext

SOL, RES, CON, POS, FRM, LAY, OPT, SIZ = (
    "solution", "residuals", "condition-numbers", "posterior",
    "equivalent-regularizers", "operator-regularizer-layout",
    "options-are-used", "data-matrix-size")
HALF = tm.div(const(1), const(2))
ALL = ("s", None, None, None)


def eye(d):
    return tm.diag(mk("full", tm.ONE, (d,), shape=(d,), kind="arr"))


def scal(lam, d):
    return tm.mul(lam, eye(d))


def row(t, i):
    return tm.getitem(t, (("i", const(i)), ALL))


def sumsq(t, axis=None):
    from ..extern import red
    return red("sum", tm.power(t, const(2)), NONE if axis is None
               else const(axis), False)


class Kind:
    """a regularized solver with one form of regularizer"""

    def __init__(self, cls, form, **kw):
        self.cls, self.form, self.kw = cls, form, kw
        self.dec = "Decoupled" in cls
        self.rows = 2
        self.label = "%s(%s%s)" % (cls, form, "".join(
            ", %s=%s" % kv for kv in sorted(kw.items())))

    def one(self, s, tag):
        """(regularizer, its matrix as a term)"""
        d, f = s.dim("d"), self.form
        if f == "scalar":
            v = s.flt("lam" + tag)
            return v, scal(s.term(v), d)
        if f == "vector":
            v = s.arr("g" + tag, d)
            return v, tm.diag(s.term(v))
        if f == "matrix":
            v = s.arr("G" + tag, d, d)
            return v, s.term(v)
        if f == "sparse dia":
            v = s.new_dia("gd" + tag, "d")
            return v, tm.diag(s.term(s.arr("gd" + tag, d)))
        if f == "sparse csr":
            t = mk("densifiable", tm.sym("Gs" + tag, "arr", (d, d)), shape=(
                d, d), kind="sparse")
            return s.arrt(t), None
        raise KeyError(f)

    def reg(self, s, tag=""):
        """(what is passed, [matrix of each row])"""
        if not self.dec:
            v, g = self.one(s, tag)
            return v, [g] * self.rows
        if self.cls == "L2DecoupledSolver":
            v = s.arr("lams" + tag, self.rows)
            t = s.term(v)
            return v, [scal(tm.getitem(t, (("i", const(i)),)), s.dim("d"))
                       for i in range(self.rows)]
        vs = [self.one(s, "%s_%d" % (tag, i)) for i in range(self.rows)]
        return [v for v, _ in vs], [g for _, g in vs]

    def new(self, s, reg):
        kw = dict(self.kw)
        if "cond" in kw:
            kw["cond"] = s.flt("rcond")
        return s.new("lstsq." + self.cls, reg, **kw)


def problem(s, tag="", rows=2):
    k, d = s.dims("k d")
    return s.arr("D" + tag, k, d), s.arr("Z" + tag, rows, k)


def solution(s, kw, D, Z, Gs):
    """the rows of the minimiser, by the normal equations"""
    out = []
    for i, G in enumerate(Gs):
        z = row(Z, i)
        if kw.get("cond") or (kw.get("lapack_driver") and kw.get(
                "method") == "lstsq"):
            pad = concat([D, G], 0)
            rhs = concat([z, mk("full", tm.ZERO, (s.dim("d"),), shape=(
                s.dim("d"),), kind="arr")], 0)
            r = ext(s, "la.lstsq", s.arrt(pad), s.arrt(rhs), **opts(s, kw))
            out.append(s.term(s.item(r, 0)))
            continue
        A = tm.add(tm.matmul(tm.transpose(D), D),
                   tm.matmul(tm.transpose(G), G))
        out.append(tm.matmul(tm.inverse(A), tm.matmul(tm.transpose(D), z)))
    return out


def opts(s, kw):
    return dict(cond=s.flt("rcond") if "cond" in kw else NONE,
                lapack_driver=kw.get("lapack_driver", NONE))


def stack(ts):
    return concat([tm.reshape(t, (const(1),) + tuple(t.shape))
                   for t in ts], 0)


def regular(s, ctx, kd, o, D, Z, Gs, note):
    """everything the solver says about (D, Z, Gs)"""
    D, Z = s.term(D), s.term(Z)
    k, d = D.shape
    W = lambda m: ctx.locate("lstsq." + kd.cls, m)
    want = solution(s, kd.kw, D, Z, Gs)
    X = s.tcall(o, "solve")
    s.same(SOL, W("solve"), X, stack(want), note=note)
    for a, v in (("k", k), ("d", d), ("r", const(kd.rows))):
        s.same(SOL, W(a), s.tget(o, a), v, note=a + " " + note)
    O = s.term(s.arr("Ohat", const(kd.rows), d))
    res, rres = [], []
    for i, G in enumerate(Gs):
        q = row(O, i)
        e = sumsq(tm.sub(tm.matmul(D, q), row(Z, i)))
        res.append(e)
        rres.append(tm.add(e, sumsq(tm.matmul(G, q))))
    s.same(RES, W("residual"), s.tcall(o, "residual", s.arrt(O)),
           tm.array(res), note=note)
    s.same(RES, W("regresidual"), s.tcall(o, "regresidual", s.arrt(O)),
           tm.array(rres), note=note)
    s.same(CON, W("cond"), s.tcall(o, "cond"), mk(
        "cond", D, kind="float", shape=()), note=note)
    cs = [mk("cond", concat([D, G], 0), kind="float", shape=()) for G in Gs]
    s.same(CON, W("regcond"), s.tcall(o, "regcond"),
           tm.array(cs) if kd.dec else cs[0], note=note)
    p = s.call(o, "posterior")
    means, prec = s.item(p, 0), s.item(p, 1)
    s.same(POS, W("posterior"), s.term(means), X,
           note="mean is the solution, " + note)
    for i, G in enumerate(Gs):
        q = row(X, i)
        sig = tm.div(tm.add(sumsq(tm.sub(tm.matmul(D, q), row(Z, i))),
                            sumsq(tm.matmul(G, q))), k)
        A = tm.add(tm.matmul(tm.transpose(D), D),
                   tm.matmul(tm.transpose(G), G))
        s.same(POS, W("posterior"), s.term(s.item(prec, i)), tm.div(A, sig),
               note="precision of row %d, %s" % (i, note))


def kinds():
    out = []
    for kw in ({}, dict(lapack_driver="gesvd")):
        out.append(Kind("L2Solver", "scalar", **kw))
        out.append(Kind("L2DecoupledSolver", "scalar", **kw))
    for cls in ("TikhonovSolver", "TikhonovDecoupledSolver"):
        for form in ("matrix", "vector", "sparse dia"):
            for m in ("lstsq", "normal"):
                out.append(Kind(cls, form, method=m))
            if form != "sparse dia":
                out.append(Kind(cls, form, method="lstsq", cond=1))
                out.append(Kind(cls, form, method="lstsq",
                                lapack_driver="gelsy"))
    return out


def play(s, kd, h):
    """(solver, D, Z, Gs)"""
    v, Gs = kd.reg(s)
    D, Z = problem(s)
    if h == "fitted":
        o = kd.new(s, v)
        s.call(o, "fit", D, Z)
    elif h == "fitted twice":
        o = kd.new(s, v)
        s.call(o, "fit", *problem(s, "0"))
        s.call(o, "solve")
        s.call(o, "posterior")
        s.call(o, "fit", D, Z)
    elif h == "regularizer changed":
        o = kd.new(s, kd.reg(s, "0")[0])
        s.call(o, "fit", D, Z)
        s.call(o, "solve")
        s.call(o, "posterior")
        s.call(o, "regcond")
        s.set(o, "regularizer", v)
    elif h == "regularizer set late":
        o = kd.new(s, NONE)
        s.call(o, "fit", D, Z)
        s.set(o, "regularizer", v)
    elif h == "regularizer set before fit":
        o = kd.new(s, NONE)
        s.set(o, "regularizer", v)
        s.call(o, "fit", D, Z)
    elif h == "reset":
        o = kd.new(s, kd.reg(s, "0")[0])
        s.call(o, "fit", *problem(s, "0"))
        s.call(o, "solve")
        s.call(o, "reset")
        s.call(o, "fit", D, Z)
        s.set(o, "regularizer", v)
    elif h == "regularizer changed, refitted":
        o = kd.new(s, kd.reg(s, "0")[0])
        s.call(o, "fit", *problem(s, "0"))
        s.call(o, "solve")
        s.set(o, "regularizer", v)
        s.call(o, "solve")
        s.call(o, "fit", D, Z)
    elif h == "method changed":
        k2 = Kind(kd.cls, kd.form, **dict(kd.kw, method="normal" if kd.kw[
            "method"] == "lstsq" else "lstsq"))
        o = k2.new(s, v)
        s.call(o, "fit", D, Z)
        s.call(o, "solve")
        s.set(o, "method", kd.kw["method"])
    elif h == "copied":
        o1 = kd.new(s, kd.reg(s, "0")[0])
        s.call(o1, "fit", D, Z)
        o = s.call(o1, "copy")
        s.set(o, "regularizer", v)
        s.set(o1, "regularizer", kd.reg(s, "1")[0])
        s.call(o1, "solve")
    else:
        raise KeyError(h)
    return o, D, Z, Gs


HIST = ["fitted", "fitted twice", "regularizer changed",
        "regularizer set late", "regularizer set before fit", "reset",
        "regularizer changed, refitted", "copied"]


def check(ctx):
    for kd in kinds():
        hs = list(HIST)
        if "method" in kd.kw:
            hs.append("method changed")
        for h in hs:
            with ctx.case("%s, %s" % (kd.label, h), SOL) as s:
                o, D, Z, Gs = play(s, kd, h)
                regular(s, ctx, kd, o, D, Z, Gs, h)
    one_row(ctx)
    plain(ctx)
    total(ctx)
    truncated(ctx)
    forms(ctx)
    layout(ctx)
    size(ctx)


def one_row(ctx):
    for cls, form in (("L2Solver", "scalar"), ("L2DecoupledSolver", "scalar"),
                      ("TikhonovSolver", "matrix"),
                      ("TikhonovDecoupledSolver", "matrix")):
        for meth in (("lstsq", "normal") if "Tik" in cls else (None,)):
            kd = Kind(cls, form, **({} if meth is None else {"method": meth}))
            kd.rows = 1
            with ctx.case(kd.label + ", one left-hand side", SOL) as s:
                v, Gs = kd.reg(s)
                D, _ = problem(s)
                z = s.arr("z", s.dim("k"))
                o = kd.new(s, v)
                s.call(o, "fit", D, z)
                Z = s.arrt(tm.reshape(s.term(z), (const(1), s.dim("k"))))
                regular(s, ctx, kd, o, D, Z, Gs, "1-D left-hand side")


def plain(ctx):
    cls = "PlainSolver"
    W = lambda m: ctx.locate("lstsq." + cls, m)
    for kw in ({}, {"cond": 1}, {"lapack_driver": "gelsy"},
               {"cond": 1, "lapack_driver": "gelss"}):
        for h in ("fitted", "fitted twice", "copied", "reset",
                  "one left-hand side"):
            with ctx.case("PlainSolver(%s), %s" % (", ".join(
                    "%s=%s" % x for x in kw.items()), h), SOL) as s:
                o_ = opts(s, kw)
                o = s.new("lstsq." + cls, **o_)
                D, Z = problem(s)
                if h in ("fitted twice", "reset"):
                    s.call(o, "fit", *problem(s, "0"))
                    s.call(o, "solve")
                if h == "reset":
                    s.call(o, "reset")
                if h == "one left-hand side":
                    z = s.arr("z", s.dim("k"))
                    s.call(o, "fit", D, z)
                    Z = s.arrt(tm.reshape(s.term(z), (const(1), s.dim("k"))))
                else:
                    s.call(o, "fit", D, Z)
                if h == "copied":
                    o = s.call(o, "copy")
                d, z = s.term(D), s.term(Z)
                r = ext(s, "la.lstsq", D, s.arrt(tm.transpose(z)), **o_)
                s.same(SOL if not kw else OPT, W("solve"),
                       s.tcall(o, "solve"),
                       tm.transpose(s.term(s.item(r, 0))), note=h)
                common_(s, W, o, d, z, h)


def common_(s, W, o, D, Z, h):
    O = s.term(s.arr("Ohat", Z.shape[0], D.shape[1]))
    s.same(RES, W("residual"), s.tcall(o, "residual", s.arrt(O)),
           sumsq(tm.sub(tm.matmul(D, tm.transpose(O)), tm.transpose(Z)), 0),
           note=h)
    s.same(CON, W("cond"), s.tcall(o, "cond"), mk(
        "cond", D, kind="float", shape=()), note=h)


def played(s, o, h, rows=2, k=None):
    """fit by one of the histories; the solver, D and Z"""
    def prob(tag=""):
        D, Z = problem(s, tag, rows)
        if k is None:
            return D, Z
        return (s.arr("D" + tag, k, s.dim("d")), s.arr("Z" + tag, rows, k))
    D, Z = prob()
    if h in ("fitted twice", "reset"):
        s.call(o, "fit", *prob("0"))
        s.call(o, "solve")
    if h == "reset":
        s.call(o, "reset")
    s.call(o, "fit", D, Z)
    if h == "copied":
        o = s.call(o, "copy")
    return o, s.term(D), s.term(Z)


def total(ctx):
    cls = "TotalLeastSquaresSolver"
    W = lambda m: ctx.locate("lstsq." + cls, m)
    for drv in ("gesdd", "gesvd"):
        for h in ("fitted", "fitted twice", "copied", "reset"):
            with ctx.case("%s(%s), %s" % (cls, drv, h), SOL) as s:
                d = s.dim("d")
                k = tm.add(tm.add(d, const(3)), s.dim("k+"))
                o, D, Z = played(s, s.new("lstsq." + cls, drv), h, k=k)
                A = concat([D, tm.transpose(Z)], 1)
                p = ext(s, "la.svd", s.arrt(A), full_matrices=False)
                S, Vt = [s.term(s.item(p, i)) for i in (1, 2)]
                V = tm.transpose(Vt)
                hi, lo = ("s", d, None, None), ("s", None, d, None)
                Vdz = tm.getitem(V, (lo, hi))
                Vzz = tm.getitem(V, (hi, hi))
                s.same(SOL, W("solve"), s.tcall(o, "solve"), tm.neg(
                    tm.transpose(tm.matmul(Vdz, tm.inverse(Vzz)))), note=h)
                s.same(CON, W("augcond"), s.tget(o, "augcond"), mk(
                    "cond", A, kind="float", shape=()), note=h)
                s.same(RES, W("error"), s.tget(o, "error"), tm.power(
                    sumsq(tm.getitem(S, (hi,))), HALF), note=h)
                common_(s, W, o, D, Z, h)


def truncated(ctx):
    cls = "TruncatedSVDSolver"
    W = lambda m: ctx.locate("lstsq." + cls, m)
    for drv in ("gesdd", "gesvd"):
        for n in (None, "n", 2, -1, 0):
            for h in ("fitted", "fitted twice", "copied", "reset",
                      "number changed", "number changed, refitted"):
                if h[0] == "n" and n == "n":
                    continue
                if drv == "gesvd" and h != "fitted":
                    continue
                with ctx.case("%s(%s, %s), %s" % (cls, n, drv, h), SOL) as s:
                    num = s.int("nmodes") if n == "n" else n
                    if h.startswith("number"):
                        o = s.new("lstsq." + cls, 1, drv)
                        o, D, Z = played(s, o, "fitted twice")
                        s.call(o, "solve")
                        s.set(o, "num_svdmodes", num)
                        if "refitted" in h:
                            D = s.arr("D3", s.dim("k"), s.dim("d"))
                            Z = s.arr("Z3", 2, s.dim("k"))
                            s.call(o, "fit", D, Z)
                            D, Z = s.term(D), s.term(Z)
                    else:
                        o, D, Z = played(s, s.new(
                            "lstsq." + cls, num, drv), h)
                    modes(s, W, o, D, Z, num, h)


def modes(s, W, o, D, Z, n, h):
    from ..extern import minmax
    top = minmax("min", list(D.shape))
    if n is None:
        n = top
    elif isinstance(n, int):
        n = const(n) if n > 0 else tm.add(top, const(n))
    else:
        n = s.term(n)
        n = tm.phi(tm.le(n, tm.ZERO), tm.add(top, n), n)
    if not h.startswith("number"):
        # (assigning more than there are is an error)
        n = minmax("min", [n, top])
    s.same(SOL, W("num_svdmodes"), s.tget(o, "num_svdmodes"), n, note=h)
    s.same(SOL, W("max_modes"), s.tget(o, "max_modes"), top, note=h)
    p = ext(s, "la.svd", s.arrt(D), full_matrices=False)
    U, S, Vt = [s.term(s.item(p, i)) for i in range(3)]
    c = ("s", None, n, None)
    U, S, Vt = (tm.getitem(U, (ALL, c)), tm.getitem(S, (c,)),
                tm.getitem(Vt, (c, ALL)))
    want = tm.matmul(tm.matmul(tm.matmul(Z, U), tm.diag(tm.div(const(1), S))),
                     Vt)
    s.same(SOL, W("solve"), s.tcall(o, "solve"), want, note=h)
    s.same(CON, W("tcond"), s.tcall(o, "tcond"), tm.div(
        tm.getitem(S, (("i", const(0)),)), tm.getitem(S, (("i", tm.sub(
            n, tm.ONE)),))),
        note=h)
    common_(s, W, o, D, Z, h)


def forms(ctx):
    """equal regularization, however it is written"""
    def scalar(s):
        return s.flt("lam")

    def eqs(s, label, mks):
        outs = []
        for cls, reg, kw in mks:
            o = s.new("lstsq." + cls, reg, **kw)
            s.call(o, "fit", *problem(s))
            outs.append((cls, o))
        base = outs[0][1]
        O = s.arr("Ohat", 2, s.dim("d"))
        for cls, o in outs[1:]:
            W = lambda m: ctx.locate("lstsq." + cls, m)
            s.same(FRM, W("solve"), s.tcall(o, "solve"),
                   s.tcall(base, "solve"), note=label)
            s.same(FRM, W("regresidual"), s.tcall(o, "regresidual", O),
                   s.tcall(base, "regresidual", O), note=label)
            p, q = s.call(o, "posterior"), s.call(base, "posterior")
            for i in range(2):
                s.same(FRM, W("posterior"), s.term(s.item(s.item(p, 1), i)),
                       s.term(s.item(s.item(q, 1), i)), note=label)
    for meth in ("lstsq", "normal"):
        kw = {"method": meth}
        with ctx.case("one constant, %s" % meth, FRM) as s:
            lam = s.flt("lam")
            t = s.term(lam)
            d = s.dim("d")
            full = s.arrt(mk("full", t, (d,), shape=(d,), kind="arr"))
            mat = s.arrt(scal(t, d))
            eqs(s, "the same constant", [
                ("L2Solver", lam, {}),
                ("L2DecoupledSolver", [lam, lam], {}),
                ("TikhonovSolver", full, kw),
                ("TikhonovSolver", mat, kw),
                ("TikhonovDecoupledSolver", [full, mat], kw)])
        with ctx.case("one diagonal, %s" % meth, FRM) as s:
            d = s.dim("d")
            g = s.arr("g", d)
            G = s.arrt(tm.diag(s.term(g)))
            sp = s.new_dia("g", "d")
            eqs(s, "the same diagonal", [
                ("TikhonovSolver", g, kw), ("TikhonovSolver", G, kw),
                ("TikhonovSolver", sp, kw),
                ("TikhonovDecoupledSolver", [g, G], kw),
                ("TikhonovDecoupledSolver", [sp, g], kw)])
        with ctx.case("one matrix, %s" % meth, FRM) as s:
            d = s.dim("d")
            G = s.arr("G", d, d)
            eqs(s, "the same matrix", [
                ("TikhonovSolver", G, kw),
                ("TikhonovDecoupledSolver", [G, G], kw)])
        with ctx.case("sequences, %s" % meth, FRM) as s:
            s.ctx.label += ""
            a, b, e = s.flt("a"), s.flt("b"), s.flt("e")
            D, Z = s.arr("D", s.dim("k"), 3), s.arr("Z", 2, s.dim("k"))
            ta = tm.array([s.term(x) for x in (a, b, e)])
            outs = []
            for reg in (s.arrt(ta), [a, b, e], (a, b, e),
                        [[a, 0, 0], [0, b, 0], [0, 0, e]]):
                o = s.new("lstsq.TikhonovSolver", reg, **kw)
                s.call(o, "fit", D, Z)
                outs.append(s.tcall(o, "solve"))
                o = s.new("lstsq.TikhonovDecoupledSolver", [reg, reg], **kw)
                s.call(o, "fit", D, Z)
                outs.append(s.tcall(o, "solve"))
            W = ctx.locate("lstsq.TikhonovSolver", "regularizer")
            for x in outs[1:]:
                s.same(FRM, W, x, outs[0], note="lists, tuples and arrays")


def layout(ctx):
    """get_operator_regularizer() follows the blocks of the data matrix"""
    def op(s, nm, r, m):
        if nm.startswith("Affine"):
            how = "int" if nm.endswith("#") else "fn"
            return ops.build_param(s, "Affine", nm[6:].rstrip("#"), r, m, how,
                                   n=3, ent=False)
        a = [ops.order(nm)] if "[" in nm else []
        return s.new(ops.path(nm), *a)
    sets = [["ConstantOperator", "LinearOperator"],
            ["LinearOperator", "ConstantOperator", "InputOperator"],
            ["QuadraticOperator", "LinearOperator", "StateInputOperator"],
            ["CubicOperator", "InputOperator", "LinearOperator"],
            ["QuarticOperator", "ConstantOperator"],
            ["PolynomialOperator[2]", "InputOperator"],
            ["StateInputOperator", "InputOperator", "ConstantOperator"],
            ["AffineLinearOperator", "ConstantOperator"],
            ["AffineQuadraticOperator#", "AffineInputOperator",
             "LinearOperator"],
            ["InputOperator", "AffineStateInputOperator", "CubicOperator",
             "AffineConstantOperator"]]
    for cls in ("TikhonovSolver", "TikhonovDecoupledSolver"):
        W = ctx.locate("lstsq." + cls, "get_operator_regularizer")
        for names in sets:
            for r, m in ((2, 3), (3, 2), (1, 1)):
                for vec in (False, True):
                    with ctx.case("get_operator_regularizer(%s, r=%d, m=%d%s)"
                                  % (", ".join(names), r, m, ", arrays"
                                     if vec else ""), LAY) as s:
                        mm = m if any("Input" in n for n in names) else 0
                        os_ = [op(s, n, r, m if "Input" in n else None)
                               for n in names]
                        regs, want = [], []
                        for i, n in enumerate(names):
                            c = n.replace("Affine", "").rstrip("#")
                            w = ops.width(c, r, m) * (
                                3 if n.startswith("Affine") else 1)
                            g = s.arr("g%d" % i, w) if vec else s.flt(
                                "g%d" % i)
                            regs.append(g)
                            want.append(s.term(g) if vec else mk(
                                "full", s.term(g), (const(w),),
                                shape=(const(w),), kind="arr"))
                        got = s.new("lstsq.%s.get_operator_regularizer" % cls,
                                    os_, regs, r, *([mm] if mm else []))
                        s.same(LAY, W, s.term(got), concat(want, 0),
                               note="blocks")


def size(ctx):
    """lstsq_size() counts the columns of the data matrix"""
    W = "lstsq.lstsq_size"
    names = dict(c="ConstantOperator", A="LinearOperator",
                 H="QuadraticOperator", G="CubicOperator", B="InputOperator")
    for form in ("c", "A", "H", "G", "B", "cA", "AB", "cAHGB", "AHB", "HB"):
        for r, m in ((1, 1), (2, 1), (3, 2), (5, 4)):
            for aff in ("", form[-1], form):
                with ctx.case("lstsq_size(%s, r=%d, m=%d, affines for %r)" % (
                        form, r, m, aff), SIZ) as s:
                    af = {c: [ops.scalar_fn("t%d" % i) for i in range(
                        2 + form.index(c))] for c in aff}
                    n = sum(ops.width(names[c], r, m) * (
                        len(af[c]) if c in af else 1) for c in form)
                    kw = {"affines": s.val(af)} if aff else {}
                    got = s.new("lstsq.lstsq_size", form, r, *([m] if "B" in form else []), **kw)
                    s.same(SIZ, W, s.term(got), const(n), note=form)
