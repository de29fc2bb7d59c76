"""Projecting an operator commutes with evaluating it."""
from . import ops
from .common import tm, const, NONE
from ..terms import mk


def bases(s, n, r):
    """(label, trial, test, what the projection must be)"""
    n_, r_ = ops.D(s, n), ops.D(s, r)
    V = s.term(s.arr("V", n_, r_))
    W = s.term(s.arr("W", n_, r_))
    ortho = mk("getitem", mk("svdU", V, const(False), shape=None),
               shape=None)
    VtV = tm.matmul(tm.transpose(V), V)
    # a test basis with W' V = I by construction
    dual = tm.matmul(V, tm.inverse(VtV))
    return [("two bases", V, W), ("test basis omitted", V, None),
            ("biorthonormal bases", V, dual)]


def oblique(y, V, W):
    W = V if W is None else W
    Wt = tm.transpose(W)
    return tm.matmul(tm.inverse(tm.matmul(Wt, V)), Wt, y)


def shapes(cls, thorough):
    """(n, r, m)"""
    if cls in ("QuadraticOperator", "CubicOperator", "QuarticOperator"):
        out = [(2, 1, None), (3, 2, None), (2, 2, None)]
        if thorough and cls != "QuarticOperator":
            out += [(4, 2, None), (4, 3, None)]
        return out
    if cls == "InputOperator":
        return [("n", "r", "m"), ("n", "r", 1), (3, 1, 2), (3, 2, 1)]
    if cls == "StateInputOperator":
        return [(3, 2, 1), (3, 2, 2), (2, 1, 3), ("n", "r", 2)]
    return [("n", "r", None), (3, 2, None), (2, 1, None)]


def check(ctx):
    R = "projection-commutes"
    for cls, p, inp in ops.NONPARAM:
        for n, r, m in shapes(cls, ctx.thorough):
            w = ctx.locate(ctx.eng.lookup("opinf.operators." + cls),
                           "galerkin")
            for i in range(3):
                with ctx.case("%s -> r=%s" % (ops.lab(cls, n, m), r),
                              R) as s:
                    lab, V, W = bases(s, n, r)[i]
                    ctx.label += ", " + lab
                    op = ops.build(s, cls, n, m)
                    before = s.tget(op, "entries")
                    dims = None
                    if n == "n":
                        dims = {"n": 5, "r": 2, "m": 3, "k": 4}
                    red = s.call(op, "galerkin", s.arrt(V),
                                 *([] if W is None else [s.arrt(W)]))
                    q = s.term(ops.state(s, r))
                    got = s.tcall(red, "apply", s.arrt(q),
                                  ops.input_(s, m))
                    full = s.tcall(op, "apply", s.arrt(tm.matmul(V, q)),
                                   ops.input_(s, m))
                    if full.shape == ():
                        full = tm.reshape(full, (const(1),))
                    if got.shape == ():
                        got = tm.reshape(got, (const(1),))
                    s.same(R, w, got, oblique(full, V, W), dims=dims)
                    s.same(R, w, s.tget(red, "state_dimension"),
                           ops.D(s, r), note="state_dimension", dims=dims)
                    if m is not None:
                        s.same(R, w, s.tget(red, "input_dimension"),
                               ops.D(s, m), note="input_dimension",
                               dims=dims)
                    s.same(R, w, s.tget(op, "entries"), before,
                           note="the original operator", dims=dims)
                    s.same(R, w, const(ops.cls_name(s, red)), const(cls),
                           note="class")
    parametric(ctx)


def parametric(ctx):
    R = "projection-commutes"
    n, r = 3, 2
    for nm in ops.PARAM:
        cls = nm + "Operator"
        m = 2 if "Input" in nm else None
        for kind in ("Affine", "Interp"):
            dotted = "operators.%s%s" % (kind, cls)
            for i in range(3):
                how = ("fn", "int", "list")[i] if kind == "Affine" else (
                    "1-D", "2-D")[i % 2]
                with ctx.case("%s%s(%s)" % (kind, cls, how), R) as s:
                    lab, V, W = bases(s, n, r)[i]
                    ctx.label += ", " + lab
                    kw = {}
                    if kind == "Interp" and i:
                        from .c27 import linear_interp
                        kw["InterpolatorClass"] = linear_interp(3)
                        ctx.label += ", user interpolator"
                    op = ops.build_param(s, kind, cls, n, m, how, **kw)
                    if kind == "Affine" and how != "int":
                        s.set(op, "parameter_dimension", const(1))
                    w = s.where(op, "galerkin")
                    red = s.call(op, "galerkin", s.arrt(V),
                                 *([] if W is None else [s.arrt(W)]))
                    if kind == "Interp":
                        s.never_raises(R, w, s.raised, "galerkin()",
                                       about=("increasing",))
                    for a in ("state_dimension", "parameter_dimension"):
                        s.same(R, w, s.tget(red, a), const(r) if
                               a == "state_dimension" else s.tget(op, a),
                               note=a)
                    for mu in ops.parameters(s, kind, how):
                        q = s.term(ops.state(s, r))
                        got = s.tcall(red, "apply", mu, s.arrt(q),
                                      *([] if m is None else
                                        [ops.input_(s, m)]))
                        full = s.tcall(op, "apply", mu,
                                       s.arrt(tm.matmul(V, q)),
                                       *([] if m is None else
                                         [ops.input_(s, m)]))
                        s.same(R, w, got, oblique(full, V, W))
