"""Jacobians are the derivatives of what apply() computes.

The operators are polynomials of degree at most six in the state, for which
the seven-point stencil along any direction v is the exact derivative; J(q) v
must equal it for a symbolic q and v."""
from fractions import Fraction
from . import ops
from .common import tm, const


def stencil(f, q, v):
    """exact directional derivative of a polynomial of degree <= 6"""
    out = const(0)
    for c, w in ((-3, -1), (-2, 9), (-1, -45), (1, 45), (2, -9), (3, 1)):
        out = tm.add(out, tm.mul(const(Fraction(w, 60)), f(
            tm.add(q, tm.mul(const(c), v)))))
    return out


def jac_times(s, J, v):
    if tm.is_num(J):
        return tm.mul(J, v)
    return tm.matmul(J, v)


def check(ctx):
    R = "jacobian-is-derivative"
    for cls, p, inp in ops.NONPARAM + ops.POLY:
        for r, m in ops.sizes(cls, ctx.thorough):
            w = ctx.locate(ctx.eng.lookup("opinf." + ops.path(cls)),
                           "jacobian")
            with ctx.case(ops.lab(cls, r, m), R) as s:
                op = ops.build(s, cls, r, m)
                q, v = s.term(ops.state(s, r)), s.term(
                    ops.state(s, r, None, "v"))

                def f(x):
                    return s.tcall(op, "apply", s.arrt(x),
                                   ops.input_(s, m))
                want = stencil(f, q, v)
                J = s.tcall(op, "jacobian", s.arrt(q), ops.input_(s, m))
                s.same(R, w, jac_times(s, J, v), want)
                # at another state, with whatever was precomputed
                q2 = s.term(ops.state(s, r, None, "q2"))
                J = s.tcall(op, "jacobian", s.arrt(q2), ops.input_(s, m))
                s.same(R, w, jac_times(s, J, v), stencil(f, q2, v),
                       note="second call")
                # after the entries change
                E2 = ops.entries(s, cls, r, m, "E2")
                s.call(op, "set_entries", E2)
                J = s.tcall(op, "jacobian", s.arrt(q), ops.input_(s, m))
                s.same(R, w, jac_times(s, J, v), stencil(f, q, v),
                       note="after set_entries")
                if not (tm.is_num(J)):
                    rd = ops.D(s, r)
                    for d in (0, 1):
                        s.same(R, w, J.shape[d], rd, note="shape")
