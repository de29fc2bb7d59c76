"""Unlifting undoes lifting; lifted derivatives obey the chain rule.

Polynomials of degree at most four: the five-point stencil along (q, dq) is
the exact derivative of the lifting map. Other powers are compared with the
power rule at positive states."""
from .common import tm, const, NONE
from .c14 import stencil

ORDERS = [(1, 2), (2, 1), (1, 2, 3), (3, 1), (0, 1), (1, 0), (2, 0, 1),
          (1, 1), (4, 2, 1), (1,), 1]
ROOTS = [(2,), (3,), 2, (2, 3), (0, 2), (1, 0.5), (0.5,), (-1, 2), (1, -1),
         (0, -2), (2, -1), 0.5, -1]


def power_rule(q, dq, ps):
    out = []
    for p in ps:
        if p == 0:
            out.append(tm.mul(const(0), dq))
        else:
            out.append(tm.mul(tm.mul(const(p), tm.power(q, const(p - 1))),
                              dq))
    return tm.concat(out, 0)


def changed(s, old, new):
    L = s.new("lift.PolynomialLifter", old)
    s.set(L, "orders", new)
    return L


def check(ctx):
    forms = [("QuadraticLifter", lambda s: s.new("lift.QuadraticLifter"),
              (1, 2))]
    for ps in ORDERS + ROOTS + ([tuple(range(5)), (4, 3, 2, 1, 0)]
                                if ctx.thorough else []):
        forms.append(("PolynomialLifter(%s)" % (ps,), lambda s, ps=ps: s.new(
            "lift.PolynomialLifter", ps), ps if isinstance(ps, tuple)
            else (ps,)))
    for old, new in (((1,), (2, 1)), ((2, 1, 3), 3), (2, (1, 2, 3))):
        forms.append(("PolynomialLifter, orders changed from %s to %s" % (
            old, new), lambda s, old=old, new=new: changed(s, old, new),
            new if isinstance(new, tuple) else (new,)))
    for lab, build, ps in forms:
        for nd in (1, 2):
            for pos in (False, True):
                if not pos and not set(ps) <= {0, 1, 2, 3, 4}:
                    continue
                one(ctx, "%s, %d-D%s" % (lab, nd, ", positive states" if pos
                                         else ""), build, ps, nd, pos)


def one(ctx, lab, build, ps, nd, pos):
    R, RD = "unlift-undoes-lift", "chain-rule"
    with ctx.case(lab, R) as s:
        L = build(s)
        c = s.clsof(L)
        sh = (s.dim("n"), s.dim("k"))[:nd]
        q, dq = s.term(s.arr("pm:q", *sh)), s.term(s.arr("pm:dq", *sh))
        if pos:
            q = tm.add(const(1), tm.mul(q, q))

        def lift(x):
            return s.tcall(L, "lift", s.arrt(x))
        y = lift(q)
        w = ctx.locate(c, "lift")
        if y.shape is not None:
            for d, e in zip(y.shape, (tm.mul(const(len(ps)), sh[0]),)
                            + sh[1:]):
                s.same("size", w, d, e, note="lifted size")
        if 1 in ps or pos:
            if set(ps) == {0}:
                return
            s.same(R, ctx.locate(c, "unlift"), s.tcall(
                L, "unlift", s.arrt(y)), q)
        w = ctx.locate(c, "lift_ddts")
        dy = s.tcall(L, "lift_ddts", s.arrt(q), s.arrt(dq))
        want = power_rule(q, dq, ps)
        if not pos and set(ps) <= {0, 1, 2, 3, 4}:
            want = stencil(lift, q, dq)
        s.same(RD, w, dy, want)
        if not pos:
            # also where a state vanishes
            z = tm.mul(const(0), q)
            s.same(RD, w, s.tcall(L, "lift_ddts", s.arrt(z), s.arrt(dq)),
                   stencil(lift, z, dq), note="at the zero state")
