"""Applying an operator equals its entries times its data block."""
from . import ops
from .common import tm, const, NONE
from ..terms import mk


USER = """
def add(a, b):
    return a + b
"""


def check(ctx):
    add = ctx.eng.base_state.get(ctx.eng.load_text(
        "useradd", USER).env).vars["add"]
    R = "apply-is-entries-times-block"
    for cls, p, inp in ops.NONPARAM + ops.POLY:
        for r, m in ops.sizes(cls, ctx.thorough):
            L = ops.lab(cls, r, m)
            w = ctx.locate(ctx.eng.lookup("opinf." + ops.path(cls)), "apply")
            wb = ctx.locate(ctx.eng.lookup("opinf." + ops.path(cls)),
                            "datablock")
            for k in ("k", 1, None, 2, 3) if m is not None else ("k", 1, None):
                with ctx.case("%s, %s" % (L, "one state" if k is None else
                                          "k=%s states" % k), R) as s:
                    op = ops.build(s, cls, r, m)
                    got = s.tcall(op, "apply", ops.state(s, r, k),
                                  ops.input_(s, m, k))
                    kk = 1 if k is None else k
                    Q = s.term(ops.state(s, r, k))
                    U = None if m is None else s.term(ops.input_(s, m, k))
                    if k is None:
                        Q = tm.col(Q)
                        U = U if U is None else tm.col(U)
                    blk = s.tcall(op, "datablock", s.arrt(Q),
                                  *([] if U is None else [s.arrt(U)]))
                    want = tm.matmul(ops.matrix(s, cls, op), blk)
                    if k is None:
                        want = tm.getitem(want, (("s", None, None, None),
                                                 ("i", const(0))))
                    s.same(R, w, got, want)
            # one-dimensional arguments where a dimension is one
            R2 = "block-width"
            with ctx.case(L, R2) as s:
                op = ops.build(s, cls, r, m)
                blk = s.tcall(op, "datablock", ops.state(s, r, "k"),
                              *([] if m is None else
                                [ops.input_(s, m, "k")]))
                rd = ops.D(s, r)
                dim = s.tcall(op, "operator_dimension", rd, *(
                    [] if m is None else [ops.D(s, m)]))
                s.same(R2, wb, blk.shape[0], dim, note="rows of datablock()")
                s.same(R2, wb, blk.shape[1], s.dim("k"),
                       note="columns of datablock()")
                s.same(R2, wb, ops.matrix(s, cls, op).shape[1], dim,
                       note="columns of entries")
            if not ("[" in cls):
                flat(ctx, cls, r, m, L, w)
            summed(ctx, cls, r, m, L, w, add)
            if isinstance(r, int):
                again(ctx, cls, r, m, L, w)
            if cls in ("QuadraticOperator", "CubicOperator",
                       "QuarticOperator"):
                full(ctx, cls, p, r, L)
            with ctx.case(L + ", integer states", R) as s:
                op = ops.build(s, cls, r, m)
                for k in (None, "k"):
                    sh = (ops.D(s, r),) + ((s.dim("k"),) if k else ())
                    us = (ops.D(s, m),) + ((s.dim("k"),) if k else ()) \
                        if m is not None else None
                    Q = s.iarr("q", *sh)
                    U = NONE if m is None else s.iarr("u", *us)
                    got = s.tcall(op, "apply", Q, U)
                    want = s.tcall(op, "apply", s.arrt(s.term(Q)),
                                   U if m is None else s.arrt(s.term(U)))
                    s.same(R, w, got, want, note="as for real states")
    parametric(ctx)


def parametric(ctx):
    """The matrices side by side times the data block of a parametric
    operator are the values at each training parameter."""
    R = "parametric-block"
    for nm in ops.PARAM:
        cls = nm + "Operator"
        mm = 2 if "Input" in nm else None
        for kind, hows in (("Affine", ("int", "fn", "list")),
                           ("Interp", ("1-D", "2-D"))):
            for how in hows:
                for r, m in ((2, mm), (1, mm), (2, mm and 1)):
                    pblock(ctx, R, kind, cls, r, m, how)


def pblock(ctx, R, kind, cls, r, m, how):
    ns = 3
    with ctx.case("%s%s(%s) r=%s m=%s" % (kind, cls, how, r, m), R) as s:
        nt = 2 if kind == "Affine" else ns
        op = ops.build_param(s, kind, cls, r, m, how, n=nt)
        w = s.where(op, "datablock")
        if kind == "Affine":
            mus = [s.arr("mu%d" % i, nt) if how == "int" else
                   s.flt("mu%d" % i) for i in range(ns)]
        else:
            mus = [s.flt("mu%d" % i) for i in range(ns)]
        Q = [ops.state(s, r, "k", "pm:Q%d" % i) for i in range(ns)]
        U = None if m is None else [ops.input_(s, m, "k", "pm:U%d" % i)
                                    for i in range(ns)]
        ctx.label += ", %d parameters" % ns
        blk = s.tcall(op if kind == "Affine" else s.clsof(op), "datablock",
                      mus, Q, *([] if U is None else [U]))
        dim = s.tcall(op if kind == "Affine" else s.clsof(op),
                      "operator_dimension", const(ns), ops.D(s, r),
                      NONE if m is None else ops.D(s, m))
        s.same(R, w, blk.shape[0], dim, note="rows of datablock()")
        if kind == "Affine":
            E = [s.term(s.item(s.get(op, "entries"), i)) for i in range(nt)]
        else:
            e = s.tget(op, "entries")
            E = [tm.getitem(e, (("i", const(i)),)) for i in range(ns)]
        B = tm.concat([tm.col(e) if len(e.shape) == 1 else e for e in E], 1)
        out = []
        for i in range(ns):
            a = [Q[i]] + ([] if U is None else [U[i]])
            if kind == "Affine":
                out.append(s.tcall(op, "apply", mus[i], *a))
            else:
                o = s.new("operators." + cls, s.arrt(E[i]))
                out.append(s.tcall(o, "apply", Q[i],
                                   NONE if U is None else U[i]))
        s.same(R, w, tm.matmul(B, blk), tm.concat(out, 1))


def flat(ctx, cls, r, m, L, w):
    """A state or input of one component may be given without that axis."""
    R = "one-dimensional-arguments"
    if isinstance(r, str) or isinstance(m, str):
        return
    for which in ("states", "inputs", "both"):
        if which != "inputs" and r != 1 or which != "states" and m != 1:
            continue
        for kk in ("k + 1", 2):
            row(ctx, R, cls, r, m, L, w, which, kk)


def row(ctx, R, cls, r, m, L, w, which, kk):
    if True:
        with ctx.case("%s, %s given as a row of %s" % (L, which, kk),
                      R) as s:
            k = const(2) if kk == 2 else tm.add(s.dim("k"), const(1))
            op = ops.build(s, cls, r, m)
            q = s.term(s.arr("pm:q", ops.D(s, r), k))
            u = None if m is None else s.term(s.arr("pm:u", ops.D(s, m), k))
            want = s.tcall(op, "apply", s.arrt(q), NONE if u is None else
                           s.arrt(u))
            first = (("i", const(0)),)
            if which != "inputs":
                q = tm.getitem(q, first)
            if which != "states":
                u = tm.getitem(u, first)
            got = s.tcall(op, "apply", s.arrt(q), NONE if u is None else
                          s.arrt(u))
            if got.shape is not None and len(got.shape) == 1 and r == 1:
                want = tm.getitem(want, first)
            s.same(R, w, got, want)


def again(ctx, cls, r, m, L, w):
    """Entries of another size replace the earlier ones altogether."""
    R = "replaced-entries"
    with ctx.case(L + ", entries of other sizes first", R) as s:
        for r0 in (r + 1, r - 1):
            if r0 < 1:
                continue
            op = ops.build(s, cls, r0, m, "F")
            s.call(op, "apply", ops.state(s, r0, None, "pm:q0"),
                   ops.input_(s, m))
            s.call(op, "jacobian", ops.state(s, r0, None, "pm:q0"),
                   ops.input_(s, m))
            s.call(op, "set_entries", ops.entries(s, cls, r, m))
            ref = ops.build(s, cls, r, m)
            for k in (None, "k"):
                a = (ops.state(s, r, k), ops.input_(s, m, k))
                s.same(R, w, s.tcall(op, "apply", *a),
                       s.tcall(ref, "apply", *a))
            a = (ops.state(s, r), ops.input_(s, m))
            s.same(R, ctx.locate(s.clsof(op), "jacobian"),
                   s.tcall(op, "jacobian", *a),
                   s.tcall(ref, "jacobian", *a), note="jacobian")


def summed(ctx, cls, r, m, L, w, add):
    """a + b acts as a and b together"""
    R = "sum-of-operators"
    w = ctx.locate(ctx.eng.lookup("opinf." + ops.path(cls)), "__add__")
    with ctx.case(L + ", sum of two", R) as s:
        a, b = ops.build(s, cls, r, m, "E"), ops.build(s, cls, r, m, "F")
        before = s.tget(a, "entries"), s.tget(b, "entries")
        out = s.run(add, a, b)
        if out.dead:
            ctx.bad(R, w, "%s + %s raises %s" % (L, L, ", ".join(sorted({
                x.cname() for x in out.raises}))))
        else:
            c = s.done(out, "", w)
            for k in (None, "k"):
                x = (ops.state(s, r, k), ops.input_(s, m, k))
                s.same(R, w, s.tcall(c, "apply", *x), tm.add(
                    s.tcall(a, "apply", *x), s.tcall(b, "apply", *x)),
                    note="apply()")
            x = (ops.state(s, r), ops.input_(s, m))
            s.same(R, w, s.tcall(c, "jacobian", *x), tm.add(
                s.tcall(a, "jacobian", *x), s.tcall(b, "jacobian", *x)),
                note="jacobian()")
            s.set(c, "entries", ops.entries(s, cls, r, m, "G"))
            for o, t in zip((a, b), before):
                s.same(R, w, s.tget(o, "entries"), t, note="the summands")
    if not isinstance(r, int) or m is not None and not isinstance(m, int):
        return
    others = [("another size", lambda s: ops.build(s, cls, r + 1, m, "F")),
              ("no entries", lambda s: ops.blank(s, cls)),
              ("another type", lambda s: ops.build(
                  s, "LinearOperator" if cls != "LinearOperator" else
                  "ConstantOperator", r, None, "F"))]
    if m is not None:
        others.append(("another input dimension", lambda s: ops.build(
            s, cls, r, m + 1, "F")))
    if "[" in cls:
        q = ops.order(cls)
        others += [("order %d" % p, lambda s, p=p: ops.build(
            s, "PolynomialOperator[%d]" % p, r, m, "F"))
            for p in range(4) if p != q]
    for what, other in others:
        for d in (0, 1):
            with ctx.case("%s and one with %s%s" % (
                    L, what, ", the other way round" if d else ""), R) as s:
                a, b = ops.build(s, cls, r, m, "E"), other(s)
                out = s.run(add, *((b, a) if d else (a, b)))
                if out.dead:
                    ctx.ok(R, w)
                else:
                    ctx.bad(R, w, "%s plus one with %s has a value" % (
                        L, what))


def full(ctx, cls, p, r, L):
    """Entries given as a tensor or as a matrix with a column for every
    product of components act on all those products."""
    R = "uncompressed-entries"
    if r ** (p + 1) > 300:
        return
    C = ctx.eng.lookup("opinf.operators." + cls)
    w = ctx.locate(C, "set_entries")
    with ctx.case(L + ", uncompressed entries", R) as s:
        F = s.term(s.arr("F", r, r ** p))
        T = tm.reshape(F, tuple(const(r) for _ in range(p + 1)))
        q = s.term(ops.state(s, r))
        comp = [tm.getitem(q, (("i", const(i)),)) for i in range(r)]
        prods = [const(1)]
        for _ in range(p):
            prods = [tm.mul(a, c) for a in prods for c in comp]
        want = tm.matmul(F, tm.array(prods))
        forms = [("tensor", T)]
        if r > 1:
            forms.append(("matrix", F))
        for nm, e in forms:
            op = s.new("operators." + cls, s.arrt(e))
            s.same(R, w, s.tcall(op, "apply", s.arrt(q)), want, note=nm)
        n = s.tcall(C, "compress_entries", s.arrt(F))
        op = s.new("operators." + cls, s.arrt(n))
        s.same(R, ctx.locate(C, "compress_entries"),
               s.tcall(op, "apply", s.arrt(q)), want,
               note="compress_entries")
        if s.has(C, "expand_entries"):
            E = ops.entries(s, cls, r, None)
            G = s.tcall(C, "expand_entries", E)
            op = s.new("operators." + cls, E)
            s.same(R, ctx.locate(C, "expand_entries"),
                   tm.matmul(G, tm.array(prods)),
                   tm.reshape(s.tcall(op, "apply", s.arrt(q)),
                              (const(r),)), note="expand_entries")
