"""Transformations compute their documented formulas."""
from .. import terms as tm
from ..terms import const, NONE
from ..values import Tup
from . import common
from .c12 import lst
from .c26 import ext, rows

RF, RA, RG, RV = ("learned-scaling", "given-parameters", "functional-form",
                  "variable-blocks")
SCALINGS = (None, "standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "maxnorm", "maxnormsym")


def e(s, name, t, **k):
    return s.term(ext(s, name, s.arrt(t) if t.shape else t, **k))


def bycol(t, v):
    """v, one number or one per row, shaped to combine with t"""
    if v.shape and len(t.shape) == 2:
        return tm.reshape(v, (v.shape[0], const(1)))
    return v


def affine(s, X, centering, scaling, byrow):
    """(mean, alpha, beta) of the documented map learned from X"""
    mean = None
    if centering:
        mean = e(s, "np.mean", X, axis=1)
        X = tm.sub(X, bycol(X, mean))
    if scaling is None:
        return mean, None, None
    ax = 1 if byrow else None
    R = lambda f, t: e(s, f, t, axis=ax)
    inv = lambda t: tm.div(const(1), t)
    zero = const(0)
    norm = lambda t: tm.power(e(s, "np.max", e(s, "np.sum", tm.mul(t, t),
                                               axis=0)),
                              tm.div(const(1), const(2)))
    if scaling == "standard":
        a = inv(R("np.std", X))
        b = tm.neg(tm.mul(R("np.mean", X), a))
    elif scaling in ("minmax", "minmaxsym"):
        lo, hi = R("np.min", X), R("np.max", X)
        w = tm.sub(hi, lo)
        if scaling == "minmax":
            a = inv(w)
            b = tm.neg(tm.mul(lo, a))
        else:
            a = tm.div(const(2), w)
            b = tm.sub(tm.neg(tm.mul(lo, a)), const(1))
    elif scaling == "maxabs":
        a, b = inv(R("np.max", e(s, "np.abs", X))), zero
    elif scaling == "maxabssym":
        mu = R("np.mean", X)
        a = inv(R("np.max", e(s, "np.abs", tm.sub(X, bycol(X, mu)))))
        b = tm.neg(tm.mul(mu, a))
    elif scaling == "maxnorm":
        a, b = inv(norm(X)), zero
    else:
        mu = e(s, "np.mean", X)
        a = inv(norm(tm.sub(X, mu)))
        b = tm.neg(tm.mul(mu, a))
    return mean, a, b


def forward(P, m):
    mean, a, b = m
    if mean is not None:
        P = tm.sub(P, bycol(P, mean))
    if a is not None:
        P = tm.add(tm.mul(P, bycol(P, a)), bycol(P, b))
    return P


def backward(P, m, locs=None):
    mean, a, b = m
    at = lambda v: tm.getitem(v, (("a", locs),)) if locs is not None and \
        v.shape else v
    if a is not None:
        P = tm.div(tm.sub(P, bycol(P, at(b))), bycol(P, at(a)))
    if mean is not None:
        P = tm.add(P, bycol(P, at(mean)))
    return P


def ddts(P, m):
    return P if m[1] is None else tm.mul(P, bycol(P, m[1]))


def maps(s, ctx, rule, w, o, n, m, note):
    """every map of o against the affine map m"""
    for sh in (("k",), ()):
        t = "states" if sh else "vector"
        for ip in (False, True):
            for name, f in (("transform", forward),
                            ("inverse_transform", backward),
                            ("transform_ddts", ddts)):
                q = s.fork()
                P = q.arr("P%d" % len(sh), n(q), *[q.dim(x) for x in sh])
                want = f(q.term(P), m)
                got = q.term(q.call(o, name, P, inplace=ip))
                q.same(rule, w(name), got, want, note="%s(%s%s) %s" % (
                    name, t, ", inplace" if ip else "", note))
        q = s.fork()
        locs = common.mk_locs("locs", "p")
        P = q.arr("L%d" % len(sh), q.dim("p"), *[q.dim(x) for x in sh])
        want = backward(q.term(P), m, locs)
        got = q.term(q.call(o, "inverse_transform", P, locs=q.arrt(locs)))
        q.same(rule, w("inverse_transform"), got, want,
               note="inverse_transform(%s, locs) %s" % (t, note))


def learned(ctx):
    cls = "pre.ShiftScaleTransformer"
    w = lambda m: ctx.locate(cls, m)
    n = common.nfun("n")
    for cen in (False, True):
        for sc in SCALINGS:
            for row in (False, True):
                if row and (sc is None or "norm" in sc):
                    continue
                for verb in (False, True):
                    with ctx.case("centering=%s, scaling=%s, byrow=%s%s" % (
                            cen, sc, row, ", verbose" if verb else ""),
                            RF) as s:
                        mk = lambda q: q.new(cls, centering=cen, scaling=sc,
                                             byrow=row, verbose=verb)
                        m = None
                        for ip in (False, True):
                            q = s.fork()
                            o = mk(q)
                            X = q.arr("X", n(q), q.dim("k0"))
                            xt = q.term(X)
                            m = affine(q, xt, cen, sc, row)
                            got = q.term(q.call(o, "fit_transform", X,
                                                inplace=ip))
                            q.same(RF, w("fit_transform"), got,
                                   forward(xt, m),
                                   note="fit_transform(X%s)" % (
                                       ", inplace" if ip else ""))
                        o = mk(s)
                        s.call(o, "fit", s.arr("X", n(s), s.dim("k0")))
                        for a, v in (("mean_", m[0]), ("scale_", m[1]),
                                     ("shift_", m[2])):
                            got = s.get(o, a)
                            if v is None:
                                v = NONE
                            elif row and a == "shift_" and not v.shape:
                                v = tm.mul(const(0), m[1])
                            s.same(RF, w(a), s.term(got), v, note=a)
                        maps(s, ctx, RF, w, o, n, m, "after fit(X)")


def given(ctx):
    n = common.nfun("n")
    for lab, cls, mk, m in (
            ("vector", "pre.ShiftTransformer",
             lambda s: s.arr("ref", s.dim("n")), lambda v: (v, None, None)),
            ("vector", "pre.ScaleTransformer",
             lambda s: s.arr("scl", s.dim("n")),
             lambda v: (None, v, const(0))),
            ("number", "pre.ScaleTransformer", lambda s: s.flt("c"),
             lambda v: (None, v, const(0))),
            ("", "pre.NullTransformer", None,
             lambda v: (None, None, None))):
        w = lambda x: ctx.locate(cls, x)
        for fit in (True, False):
            with ctx.case("%s(%s)%s" % (cls.split(".")[1], lab, ", fitted"
                                        if fit else ""),
                    RA) as s:
                v = mk and mk(s)
                vt = mk and s.term(v)
                o = s.new(cls, *([v] if mk else []))
                if fit:
                    s.call(o, "fit", s.arr("X", n(s), s.dim("k0")))
                elif not (vt is not None and vt.shape):
                    if "Null" not in cls:
                        continue
                    s.set(o, "state_dimension", s.term(s.dim("n")))
                maps(s, ctx, RA, w, o, n, m(vt), "")


def functions(ctx):
    at = lambda f: ctx.locate(ctx.eng.lookup("opinf.pre." + f))
    with ctx.case("shift", RG) as s:
        X = s.arr("X", s.dim("n"), s.dim("k"))
        xt = s.term(X)
        mean = e(s, "np.mean", xt, axis=1)
        f = s.eng.lookup("opinf.pre.shift")
        q = s.fork()
        r = lst(q, q.done(q.run(f, X), "shift()", at("shift")))
        q.same(RG, at("shift"), q.term(r[0]), tm.sub(xt, bycol(xt, mean)),
               note="shift(X)[0]")
        q.same(RG, at("shift"), q.term(r[1]), mean, note="shift(X)[1]")
        for sh in ((), (1,)):
            q = s.fork()
            v = q.arr("v", q.dim("n"), *sh)
            vt = q.term(v)
            r = q.done(q.run(f, X, v), "shift()", at("shift"))
            q.same(RG, at("shift"), q.term(r), tm.sub(xt, bycol(
                xt, tm.flat(vt) if sh else vt)), note="shift(X, v%s)" % (
                    " (n, 1)" if sh else ""))
    with ctx.case("scale", RG) as s:
        X = s.arr("X", s.dim("n"), s.dim("k"))
        xt = s.term(X)
        f = s.eng.lookup("opinf.pre.scale")
        a, b, c, d = [s.term(s.flt(x)) for x in "abcd"]
        c2 = tm.add(c, tm.add(d, const(1)))
        form = lambda lo, hi: tm.add(tm.mul(tm.div(
            tm.sub(xt, lo), tm.sub(hi, lo)), tm.sub(b, a)), a)
        q = s.fork()
        r = q.done(q.run(f, X, (a, b), (c, c2)), "scale()", at("scale"))
        q.same(RG, at("scale"), q.term(r), form(c, c2),
               note="scale(X, to, from)")
        q = s.fork()
        lo, hi = e(q, "np.min", xt), e(q, "np.max", xt)
        r = lst(q, q.done(q.run(f, X, (a, b)), "scale()", at("scale")))
        q.same(RG, at("scale"), q.term(r[0]), form(lo, hi),
               note="scale(X, to)[0]")
        for i, want in ((1, (a, b)), (2, (lo, hi))):
            got = lst(q, r[i])
            for x, y, nm in zip(got, want, ("lower", "upper")):
                q.same(RG, at("scale"), q.term(x), y, note="scale(X, to)"
                       "[%d], %s bound" % (i, nm))


def blocks(ctx):
    w = lambda m: ctx.locate("pre.TransformerMulti", m)
    for names in ((None, None, None), ("q", "c", "a"), ("b", None, "a")):
        for sized in (True, False):
            with ctx.case("names %s, %s" % (names, "sizes given" if sized else
                                            "sizes learned"), RV) as s:
                ts = [s.new("pre.ShiftScaleTransformer", centering=True,
                            **({"name": x} if x else {})) for x in names]
                szs = [s.term(s.dim("n%d" % (i if sized else 0)))
                       for i in range(3)]
                kw = {"variable_sizes": tuple(szs)} if sized else {}
                o = s.new("pre.TransformerMulti", ts, **kw)
                X = s.arr("X", tm.add(tm.add(szs[0], szs[1]), szs[2]),
                          s.dim("k"))
                xt = s.term(X)
                s.call(o, "fit", X)
                edge = [const(0)]
                for z in szs:
                    edge.append(tm.add(edge[-1], z))
                blk = [tm.getitem(xt, (("s", edge[i], edge[i + 1], None),))
                       for i in range(3)]
                parts = lst(s, s.call(o, "split", X))
                s.same(RV, w("split"), const(len(parts)), const(3),
                       note="number of parts")
                for i, p in enumerate(parts):
                    s.same(RV, w("split"), s.term(p), blk[i],
                           note="split()[%d]" % i)
                full = [x or "variable %d" % i for i, x in enumerate(names)]
                for i, x in enumerate(full):
                    for key in (i, x):
                        q = s.fork()
                        got = q.call(o, "get_var", key, X)
                        q.same(RV, w("get_var"), q.term(got), blk[i],
                               note="get_var(%r)" % key)
                        q = s.fork()
                        got = q.eng.meth(q.st, o, "__getitem__",
                                         [q.val(key)], {}).value
                        (ctx.ok if got == ts[i] else ctx.bad)(
                            *((RV, w("__getitem__")) + (() if got == ts[i]
                              else ("[%r] is not part %d" % (key, i),))))
                # each part learned from its own block
                tr = s.term(s.call(o, "transform", X))
                want = tm.concat([tm.sub(b, bycol(b, e(
                    s, "np.mean", b, axis=1))) for b in blk], 0)
                s.same(RV, w("transform"), tr, want, note="transform(X)")


def check(ctx):
    learned(ctx)
    given(ctx)
    functions(ctx)
    blocks(ctx)
