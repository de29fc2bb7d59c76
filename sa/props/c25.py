"""Error measures compute the documented ratios."""
from .. import terms as tm
from ..terms import const, sym, NONE
from .c12 import lst
from .c26 import ext

R, RW = "documented-formula", "alignment-is-checked"
INF = float("inf")


def total(s, t, axis=None):
    return s.term(ext(s, "np.sum", s.arrt(t), axis=axis))


def largest(s, t, axis=None):
    return s.term(ext(s, "np.max", s.arrt(t), axis=axis))


def power(t, p):
    return tm.power(t, p if isinstance(p, tm.T) else const(p))


def magnitude(s, t):
    return s.term(ext(s, "np.abs", s.arrt(t)))


def lp(s, t, p):
    """norm of each column"""
    a = magnitude(s, t)
    if p == INF:
        return largest(s, a, 0)
    pt = p if isinstance(p, tm.T) else const(p)
    return tm.power(total(s, power(a, pt), 0), tm.div(const(1), pt))


def integral(s, y, t):
    hi, lo = ("s", const(1), None, None), ("s", None, const(-1), None)
    a, b = tm.getitem(y, (hi,)), tm.getitem(y, (lo,))
    return total(s, tm.mul(tm.div(tm.add(a, b), const(2)), tm.sub(
        tm.getitem(t, (hi,)), tm.getitem(t, (lo,)))))


def run(s, name, w, *a, **k):
    return lst(s, s.done(s.run(s.eng.lookup("opinf.post." + name), *a, **k),
                         name + "()", w))


def pair(s, w, got, err, ref):
    s.ctx.case
    s.same(R, w, got[0], err, note="absolute error")
    s.same(R, w, got[1], tm.div(err, ref), note="relative error")


def fro(s, t):
    return tm.power(total(s, tm.mul(t, t)), tm.div(const(1), const(2)))


def check(ctx):
    at = lambda n: ctx.locate(ctx.eng.lookup("opinf.post." + n))
    shapes = [("(n, k)", ("n", "k")), ("(n,)", ("n",))]
    for lab, d in shapes:
        def qs(s, d=d):
            return [s.term(s.arr(x, *[s.dim(y) for y in d]))
                    for x in ("P", "Q")]
        w = at("projection_error")
        with ctx.case("projection_error, states " + lab, R) as s:
            q = qs(s)[0]
            V = s.term(s.arr("V", s.dim("n"), s.dim("r")))
            e = tm.sub(q, tm.matmul(V, tm.matmul(tm.transpose(V), q)))
            pair(s, w, run(s, "projection_error", w, s.arrt(q), s.arrt(V)),
                 fro(s, e), fro(s, q))
        w = at("frobenius_error")
        if len(d) == 2:
            with ctx.case("frobenius_error", R) as s:
                q, a = qs(s)
                pair(s, w, run(s, "frobenius_error", w, s.arrt(q),
                               s.arrt(a)), fro(s, tm.sub(q, a)), fro(s, q))
        for p in (None, 1, 2, 3, 1.5, 0.5, INF, "symbolic"):
            for nz in (False, True):
                w = at("lp_error")
                with ctx.case("lp_error %s, p=%s%s" % (
                        lab, p, ", normalized" if nz else ""), R) as s:
                    q, a = qs(s)
                    kw = {"normalize": True} if nz else {}
                    pv = 2 if p is None else s.flt("p") if \
                        p == "symbolic" else p
                    if p is not None:
                        kw["p"] = pv
                    if p == "symbolic":
                        continue
                    ref = lp(s, q, pv)
                    if nz:
                        ref = largest(s, ref)
                    pair(s, w, run(s, "lp_error", w, s.arrt(q), s.arrt(a),
                                   **kw), lp(s, tm.sub(q, a), pv), ref)
    w = at("Lp_error")
    for lab, d in (("(n, k)", ("n", "k")), ("(k,)", ("k",))):
        for p in (None, 1, 2, 3, 1.5, INF):
            for time in (True, False):
                if not time and p != INF:
                    continue
                with ctx.case("Lp_error %s, p=%s%s" % (
                        lab, p, "" if time else ", no times"), R) as s:
                    q, a = [s.term(s.arr(x, *[
                        tm.add(s.dim(y), const(1)) if y == "k" else s.dim(y)
                        for y in d])) for x in ("P", "Q")]
                    t = s.term(s.arr("t", tm.add(s.dim("k"), const(1))))
                    pv = 2 if p is None else p
                    kw = {} if p is None else {"p": p}

                    def norm(z):
                        if len(d) == 1:
                            z = tm.reshape(z, (const(1),) + z.shape)
                        m = magnitude(s, z)
                        if pv == INF:
                            return largest(s, m)
                        return power(integral(s, total(
                            s, power(m, pv), 0), t), tm.div(
                                const(1), const(pv)))
                    pair(s, w, run(s, "Lp_error", w, s.arrt(q), s.arrt(a),
                                   *([s.arrt(t)] if time else []), **kw),
                         norm(tm.sub(q, a)), norm(q))
    rejected(ctx, at)


def rejected(ctx, at):
    """arguments that do not fit together"""
    def arrs(s, *shapes):
        return [s.arr("A%d" % i, *x) for i, x in enumerate(shapes)]
    bad = [("frobenius_error", [((3, 4), (3, 5)), ((3, 4), (4, 3)), ((3, 1), (3, 4)), ((3, 4), (4, 4)),
                                ((3,), (3,)), ((3, 4, 2), (3, 4, 2))], {}),
           ("lp_error", [((3, 4), (3, 5)), ((3, 4), (4, 3)), ((3, 4), (3, 1)),
                         ((1,), (4,)), ((4,), (1, 4)), ((3, 4), (3,)), ((3,), (4,)),
                         ((3, 4, 2), (3, 4, 2))], {}),
           ("lp_error", [((3, 4), (3, 4))], {"p": 0}),
           ("lp_error", [((3, 4), (3, 4))], {"p": -1}),
           ("lp_error", [((3, 4), (3, 4))], {"p": [1, 2]}),
           ("Lp_error", [((3, 4), (3, 5), (4,)), ((3, 4), (4, 3), (4,)),
                         ((3, 4), (3, 4), (5,)), ((4,), (4,), (5,)),
                         ((3, 4), (3, 1), (4,)), ((4,), (1, 4), (4,)),
                         ((3, 4), (3, 4), (1, 4)), ((3, 4), (3, 4), (3,)),
                         ((3, 4), (3, 4), (4, 1)), ((4,), (4,), (3,)),
                         ((3, 4, 2), (3, 4, 2), (2,)),
                         ((3, 4), (3, 4))], {}),
           ("Lp_error", [((3, 4), (3, 4), (4,))], {"p": 0}),
           ("Lp_error", [((3, 4), (3, 4), (4,))], {"p": -2}),
           ("Lp_error", [((3, 4), (3, 4), (4,))], {"p": [1, 2]}),
           ("Lp_error", [((3, 4), (3, 5))], {"p": INF})]
    for name, shapes, kw in bad:
        for sh in shapes:
            with ctx.case("%s of %s%s" % (name, ", ".join(map(str, sh)), "".
                                          join(", %s=%s" % x for x in
                                               kw.items())), RW) as s:
                o = s.run(s.eng.lookup("opinf.post." + name), *arrs(s, *sh),
                          **kw)
                s.must_raise(RW, at(name), o, ("ValueError",), name + "()")
