"""Equality means: the same kind, the same configuration, the same data.

Every kind of object that defines equality is built twice from the same data:
the comparison, on every path, has to be true.  Then it is built again with
exactly one thing changed; the comparison has to be false on every path and in
both directions.  Arrays are symbols, so a change of one entry is a change of a
generic entry; elementwise comparisons of arrays are decided by random
interpretation of the two sides.
"""
from .. import terms as tm, extern, rand
from ..terms import const, TRUE, FALSE
from ..values import PyFn
from . import common, ops, models

RE, RD = "identical-objects-are-equal", "different-objects-are-not-equal"

USER = '''
def same(a, b):
    return a == b


def differ(a, b):
    return a != b


class Copycat:
    """an unrelated object"""
    def __init__(self, n):
        self.n = n
'''


def verdict(a, b):
    if a is b:
        return TRUE
    if a.shape != b.shape:
        return None
    v = rand.compare(a, b).verdict
    return TRUE if v == "eq" else FALSE if v == "ne" else None


def decide(op, t):
    """all(a == b) and any(a != b) for generic arrays"""
    if op == "all" and t.op == "eq":
        return verdict(*t.args)
    if t.op == "eqz":
        return verdict(t.args[0], const(0))
    if op == "any" and t.op == "not" and t.args[0].op == "eq":
        v = verdict(*t.args[0].args)
        return None if v is None else tm.bnot(v)
    return None


CLOSE = extern.EXT["np.allclose"]


def close(eng, st, args, kwargs):
    a, b = [extern.arr_term(eng, st, x) for x in args[:2]]
    v = verdict(a, b)
    return CLOSE(eng, st, args, kwargs) if v is None else v


def setup(eng):
    m = eng.load_text("usereq", USER)
    extern.DECIDE.append(decide)
    for n in ("np.allclose", "np.array_equal"):
        extern.EXT[n] = close
    return eng.base_state.get(m.env).vars


def truth(s, out):
    if out.dead:
        return None, ", ".join(sorted({r.cname() for r in out.raises}))
    if out.raises:
        return None, "it can raise " + out.raises[0].cname()
    t = s.eng.term(out.st, out.value)
    if t.op == "isclose":
        return None, "?"
    return t, ""


def judge(s, ctx, v, w, what, a, b, want):
    """a == b is `want`, in both directions, and != is its opposite"""
    R = RE if want else RD
    for x, y, d in ((a, b, ""), (b, a, ", the other way round")):
        for f, good in (("same", want), ("differ", not want)):
            out = s.run(v[f], x, y)
            t, why = truth(s, out)
            if t is None and why != "?":
                ctx.bad(R, w, "comparing %s%s: %s" % (what, d, why))
            elif t is None or not tm.is_const(t):
                ctx.undec(R, w, "comparing %s%s: %s" % (
                    what, d, "?" if t is None else tm.show(t, 4)[:100]))
            elif bool(tm.cval(t)) != good:
                ctx.bad(R, w, "%s compare %s%s" % (
                    what, "unequal" if want else "equal", d))
            else:
                ctx.ok(R, w)


def group(ctx, v, cls, label, first, others):
    """first: builder; others: (what, builder) each with one difference"""
    w = ctx.locate(cls, "__eq__")
    with ctx.case("%s: identical" % label, RE) as s:
        a, b = first(s), first(s)
        judge(s, ctx, v, w, "two of " + label, a, b, True)
        judge(s, ctx, v, w, "one " + label, a, a, True)
    with ctx.case("%s and unrelated objects" % label, RD) as s:
        a = first(s)
        for what, b in (("None", None), ("a number", 3), ("an object", s.done(
                s.run(v["Copycat"], 3), "", w))):
            judge(s, ctx, v, w, "%s and %s" % (label, what), a, b, False)
    for what, other in others:
        with ctx.case("%s; %s" % (label, what), RD) as s:
            judge(s, ctx, v, w, "%s and one with %s" % (label, what),
                  first(s), other(s), False)


def poke(s, arr, *at):
    """the array with one entry changed"""
    t = s.term(arr)
    at = tuple(("i", const(i)) for i in at)
    return s.arrt(tm.setitem(t, at, tm.add(tm.getitem(t, at), const(1))))


# ----------------------------------------------------------- transformations
def sst(s, fit="X", n=4, dim=None, **kw):
    o = s.new("pre.ShiftScaleTransformer", **kw)
    if dim:
        s.set(o, "state_dimension", dim)
    if fit:
        s.call(o, "fit", s.arr(fit, n, 6))
    return o


def transformers(ctx, v):
    name = "pre.ShiftScaleTransformer"
    good = [x for x in common.valid_scalings(ctx) or common.SCALINGS]
    cfgs = [dict(centering=True), dict()] + [
        dict(scaling=x) for x in good] + [
        dict(centering=True, scaling=x) for x in good] + [
        dict(scaling=x, byrow=True) for x in good
        if x not in ("maxnorm", "maxnormsym")]
    for kw in cfgs:
        others = [("other " + " and ".join(sorted(set(dict(
            set(kw.items()) ^ set(o.items()))))), lambda s, o=o: sst(s, **o))
            for o in cfgs if o != kw and (
                o.get("scaling") == kw.get("scaling") or
                o.get("centering") == kw.get("centering"))]
        others.append(("another dimension", lambda s: sst(s, "X5", 5, **kw)))
        if kw:
            others.append(("other training data",
                           lambda s: sst(s, "Y", **kw)))
            others.append(("no training data",
                           lambda s: sst(s, None, **kw)))
            others.append(("no training data, but a dimension",
                           lambda s: sst(s, None, dim=4, **kw)))
        group(ctx, v, name, "%s(%s)" % (name, kw), lambda s: sst(s, **kw),
              others)
    group(ctx, v, name, "untrained " + name,
          lambda s: sst(s, None, centering=True), [
              ("other options", lambda s: sst(s, None))])

    def multi(s, *parts, **kw):
        o = s.new("pre.TransformerMulti", [sst(s, None, **p) for p in parts],
                  **kw)
        return o

    def trained(s, data, *parts):
        o = multi(s, *parts, variable_sizes=[2, 3])
        s.call(o, "fit", s.arr(data, 5, 6))
        return o
    A, B, C = dict(centering=True), dict(scaling="standard"), dict()
    name = "pre.TransformerMulti"
    group(ctx, v, name, name, lambda s: multi(s, A, B), [
        ("the first different", lambda s: multi(s, C, B)),
        ("the second different", lambda s: multi(s, A, C)),
        ("another order", lambda s: multi(s, B, A)),
        ("another variable", lambda s: multi(s, A, B, A))])
    group(ctx, v, name, "trained " + name, lambda s: trained(s, "X", A, B), [
        ("other data", lambda s: trained(s, "Y", A, B)),
        ("the first different", lambda s: trained(s, "X", C, B)),
        ("no data", lambda s: multi(s, A, B, variable_sizes=[2, 3]))])


# --------------------------------------------------------------------- bases
def bases(ctx, v):
    name = "basis.LinearBasis"

    def lin(s, V="V", W=None, poked=None, n=5, r=2):
        V = s.arr(V, n, r)
        if poked:
            V = poke(s, V, *poked)
        return s.new(name, V, *([] if W is None else [W(s)]),
                     check_orthogonality=False)
    vec = lambda s: s.arr("w", 5)
    mat = lambda s: s.arr("W", 5, 5)
    dia = lambda t="w": lambda s: s.ext("sparse.dia_array", s, t)
    for wl, W, more in (("no weights", None, [("weights", vec)]), (
            "a vector of weights", vec, [
                ("the first weight different",
                 lambda s: poke(s, s.arr("w", 5), 0)),
                ("the last weight different",
                 lambda s: poke(s, s.arr("w", 5), 4)),
                ("no weights", None), ("a weight matrix", mat)]), (
            "a weight matrix", mat, [
                ("the first weight different",
                 lambda s: poke(s, s.arr("W", 5, 5), 0, 0)),
                ("the last weight different",
                 lambda s: poke(s, s.arr("W", 5, 5), 4, 4)),
                ("another weight different",
                 lambda s: poke(s, s.arr("W", 5, 5), 1, 2)),
                ("no weights", None), ("a vector of weights", vec)])):
        group(ctx, v, name, "%s with %s" % (name, wl), lambda s: lin(
            s, W=W), [
                ("the first entry different", lambda s: lin(
                    s, W=W, poked=(0, 0))),
                ("the last entry different", lambda s: lin(
                    s, W=W, poked=(4, 1))),
                ("other entries", lambda s: lin(s, "V2", W=W)),
                ("fewer vectors", lambda s: lin(s, "V1", W=W, r=1))] + ([
                    ("another dimension", lambda s: lin(s, "V6", n=6))]
                    if W is None else []) + [
                (x, lambda s, y=y: lin(s, W=y)) for x, y in more])
    name2 = "basis.BasisMulti"

    def multi(s, *parts):
        return s.new(name2, [lin(s, *p) for p in parts])
    group(ctx, v, name2, name2, lambda s: multi(s, ("A",), ("B",)), [
        ("the first different", lambda s: multi(s, ("C",), ("B",))),
        ("the second different", lambda s: multi(s, ("A",), ("C",))),
        ("another order", lambda s: multi(s, ("B",), ("A",))),
        ("another variable", lambda s: multi(s, ("A",), ("B",), ("A",)))])


# ----------------------------------------------------------------- operators
def operators(ctx, v):
    r = 3
    for nm in [x[0] for x in ops.NONPARAM]:
        cls = nm + "" if nm.endswith("Operator") else nm + "Operator"
        name = "operators." + cls
        m = 3 if "Input" in nm else None
        d = ops.width(cls, r, m)
        sh = (r,) if "Constant" in nm else (r, d)
        last = tuple(x - 1 for x in sh)

        def new(s, tag="E", at=None, sh=sh, name=name):
            E = s.arr(tag, *sh)
            return s.new(name, E if at is None else poke(s, E, *at))
        other = "LinearOperator" if cls != "LinearOperator" else \
            "QuadraticOperator"
        rows = [("the first entry different",
                 lambda s: new(s, at=(0,) * len(sh))),
                ("the last entry different", lambda s: new(s, at=last)),
                ("other entries", lambda s: new(s, "F")),
                ("no entries", lambda s: s.new(name)),
                ("another dimension", lambda s: ops.build(
                    s, cls, 2, m, "E2")),
                ("another type", lambda s: ops.build(s, other, r, m, "E"))]
        if m:
            rows.append(("another input dimension", lambda s: ops.build(
                s, cls, r, 2, "Em")))
        group(ctx, v, name, name, new, rows)
        group(ctx, v, name, name + " without entries",
              lambda s: s.new(name), [
                  ("entries", new),
                  ("another type", lambda s: s.new("operators." + other))])
        if nm.replace("Operator", "") in ops.PARAM:
            interp(ctx, v, cls, r, m)
    name = "operators.PolynomialOperator"
    for p in (0, 1, 2, 3, 4):
        group(ctx, v, name, "%s(%d)" % (name, p),
              lambda s: s.new(name, p, s.arr("E", 1, 1)), [
                  ("order %d" % q, lambda s, q=q: s.new(
                      name, q, s.arr("E", 1, 1))) for q in range(5)
                  if q != p] + [
                  ("another entry", lambda s: s.new(name, p, s.arr(
                      "F", 1, 1))),
                  ("no entries", lambda s: s.new(name, p))])
        group(ctx, v, name, "%s(%d) without entries" % (name, p),
              lambda s: s.new(name, p), [("order %d" % q, lambda s, q=q:
                                          s.new(name, q)) for q in range(5)
                                         if q != p])


def interp(ctx, v, cls, r, m):
    name = "operators.Interp" + cls

    def new(s, at=None, mu=None, n=3, entries=True, mus="mus", p=None, **kw):
        M = s.arr(mus, *((n,) if p is None else (n, p)))
        if mu is not None:
            M = poke(s, M, mu)
        if not entries:
            return s.new(name, M, **kw)
        E = [ops.entries(s, cls, r, m, "E%d" % i) for i in range(n)]
        if at:
            i = [0] * len(s.term(E[at[0]]).shape)
            E[at[0]] = poke(s, E[at[0]], *i)
        return s.new(name, M, entries=E, **kw)
    from .c27 import user_interp
    rows = [("entries different at %d" % i, lambda s, i=i: new(s, at=(i,)))
            for i in range(3)] + [
        ("training parameter %d different" % i, lambda s, i=i: new(s, mu=i))
        for i in range(3)] + [
        ("fewer training parameters", lambda s: new(s, n=2, mus="mus2")),
        ("more training parameters", lambda s: new(s, n=4, mus="mus4")),
        ("no entries", lambda s: new(s, entries=False)),
        ("nothing", lambda s: s.new(name)),
        ("another interpolator", lambda s: new(
            s, InterpolatorClass=user_interp(s)))]
    group(ctx, v, name, name, new, rows)
    group(ctx, v, name, name + " without entries", lambda s: new(
        s, entries=False), [
            ("other parameters", lambda s: new(s, entries=False, mu=1)),
            ("no parameters", lambda s: s.new(name)),
            ("entries", new)])


# -------------------------------------------------------------------- models
def modelled(ctx, v):
    for kind in ("Continuous", "Discrete"):
        name = "models.%sModel" % kind

        def new(s, *mix, tags=None, pat="given"):
            lst = []
            for i, nm in enumerate(mix):
                if pat == "free":
                    lst.append(s.new("operators.%sOperator" % nm))
                else:
                    lst.append(ops.build(
                        s, nm + "Operator", models.R_, models.mdim(nm),
                        nm + (tags[i] if tags else "")))
            return s.new(name, lst)
        L = ("Constant", "Linear", "Quadratic")
        other = "models.%sModel" % (
            "Discrete" if kind == "Continuous" else "Continuous")
        for mix, more in ((L, "Cubic"), (("Linear", "Input"), "StateInput")):
            n = len(mix)
            rows = [("operator %d different" % i, lambda s, i=i: new(
                s, *mix, tags=["x" if j == i else "" for j in range(n)]))
                for i in range(n)] + [
                ("operator %d missing" % i, lambda s, i=i: new(
                    s, *(mix[:i] + mix[i + 1:]))) for i in range(n)] + [
                ("another operator", lambda s: new(s, *mix, more)),
                ("another operator first", lambda s: new(s, more, *mix)),
                ("no entries", lambda s: new(s, *mix, pat="free"))]
            group(ctx, v, name, "%s(%s)" % (name, "+".join(mix)),
                  lambda s: new(s, *mix), rows)
            w = ctx.locate(name, "__eq__")
            with ctx.case("%s(%s), another order" % (name, "+".join(mix)),
                          RE) as s:
                judge(s, ctx, v, w, "two of %s in another order" % name,
                      new(s, *mix), new(s, *mix[::-1]), True)
            group(ctx, v, name, "untrained %s(%s)" % (name, "+".join(mix)),
                  lambda s: new(s, *mix, pat="free"), [
                      ("operator %d missing" % i, lambda s, i=i: new(
                          s, *(mix[:i] + mix[i + 1:]), pat="free"))
                      for i in range(n)] + [("entries", lambda s: new(
                          s, *mix))])
            with ctx.case("%s and %s" % (name, other), RD) as s:
                a = new(s, *mix)
                b = s.new(other, [ops.build(
                    s, nm + "Operator", models.R_, models.mdim(nm), nm)
                    for nm in mix])
                judge(s, ctx, v, w, "a continuous and a discrete model", a,
                      b, False)


def posteriors(ctx, v):
    name = "roms.OperatorPosterior"

    def new(s, r=2, mean=None, cov=None, at=None, d=3, wide=()):
        n = [d + (i in wide) for i in range(r)]
        M = [s.arr("m%d%d" % (i, n[i]), n[i]) for i in range(r)]
        C = [s.arr("C%d%d" % (i, n[i]), n[i], n[i]) for i in range(r)]
        if mean is not None:
            M[mean] = poke(s, M[mean], 1)
        if cov is not None:
            C[cov] = poke(s, C[cov], *at)
        return s.new(name, M, C, alreadyinverted=True)
    w = ctx.locate(name, "__eq__")
    with ctx.case(name, RE) as s:
        judge(s, ctx, v, w, "two posteriors", new(s), new(s), True)
    for what, kw in [("mean %d different" % i, dict(mean=i))
                     for i in (0, 1)] + [
            ("covariance %d different at %s" % (i, at), dict(cov=i, at=at))
            for i in (0, 1) for at in ((0, 0), (1, 2), (2, 2))] + [
            ("wider rows", dict(d=4)), ("a wider row", dict(wide=(1,))),
            ("another row", dict(r=3)), ("a row less", dict(r=1))]:
        with ctx.case("%s, %s" % (name, what), RD) as s:
            judge(s, ctx, v, w, "posteriors with " + what, new(s),
                  new(s, **kw), False)


def check(ctx):
    v = setup(ctx.eng)
    transformers(ctx, v)
    bases(ctx, v)
    operators(ctx, v)
    modelled(ctx, v)
    posteriors(ctx, v)
