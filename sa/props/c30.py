"""Arguments outside the documented domain are refused, those inside are not.

Each public constructor, setter and method is analysed with one argument
outside the domain its documentation gives (a number of the wrong sign, an
option that does not exist, an object of the wrong kind, a missing or
duplicate part) and all others in order: no path may return.  The boundary of
the domain itself is analysed too: there, no path may be cut off.
"""
from fractions import Fraction
from .. import terms as tm
from ..terms import const, sym, mk, NONE
from ..values import PyFn
from . import common, ops, models, c19
from .common import attempt, attempted
from .c22 import sized

RR, RA = "outside-the-domain-refused", "inside-the-domain-accepted"
OKAY = ("ValueError", "TypeError", "AttributeError", "DimensionalityError",
        "RuntimeError", "ZeroDivisionError", "KeyError", "OpInfException")
TINY = Fraction(1, 10 ** 9)


def refuse(s, ctx, w, what, fn):
    a = attempted(s, fn)
    if a[0] == "undec":
        ctx.undec(RR, w, what + ": " + str(a[1]))
    elif a[0] == "val":
        ctx.bad(RR, w, "%s returns %s instead of raising an error" % (
            what, tm.show(a[1], 4)[:120]))
    elif not set(a[1]) <= set(OKAY):
        ctx.bad(RR, w, "%s raises %s" % (what, a[2].split(": ", 1)[-1]))
    else:
        ctx.ok(RR, w)


def accept(s, ctx, w, what, fn):
    a = attempt(s.fork(), fn)
    if a[0] == "undec":
        ctx.undec(RA, w, what + ": " + str(a[1]))
    elif a[0] == "raise":
        ctx.bad(RA, w, "%s raises %s" % (what, a[2].split(": ", 1)[-1]))
    else:
        ctx.ok(RA, w)


def table(s, ctx, name, rows):
    """rows: (method, what, fn, good)"""
    for m, what, fn, good in rows:
        (accept if good else refuse)(s, ctx, ctx.locate(name, m), what, fn)


def made(ctx, name, rows):
    """rows: (what, args, kwargs, good)"""
    with sized(ctx, name + "()") as s:
        table(s, ctx, name, [("__init__", "%s(%s)" % (name, what),
                              lambda s, a=a, k=k: s.new(
                                  name, *(a(s) if callable(a) else a),
                                  **(k(s) if callable(k) else k)), good)
                             for what, a, k, good in rows])


NEG = (("-1", -1), ("-1e-9", const(-TINY)))


# ---------------------------------------------------------- preprocessing
def preprocessing(ctx):
    good = common.valid_scalings(ctx) or common.SCALINGS
    rows = [("scaling=%r" % x, (), dict(scaling=x), True) for x in good]
    rows += [("scaling=%r" % x, (), dict(scaling=x), False)
             for x in ("bogus", "", "Standard", "minmaxsymm", "max", 3, True)]
    rows += [("scaling=%r, byrow" % x, (), dict(scaling=x, byrow=True),
              x not in ("maxnorm", "maxnormsym")) for x in good]
    made(ctx, "pre.ShiftScaleTransformer", rows)
    made(ctx, "pre.ShiftTransformer", [
        ("a vector", lambda s: [s.arr("x", 4)], {}, True),
        ("a matrix", lambda s: [s.arr("x", 4, 3)], {}, False),
        ("a column", lambda s: [s.arr("x", 4, 1)], {}, False),
        ("a list", ([1, 2, 3],), {}, False), ("a number", (3,), {}, False),
        ("None", (None,), {}, False)])
    made(ctx, "pre.ScaleTransformer", [
        ("-2", (-2,), {}, True), ("0", (0,), {}, False),
        ("0.0", (const(0),), {}, False),
        ("a matrix", lambda s: [s.arr("x", 4, 3)], {}, False),
        ("a text", ("2",), {}, False), ("None", (None,), {}, False),
        ("a list", ([1, 2],), {}, False)] + [
        ("%s" % (x,), lambda s, x=x: [s.arrt(tm.array(
            [const(y) for y in x]))], {}, all(x))
         for x in ((1, 2, 3), (0, 2, 3), (1, 0, 3), (1, 2, 0), (0, 0, 0))])
    for kw, attr, ok in ((dict(), "mean_", False),
                         (dict(centering=True), "mean_", True),
                         (dict(centering=True), "scale_", False),
                         (dict(centering=True), "shift_", False),
                         (dict(scaling="minmax"), "mean_", False)):
        name = "pre.ShiftScaleTransformer"
        with sized(ctx, "%s(%s), assigned" % (name, kw)) as s:
            o = s.new(name, **kw)
            s.call(o, "fit", s.arr("X", 4, 6))
            table(s, ctx, name, [(
                "__init__", "assigning %s of %s(%s)" % (attr, name, kw),
                lambda s: s.set(o, attr, s.arr("v", 4)), ok)])
    with sized(ctx, "setting the dimension") as s:
        for name, o in (("pre.ShiftTransformer", s.new(
                "pre.ShiftTransformer", s.arr("x", 4))),
                ("pre.ScaleTransformer", s.new(
                    "pre.ScaleTransformer", s.arr("x", 4)))):
            table(s, ctx, name, [(
                "__init__", "state_dimension of %s = %r" % (name, v),
                lambda s, o=o, v=v: s.set(o, "state_dimension", v), v == 4)
                for v in (4, 5, 3, "4", None)])
    for name in ("pre.TransformerMulti", "pre.TransformerPipeline"):
        def t(s, n=1):
            return [s.new("pre.ShiftScaleTransformer", centering=True)
                    for i in range(n)]
        rows = [("two", lambda s: [t(s, 2)], {}, True),
                ("a tuple", lambda s: [tuple(t(s, 2))], {}, True)]
        if name.endswith("Multi"):
            rows += [("none", ([],), {}, False), ("one size for two", lambda s: [t(s, 2), [3]], {},
                      False),
                     ("three sizes for two", lambda s: [t(s, 2), [3, 4, 5]],
                      {}, False),
                     ("two sizes", lambda s: [t(s, 2), [3, 4]], {}, True)]
        else:
            rows += [("a transformer", lambda s: t(s), {}, False),
                     ("a number", (3,), {}, False)]
        made(ctx, name, rows)


# ------------------------------------------------------------------- bases
def bases(ctx):
    name = "basis.PODBasis"
    rows = [("nothing", (), {}, False),
            ("num_vectors=2", (), dict(num_vectors=2), True)]
    rows += [("max_vectors=%d" % x, (), dict(num_vectors=2, max_vectors=x),
              x > 0) for x in (-3, -1, 0, 1, 5)]
    rows += [("svdsolver=%r" % x, (), dict(num_vectors=2, svdsolver=x), ok)
             for x, ok in (("dense", True), ("randomized", True),
                           ("eigh", True), ("method-of-snapshots", True),
                           ("bogus", False), ("", False), ("Dense", False))]
    for c in ("cumulative_energy", "residual_energy", "svdval_threshold",
              "projection_error"):
        rows.append((c, (), {c: const(Fraction(1, 3))}, True))
    made(ctx, name, rows)
    with sized(ctx, "a trained PODBasis") as s:
        o = s.new(name, num_vectors=2)
        s.call(o, "fit", s.arr("X", 6, 4))
        table(s, ctx, name, [
            ("__init__", "svdsolver_options = %r" % (x,), lambda s, x=x:
             s.set(o, "svdsolver_options", x), x is None)
            for x in (None, [1], 3, "a")])
        table(s, ctx, name, [
            ("set_dimension", "set_dimension() without a criterion",
             lambda s: s.call(o, "set_dimension"), False),
            ("set_dimension", "set_dimension(num_vectors=1)",
             lambda s: s.call(o, "set_dimension", num_vectors=1), True)])


# --------------------------------------------------------------- regression
def regression(ctx):
    made(ctx, "lstsq.L2Solver", [
        ("None", (None,), {}, True), ("0", (0,), {}, True),
        ("1e-9", (const(TINY),), {}, True),
        ("a vector", lambda s: [s.arr("x", 3)], {}, False),
        ("a list", ([1, 2],), {}, False)] + [
        (n, (x,), {}, False) for n, x in NEG])

    def vec(*x):
        return lambda s: [s.arrt(tm.array([const(y) for y in x]))]
    some = [("%s" % (x,), vec(*x), {}, min(x) >= 0) for x in (
        (1, 2, 3), (0, 0, 0), (0, 1, 2), (-TINY, 1, 2), (1, -1, 2),
        (1, 2, -3))]
    made(ctx, "lstsq.L2DecoupledSolver", some + [
        ("a number", (1,), {}, False),
        ("a matrix", lambda s: [s.arr("x", 3, 3)], {}, False)])
    made(ctx, "lstsq.TikhonovSolver", some + [
        ("method=%r" % m, lambda s: [s.arr("x", 3)], dict(method=m), m in (
            "lstsq", "normal")) for m in (
                "lstsq", "normal", "bogus", "", "Normal", None)] + [
        ("a matrix", lambda s: [s.arr("x", 3, 3)], {}, True)])
    two = []
    for x in ((1, 2, 3), (0, 0, 0), (-TINY, 1, 2), (1, 2, -3)):
        for first in (True, False):
            two.append(("%s and another" % (x,), lambda s, x=x, f=first: [(
                [s.arrt(tm.array([const(y) for y in x])), s.arr("v", 3)])[
                    ::1 if f else -1]], {}, min(x) >= 0))
    made(ctx, "lstsq.TikhonovDecoupledSolver", two)
    for name, reg in (("L2Solver", lambda s: s.flt("reg")),
                      ("L2DecoupledSolver", lambda s: s.arr("reg", 2)),
                      ("TikhonovSolver", lambda s: s.arr("reg", 3))):
        cls = "lstsq." + name
        with sized(ctx, "regularizer of a trained " + name) as s:
            o = s.new(cls, reg(s))
            s.call(o, "fit", s.arr("D", 7, 3), s.arr("Z", 2, 7))
            n = {"L2DecoupledSolver": 2, "TikhonovSolver": 3}.get(name)
            for v in (-1, -TINY, 0, 1):
                x = const(v) if n is None else s.arrt(tm.array(
                    [const(1)] * (n - 1) + [const(v)]))
                table(s, ctx, cls, [("__init__", "regularizer of %s = %s" % (
                    name, v), lambda s: s.set(o, "regularizer", x), v >= 0)])
    name = "lstsq.TruncatedSVDSolver"
    made(ctx, name, [
        (repr(x), (x,), {}, ok) for x, ok in (
            (None, True), (2, True), (-2, True), (0, True), ("2", False),
            ([2], False))] + [("2.5", (const(Fraction(5, 2)),), {}, False)])
    with sized(ctx, "modes of a trained " + name) as s:
        o = s.new(name, None)
        s.call(o, "fit", s.arr("D", 7, 4), s.arr("Z", 2, 7))
        table(s, ctx, name, [
            ("num_svdmodes", "num_svdmodes = %d of 4" % x,
             lambda s, x=x: s.set(o, "num_svdmodes", x), abs(x) <= 4)
            for x in (-9, -5, -3, 0, 1, 4, 5, 7)])
    for n in (-9, -5, -3, 0, 3, 4, 5, 9):
        with sized(ctx, "%s(%d) of a problem with 4 modes" % (name, n)) as s:
            o = s.new(name, n)
            s.call(o, "fit", s.arr("D", 7, 4), s.arr("Z", 2, 7))
            got = s.term(s.get(o, "num_svdmodes"))
            want = max(4 + n, 0) if n <= 0 else min(n, 4)
            s.same(RA, ctx.locate(name, "fit"), got, const(want),
                   note="modes used when %d of 4 are requested" % n)
    name = "lstsq.TotalLeastSquaresSolver"
    with sized(ctx, name) as s:
        table(s, ctx, name, [
            ("fit", "fit() of %d rows, 3 + 2 unknowns" % k, lambda s, k=k:
             s.call(s.new(name), "fit", s.arr("D", k, 3), s.arr("Z", 2, k)),
             k >= 5) for k in (3, 4, 5, 6)])
    name = "lstsq.TikhonovSolver"
    with sized(ctx, "get_operator_regularizer()") as s:
        def reg(s, names, regs, m=0, user=False):
            o = [s.new("operators." + x) for x in names]
            o += [3] if user else []
            return s.call(s.cls(name), "get_operator_regularizer", o, regs,
                          state_dimension=4, input_dimension=m)
        c, A, B, N = ("ConstantOperator", "LinearOperator", "InputOperator",
                      "StateInputOperator")
        table(s, ctx, name, [("get_operator_regularizer", what, fn, ok)
              for what, fn, ok in (
            ("two operators", lambda s: reg(s, [c, A], [1, 2]), True),
            ("a number missing", lambda s: reg(s, [c, A], [1]), False),
            ("a number too many", lambda s: reg(s, [c, A], [1, 2, 3]), False),
            ("input operators", lambda s: reg(s, [B, A], [1, 2], 3), True),
            ("no input dimension, first", lambda s: reg(
                s, [B, A], [1, 2]), False),
            ("no input dimension, last", lambda s: reg(
                s, [A, N], [1, 2]), False),
            ("not an operator", lambda s: reg(
                s, [c, A], [1, 2, 3], user=True), False))])
    with sized(ctx, "lstsq_size()") as s:
        f = s.eng.lookup("opinf.lstsq.lstsq_size")
        w = ctx.locate(f)
        for form, m, ok in (("cA", 0, True), ("cAB", 0, False),
                            ("cAB", 2, True), ("cA", 2, False),
                            ("B", 0, False), ("H", 1, False)):
            (accept if ok else refuse)(
                s, ctx, w, "lstsq_size(%r, r=3, m=%d)" % (form, m),
                lambda s, form=form, m=m: value(s, f, form, 3, m=m))


def value(s, f, *a, **k):
    return s.done(s.run(f, *a, **k), "", ("", "", 0))


# -------------------------------------------------------------- derivatives
def derivatives(ctx):
    for name in ("ddt.UniformFiniteDifferencer",
                 "ddt.NonuniformFiniteDifferencer",
                 "ddt.InterpDerivativeEstimator"):
        made(ctx, name, [
            ("a matrix of times", lambda s: [s.arr("t", 3, 8)], {}, False),
            ("a list of times", ([1, 2, 3, 4],), {}, False),
            ("a number", (3,), {}, False)])
    from .c11 import times
    made(ctx, "ddt.UniformFiniteDifferencer", [
        ("scheme=%r" % x, lambda s, x=x: [s.arrt(times(s, const(9))[2]), x],
         {}, ok) for x, ok in (
             ("fwd1", True), ("ord4", True), ("bwd6", True), ("ctr4", True),
             ("bogus", False), ("fwd7", False), ("ord5", False), (3, False),
             ("", False))])
    made(ctx, "ddt.UniformFiniteDifferencer", [
        ("uneven times", lambda s: [s.arrt(tm.array(
            [const(x) for x in (0, 1, 2, 4, 5, 6, 7, 8)])), "fwd1"], {},
         False)])
    made(ctx, "ddt.InterpDerivativeEstimator", [
        ("%r" % x, lambda s, x=x: [s.arr("t", 9), x], {}, ok)
        for x, ok in (("cubic", True), ("akima", True), ("bogus", False),
                      ("", False), (3, False))])


# ------------------------------------------------------------------ lifting
def lifting(ctx):
    name = "lift.PolynomialLifter"
    made(ctx, name, [
        ("orders=(1, 2)", ((1, 2),), {}, True), ("orders=2", (2,), {}, True),
        ("orders=('a',)", (("a",),), {}, False),
        ("orders=(1, 'a')", ((1, "a"),), {}, False),
        ("orders=(1, None)", ((1, None),), {}, False)])
    with sized(ctx, "constant lifting") as s:
        table(s, ctx, name, [
            ("unlift", "unlifting from orders %s" % (o,), lambda s, o=o:
             s.call(s.new(name, o), "unlift", s.arr("X", 4 * len(o), 3)), ok)
            for o, ok in (((0,), False), ((0, 0), False), ((0, 2), True),
                          ((2, 0), True), ((1, 0), True))])


# ---------------------------------------------------------------- operators
def operators(ctx):
    for nm in [x[0] for x in ops.NONPARAM]:
        name = "operators." + nm
        m = 3 if "Input" in nm else None
        r = 2
        d = ops.width(nm, r, m)
        sh = (r,) if nm == "ConstantOperator" else (r, d)

        def with_(v, at):
            def fn(s):
                x = [[sym("e%d_%d" % (i, j), "float", ())
                      for j in range(d)] for i in range(r)]
                x[at[0]][at[1]] = v
                rows = [tm.array(y) if len(sh) > 1 else y[0] for y in x]
                return [s.arrt(tm.array(rows))]
            return fn
        made(ctx, name, [
            ("a list", lambda s: [[[1] * d] * r], {}, False),
            ("an array", lambda s: [s.arr("E", *sh)], {}, True),
            ("a sparse matrix", lambda s: [s.arr("E", *sh)], {}, True)])
        with sized(ctx, "set_entries() of " + nm) as s:
            table(s, ctx, name, [
                ("set_entries", "entries with nan at %s" % (at,),
                 lambda s, at=at, v=v: s.call(s.new(name), "set_entries",
                                              *with_(v(s), at)(s)), False)
                for v in (lambda s: nonfinite(s, "nan"),
                          lambda s: nonfinite(s, "inf"))
                for at in ((0, 0), (r - 1, d - 1))])
    made(ctx, "operators.PolynomialOperator", [
        (str(p), (p if isinstance(p, int) else const(p),), {},
         p >= 0 and p == int(p))
        for p in (0, 1, 4, 9, -1, -2, Fraction(3, 2), Fraction(1, 2),
                  Fraction(-1, 2))])
    for nm in ops.PARAM:
        name = "operators.Affine%sOperator" % nm
        f = lambda s: ops.scalar_fn("th")
        rows = [("coeffs=%r" % x, (x,), {}, ok) for x, ok in (
            (1, True), (3, True), (0, False), (-2, False), (None, False))]
        rows += [("coeffs=2.5", (const(Fraction(5, 2)),), {}, False),
                 ("coeffs=f", lambda s: [f(s)], {}, False),
                 ("coeffs=[f, g]", lambda s: [[f(s), f(s)]], {}, True),
                 ("coeffs=[f, 3]", lambda s: [[f(s), 3]], {}, False),
                 ("coeffs=[3, f]", lambda s: [[3, f(s)]], {}, False)]
        rows += [("coeffs=f, nterms=%s" % (n,), lambda s, n=n: [f(s), n], {},
                  n in (1, 3)) for n in (
                      1, 3, 0, -1, "2", const(Fraction(3, 2)), [1])]
        made(ctx, name, rows)
        with sized(ctx, "parameter_dimension of " + name) as s:
            new = lambda s: s.new(name, [ops.scalar_fn("a"),
                                         ops.scalar_fn("b")])

            def twice(s):
                o = new(s)
                s.set(o, "parameter_dimension", 2)
                s.set(o, "parameter_dimension", 3)
                return const(0)
            table(s, ctx, name, [
                ("__init__", "parameter_dimension = %s" % (p,), lambda s, p=p:
                 s.set(new(s), "parameter_dimension", p), p in (1, 3))
                for p in (1, 3, 0, -1, "2", const(Fraction(3, 2)))] + [
                ("__init__", "parameter_dimension assigned twice", twice,
                 False)])
        name = "operators.Interp%sOperator" % nm
        cls = nm + "Operator"
        m = 3 if "Input" in nm else None
        E = lambda s, n: [ops.entries(s, cls, 2, m, "E%d" % i)
                          for i in range(n)]
        with sized(ctx, name) as s:
            def late(s):
                o = ops.build_param(s, "Interp", cls, 2, m)
                s.call(o, "set_training_parameters", s.arr("new", 3))
                return const(0)

            def from_(s, how):
                o = [ops.build(s, cls, 2, m, "A"), ops.build(
                    s, cls, 2, m, "B"), ops.build(s, cls, 2, m, "C")]
                if how == "empty":
                    o[1] = s.new("operators." + cls)
                if how == "other":
                    o[2] = ops.build(s, "ConstantOperator" if nm != "Constant"
                                     else "LinearOperator", 2, m, "D")
                return s.call(s.cls(name), "_from_operators", s.arr("mu", 3),
                              o)
            table(s, ctx, name, [
                ("set_entries", "entries before training parameters",
                 lambda s: s.call(s.new(name), "set_entries", E(s, 3)),
                 False),
                ("set_training_parameters",
                 "training parameters after entries", late, False),
                ("set_training_parameters", "a vector of parameters",
                 lambda s: s.new(name, s.arr("p", 3)), True),
                ("set_training_parameters", "a matrix of parameters",
                 lambda s: s.new(name, s.arr("p", 3, 2)), True),
                ("set_training_parameters", "parameters with three axes",
                 lambda s: s.new(name, s.arr("p", 3, 2, 2)), False),
                ("_from_operators", "three operators",
                 lambda s: from_(s, ""), True),
                ("_from_operators", "an operator without entries",
                 lambda s: from_(s, "empty"), False),
                ("_from_operators", "an operator of another kind",
                 lambda s: from_(s, "other"), False)])


def nonfinite(s, name):
    return const(float("nan")) if name == "nan" else const(float("inf"))


# ------------------------------------------------------------------- models
def one(s, x):
    """an operator from its short name"""
    if x == 3 or x is None or len(x) < 2:
        return x
    if x[0] == "P" and x[1:].isdigit():
        return s.new("operators.PolynomialOperator", int(x[1:]))
    return s.new("operators.%sOperator" % x)


KINDS = ["Constant", "Linear", "Quadratic", "Cubic", "Quartic", "Input",
         "StateInput"]


def kind_of(x):
    short = dict(zip("cAHGBN", ["Constant", "Linear", "Quadratic", "Cubic",
                                "Input", "StateInput"]))
    x = short.get(x, x)
    if x[0] == "P" and x[1:].isdigit() and int(x[1:]) < 5:
        x = KINDS[int(x[1:])]
    return x


def structure(ctx):
    for kind in ("Continuous", "Discrete"):
        name = "models.%sModel" % kind
        names = KINDS + ["P0", "P1", "P2", "P3", "P4", "P5", "P6", "c", "A",
                         "H", "G", "B", "N"]
        pairs = [(a, b) for i, a in enumerate(names) for b in names[i:]]
        rows = [("[%s, %s]" % p, lambda s, p=p: [[one(s, x) for x in p]], {},
                 kind_of(p[0]) != kind_of(p[1])) for p in pairs]
        rows += [("three with %s twice" % x, lambda s, x=x: [[
            one(s, x), one(s, "P7"), one(s, x)]], {}, False)
            for x in KINDS + ["P5"]]
        rows += [("[]", ([],), {}, False), ("None", (None,), {}, False),
                 ("['Z']", (["Z"],), {}, False),
                 ("['A', '']", (["A", ""],), {}, False),
                 ("[A, 3]", lambda s: [[one(s, "Linear"), 3]], {}, False),
                 ("[A, None]", lambda s: [[one(s, "Linear"), None]], {},
                  False),
                 ("a number", (3,), {}, False),
                 ("a class", lambda s: [[s.cls("operators.LinearOperator")]],
                  {}, False),
                 ("a parametric operator", lambda s: [[s.new(
                     "operators.InterpLinearOperator")]], {}, False)]
        rows += [("solver=%s" % n, ("A",), dict(solver=x), False)
                 for n, x in NEG]
        rows += [("solver=%s" % x, ("A",), dict(solver=x), True)
                 for x in (0, 1, None, const(TINY))]
        rows += [("solver=a class", ("A",), lambda s: dict(solver=s.cls(
            "lstsq.L2Solver")), False)]
        made(ctx, name, rows)
        name = "models.Parametric%sModel" % kind
        rows = []
        pn = ["Constant", "Linear", "Quadratic", "Cubic", "Input",
              "StateInput"]

        def par(s, x):
            if x[:6] == "Affine":
                return s.new("operators.%sOperator" % x, 3)
            return s.new("operators.%sOperator" % x)
        al = ["%s%s" % (k, x) for x in pn for k in ("Affine", "Interp", "")]
        for i, a in enumerate(al):
            for b in al[i:]:
                same = a.replace("Affine", "").replace("Interp", "") == \
                    b.replace("Affine", "").replace("Interp", "")
                if not same and i % 3:
                    continue
                if a in pn and b in pn:
                    continue
                rows.append(("[%s, %s]" % (a, b), lambda s, a=a, b=b: [[
                    par(s, a), par(s, b)]], {}, not same))
        rows += [("[]", ([],), {}, False),
                 ("[affine, 3]", lambda s: [[par(s, "AffineLinear"), 3]], {},
                  False)]
        made(ctx, name, rows)


def called(ctx):
    """models with a missing or unusable argument"""
    R, M = models.R_, models.M_
    for kind in ("Continuous", "Discrete"):
        name = "models.%sModel" % kind
        for mix in (("Constant", "Linear"), ("Linear", "Input"),
                    ("Quadratic", "StateInput")):
            inp = models.has_input(mix)
            with sized(ctx, "%s of %s" % (name, "+".join(mix))) as s:
                o = models.build_mono(s, kind, mix, "given")
                new = lambda s: models.build_mono(s, kind, mix, "free")
                q = s.arr("q", R)
                u = lambda s: [s.arr("u", M)] if inp else []
                a = [s.flt("t")] if kind == "Continuous" else []
                f = [models.free_fn(s.arr("u", M))] if inp else []
                Q, Z = s.arr("Q", R, 9), s.arr("Z", R, 9)
                rows = [
                    ("rhs", "rhs()", lambda s: s.call(o, "rhs", *a, q, *(
                        f if a else u(s))), True),
                    ("fit", "fit()", lambda s: s.call(
                        new(s), "fit", Q, Z, **({"inputs": s.arr(
                            "U", M, 9)} if inp else {})) and const(0), True),
                    ("__init__", "input_dimension = 0", lambda s: s.set(
                        o, "input_dimension", 0), not inp)]
                if inp:
                    rows += [
                        ("fit", "fit() without inputs", lambda s: s.call(
                            new(s), "fit", Q, Z), False),
                        ("rhs", "rhs() without input", lambda s: s.call(
                            o, "rhs", *a, q), False),
                        ] + ([(
                            "jacobian", "jacobian() without input", lambda s:
                            s.call(o, "jacobian", *a, q), False)]
                            if "StateInput" in mix and a else [])
                else:
                    rows += [("__init__", "input_dimension = 2", lambda s:
                              s.set(o, "input_dimension", 2), False)]
                if kind == "Discrete":
                    U = [s.arr("Up", M, 9)] if inp else []
                    rows += [("predict", "predict() of %s steps" % (n,),
                              lambda s, n=n: s.call(
                                  o, "predict", q, n, *U), n in (1, 2, 4))
                             for n in (1, 2, 4, 0, -1, "3", None,
                                       const(Fraction(5, 2)))]
                    if inp:
                        rows += [
                            ("predict", "predict() without inputs",
                             lambda s: s.call(o, "predict", q, 4), False),
                            ("predict", "predict() with an input function",
                             lambda s: s.call(o, "predict", q, 4,
                                              models.free_fn(s.arr("u", M))),
                             False)]
                else:
                    rows += [("predict", "predict() at a matrix of times",
                              lambda s: s.call(o, "predict", q, s.arr(
                                  "T", 2, 5), *f), False)]
                    if inp:
                        rows += [("predict", "predict() without inputs",
                                  lambda s: s.call(o, "predict", q, s.arr(
                                      "T", 5)), False)]
                table(s, ctx, name, rows)
        name = "models.Interp%sModel" % kind
        with sized(ctx, name + "._from_models()") as s:
            def mono(s, mix, tag, pat="given"):
                return models.build_mono(s, kind, mix, pat, tag)
            L = ("Constant", "Linear", "Input")
            for what, alt, ok in (
                    ("equal models", L, True),
                    ("an operator missing", L[:2], False),
                    ("an operator more", L + ("Quadratic",), False),
                    ("an operator of another kind",
                     ("Constant", "Quadratic", "Input"), False),
                    ("operators in another order",
                     ("Linear", "Constant", "Input"), False),
                    ("an untrained model", None, False)):
                for at in (0, 1, 2):
                    def build(s):
                        ms = [mono(s, L, "E%d" % i) for i in range(3)]
                        ms[at] = mono(s, alt, "F") if alt else mono(
                            s, L, "F", "free")
                        s.call(s.cls(name), "_from_models", s.arr("mus", 3),
                               ms)
                        return const(0)
                    table(s, ctx, name, [(
                        "_from_models", "%s, at %d" % (what, at), build,
                        ok)])


# --------------------------------------------------------------------- ROMs
def roms(ctx):
    for kind in ("Continuous", "Discrete"):
        mono = lambda s, mix=("Constant", "Linear"): models.build_mono(
            s, kind, mix, "free")
        par = lambda s: models.build_param(
            s, "Parametric%sModel" % kind, ("Constant", "Linear"), "free")
        made(ctx, "roms.ROM", [
            ("a model", lambda s: [mono(s)], {}, True),
            ("a parametric model", lambda s: [par(s)], {}, False),
            ("a number", (3,), {}, False), ("None", (None,), {}, False)])
        made(ctx, "roms.ParametricROM", [
            ("a parametric model", lambda s: [par(s)], {}, True),
            ("a model", lambda s: [mono(s)], {}, False),
            ("a number", (3,), {}, False), ("None", (None,), {}, False)])
        for cls in ("ROM", "BayesianROM"):
            name = "roms." + cls
            with sized(ctx, "%s of a %s model" % (name, kind)) as s:
                k = 6

                def rom(s, mix):
                    m = models.build_mono(
                        s, kind, mix, "free", solver=lambda s: s.new(
                            "lstsq.L2Solver", s.flt("reg")))
                    return s.new(name, m)

                def fit(s, mix, z, u):
                    Q = [s.arr("Q%d" % i, 4, k) for i in range(2)]
                    kw = {}
                    if z:
                        kw["lhs"] = [s.arr("Z%d" % i, 4, k)
                                     for i in range(2)]
                    if u:
                        kw["inputs"] = [s.arr("U%d" % i, models.M_, k)
                                        for i in range(2)]
                    s.call(rom(s, mix), "fit", Q, **kw)
                    return const(0)
                if cls == "ROM":
                    table(s, ctx, name, [
                        ("fit", "fit() %s derivatives, %s inputs, %s" % (
                            "with" if z else "without", "with" if u else
                            "without", "+".join(mix)), lambda s, z=z, u=u,
                         mix=mix: fit(s, mix, z, u),
                         (z or kind == "Discrete") and u)
                        for mix in (("Linear", "Input"),)
                        for z in ((True, False) if kind == "Continuous"
                                  else (False,))
                        for u in (True, False)] + [
                        ("fit", "fit() without derivatives", lambda s: fit(
                            s, ("Constant", "Linear"), False, False),
                         kind == "Discrete")])
    c19.setup(ctx.eng)
    for kind in ("Discrete", "Continuous"):
        for bayes in (None, "L2Solver"):
            f = c19.Setting(ctx, kind, inp=True, ntraj=2, bayes=bayes)
            name = "roms." + f.cls
            with sized(ctx, "%s.%s()" % (f.cls, f.meth)) as s:
                k, M, n = 6, models.M_, 7

                def call(s, meth=None, plain=False, notfn=None, **kw):
                    p = f.parts(s)
                    m = f.model(s)
                    if plain:
                        s.set(m, "solver", s.new("lstsq.PlainSolver"))
                    o = f.rom(s, p, m)
                    t = [s.arrt(tm.array([tm.add(s.flt("t%d" % i), const(
                        Fraction(j, 8))) for j in range(k)]))
                        for i in range(2)]
                    Q = [s.arr("Q%d" % i, n, k) for i in range(2)]
                    u = [models.free_fn(s.arr("u%d" % i, M))
                         for i in range(2)]
                    if notfn is not None:
                        u = [s.arr("U%d" % i, M, k) for i in range(2)]
                    cont = f.cont if meth is None else "cont" in meth
                    if cont:
                        a = dict(train_time_domains=t, input_functions=u,
                                 ddts=[s.arr("Z%d" % i, n, k)
                                       for i in range(2)])
                    else:
                        a = dict(inputs=[s.arr("U%d" % i, M, k)
                                         for i in range(2)])
                    a.update(kw)
                    return s.call(o, meth or f.meth, [
                        s.flt("c0"), s.flt("c1")], states=Q,
                        gridsearch_only=True, **a)
                other = "fit_regselect_" + ("discrete" if f.cont else
                                            "continuous")
                length = "test_time_length" if f.cont else "num_test_iters"
                rows = [
                    (other, other + "() of a %s model" % kind,
                     lambda s: call(s, other), False),
                    (f.meth, f.meth + "() with an unregularized solver",
                     lambda s: call(s, plain=True), False)] + [
                    (f.meth, "%s(%s=%s)" % (f.meth, length, v),
                     lambda s, v=v: call(s, **{length: v}), False)
                    for v in ((-1, const(-TINY)) if f.cont else (-1, -2))]
                if not bayes:
                    rows += [(f.meth, f.meth + "() with a test case that is "
                              "none", lambda s: call(s, test_cases=[3]),
                              False)]
                if f.cont:
                    rows += [(f.meth, f.meth + "() with arrays for input "
                              "functions", lambda s: call(s, notfn=True),
                              False)]
                else:
                    rows += [(f.meth, f.meth + "(num_test_iters=1), inputs "
                              "for the training times only", lambda s: call(
                                  s, num_test_iters=1), False)]
                table(s, ctx, name, rows)


# ------------------------------------------------------------------- errors
def errors(ctx):
    with sized(ctx, "errors") as s:
        Q, P, t = s.arr("Q", 4, 5), s.arr("P", 4, 5), s.arr("t", 5)
        for nm, kw in (("lp_error", {}), ("Lp_error", {"t": t})):
            f = s.eng.lookup("opinf.post." + nm)
            w = ctx.locate(f)
            for p in (1, 2, 3, Fraction(1, 2), 0, -1, -2, -TINY):
                (accept if p > 0 else refuse)(
                    s, ctx, w, "%s(p=%s)" % (nm, p), lambda s: value(
                        s, f, Q, P, p=const(p), **kw))
            (accept if nm[0] == "l" else refuse)(
                s, ctx, w, nm + "() without times", lambda s: value(
                    s, f, Q, P))
        f = s.eng.lookup("opinf.post.Lp_error")
        accept(s, ctx, ctx.locate(f), "Lp_error(p=inf) without times",
               lambda s: value(s, f, Q, P, p=const(float("inf"))))


def posteriors(ctx):
    vec = lambda s, n=3: s.arr("m%d" % n, n)
    mat = lambda s, n=3: s.arr("P%d" % n, n, n)
    name = "roms.OperatorPosterior"
    made(ctx, name, [
        ("means, precisions", lambda s: (
            [vec(s), vec(s)], [mat(s), mat(s)]), {}, True),
        ("rows of different lengths", lambda s: (
            [vec(s), vec(s, 2)], [mat(s), mat(s, 2)]), {}, True),
        ("more means", lambda s: ([vec(s), vec(s)], [mat(s)]), {}, False),
        ("more precisions", lambda s: ([vec(s)], [mat(s), mat(s)]), {},
         False)] + [
        ("%s %s" % (["first", "second"][i], what),
         lambda s, i=i, mk=mk: [x[:i] + [y] + x[i + 1:] for x, y in zip((
             [vec(s), vec(s)], [mat(s), mat(s)]), mk(s))], {}, False)
        for i in (0, 1) for what, mk in (
            ("mean a list", lambda s: ([1.0, 2.0, 3.0], mat(s))),
            ("mean a matrix", lambda s: (s.arr("mm", 3, 1), mat(s))),
            ("precision a list", lambda s: (vec(s), [
                [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])),
            ("precision a vector", lambda s: (vec(s), s.arr("p", 3))),
            ("precision not square", lambda s: (vec(s), s.arr("p", 3, 2))),
            ("precision of another size", lambda s: (vec(s), mat(s, 4))),
        )])


def check(ctx):
    preprocessing(ctx)
    bases(ctx)
    regression(ctx)
    derivatives(ctx)
    lifting(ctx)
    operators(ctx)
    structure(ctx)
    called(ctx)
    roms(ctx)
    errors(ctx)
    posteriors(ctx)
