"""Rejected operations leave the object as it was."""
from .. import terms as tm
from ..check import S
from ..interp import Unsupported
from ..terms import const, mk, NONE, TRUE, FALSE, T
from ..values import (Ref, Tup, Phi, Inst, Opq, Lst, Dct, SetO, Arr, Prop,
                      PyFn)
from . import common, ops, models
from .common import attempt, attrs

RS, RM = "rejected-assignment", "rejected-call"
DELIBERATE = {"ValueError", "TypeError", "AttributeError", "IndexError",
              "DimensionalityError", "KeyError", "RuntimeError",
              "NotImplementedError", "VerificationError"}


def snap(st, v, depth=0, seen=None):
    """a comparable picture of everything v holds"""
    seen = {} if seen is None else seen
    if isinstance(v, Phi):
        return ("phi", v.cond, snap(st, v.a, depth, seen),
                snap(st, v.b, depth, seen))
    if isinstance(v, Tup):
        return ("tup",) + tuple(snap(st, x, depth, seen) for x in v.items)
    if isinstance(v, T):
        return v
    if not isinstance(v, Ref):
        return id(v)
    if v.addr in seen:
        return ("seen", seen[v.addr])
    seen[v.addr] = len(seen)
    o = st.get(v)
    if isinstance(o, Arr):
        return ("arr", v.addr, snap(st, o.content, depth, seen)
                if o.base is None else snap(st, o.base, depth, seen))
    if isinstance(o, (Inst, Opq)):
        return ("inst", v.addr) + tuple(
            (k, snap(st, x, depth + 1, seen)) for k, x in sorted(
                o.attrs.items()))
    if isinstance(o, Lst):
        return ("lst", v.addr) + tuple(snap(st, x, depth, seen)
                                       for x in o.items)
    if isinstance(o, Dct):
        return ("dct", v.addr) + tuple(
            (k, snap(st, x[1], depth, seen)) for k, x in sorted(
                o.items.items(), key=lambda kv: str(kv[0])))
    return ("obj", v.addr, id(o) if not isinstance(o, SetO) else 0)


def at(s, st):
    q = S(s.ctx, st)
    q.rule = s.rule
    return q


def unchanged(s, ctx, rule, where, o, out, probes, what):
    """on every path of `out` that raises, o answers as before"""
    before = snap(s.st, o)
    for r in out.raises:
        if r.cname() not in DELIBERATE:
            continue
        try:
            after = snap(r.st, o)
        except KeyError:
            after = None
        if after == before:
            ctx.ok(rule, where)
            continue
        note = "%s raised %s at %s:%s" % (what, r.cname(), r.site[0],
                                          r.site[2])
        ok = True
        for label, fn in probes:
            a = attempt(s.fork(), lambda q: fn(q, o))
            b = attempt(at(s, r.st.fork()), lambda q: fn(q, o))
            if "undec" in (a[0], b[0]):
                continue
            if a[0] != b[0] or (a[0] == "raise" and a[1] != b[1]):
                ok = False
                ctx.bad(rule, where, "%s; afterwards %s %s (before: %s)" % (
                    note, label, b[2] if b[0] == "raise" else "works",
                    a[2] if a[0] == "raise" else "works"))
                break
            if a[0] == "val" and a[1] is not b[1]:
                from .. import rand
                f = dict(r.st.assume)
                x, y = tm.assume_term(a[1], f), tm.assume_term(b[1], f)
                if x is y or rand.compare(x, y).verdict != "ne":
                    continue
                ok = False
                ctx.bad(rule, where, "%s; afterwards %s is %s (before: %s)" % (
                    note, label, tm.show(b[1], 3)[:80],
                    tm.show(a[1], 3)[:80]))
                break
        if ok:
            ctx.ok(rule, where)


def values(s, nm=None):
    """candidate arguments, most of them wrong most of the time"""
    a = s.arr
    if nm == "operators":
        P = "operators."
        A = lambda n, tag: s.new(P + "LinearOperator", a(tag, n, n))
        C = lambda n, tag: s.new(P + "ConstantOperator", a(tag, n))
        B = lambda n, m, tag: s.new(P + "InputOperator", a(tag, n, m))
        new = lambda c, *x: s.new(P + c, *x)
        return [
            ("nothing", NONE), ("an empty list", []), ("a number", 7),
            ("an unknown abbreviation", ["c", "?"]),
            ("a number after an operator", [new("LinearOperator"), 7]),
            ("an input operator, then a number", [new("InputOperator"), 7]),
            ("an input operator, then an unknown abbreviation", ["B", "?"]),
            ("two operators of the same type", [
                new("LinearOperator"), new("LinearOperator")]),
            ("input operators of the same type", ["B", "B"]),
            ("state operators of the same type", ["A", "A"]),
            ("operators of different state dimension", [
                A(7, "z1"), C(8, "z2")]),
            ("inputs of different dimension", [
                B(7, 3, "z1"), new("StateInputOperator", a("z2", 7, 28))]),
            ("inputs of different dimension and more", [
                A(7, "z0"), B(7, 3, "z1"),
                new("StateInputOperator", a("z2", 7, 28))]),
            ("a parametric operator", [new("AffineLinearOperator", 2)]),
            ("a parametric operator after others", [
                A(7, "z0"), new("AffineInputOperator", 2)]),
            ("operators that are not parametric", ["c", "A"]),
        ]
    if nm == "transformers":
        t = lambda: s.new("pre.ShiftScaleTransformer", centering=True)
        return [("a number", 7), ("an empty list", []), ("nothing", NONE),
                ("numbers", [7, 8]), ("a transformer and a number",
                                      [t(), 7]),
                ("two transformers", [t(), t()]),
                ("sized transformers", [sized(s, t(), "z1"), sized(
                    s, t(), "z2")])]
    if nm == "bases":
        t = lambda i: s.new("basis.LinearBasis", a("z%d" % i, s.dim("q%d" % i),
                                                   2),
                            check_orthogonality=False)
        return [("a number", 7), ("an empty list", []), ("nothing", NONE),
                ("numbers", [7, 8]), ("a basis and a number", [t(1), 7]),
                ("two bases", [t(1), t(2)])]
    return [
        ("None", NONE), ("'bad'", const("bad")), ("True", TRUE),
        ("-1", const(-1)), ("0", const(0)), ("7", const(7)),
        ("an integer", s.int("i")), ("a float", s.flt("x")),
        ("a negative float", tm.neg(s.term(s.flt("x")))),
        ("a 1-D array", a("v1", s.dim("e1"))),
        ("a negative 1-D array", s.arrt(tm.neg(s.term(a(
            "v1", s.dim("e1")))))),
        ("a 2-D array", a("v2", s.dim("e2"), s.dim("e3"))),
        ("a 3-D array", a("v3", s.dim("e2"), s.dim("e3"), s.dim("e4"))),
        ("a list of numbers", [1, 2, 3]),
        ("a list of 2-D arrays", [a("w%d" % i, s.dim("e%d" % (5 + i)),
                                    s.dim("e%d" % (7 + i)))
                                  for i in (0, 1)]),
        ("a list of 1-D arrays", [a("y%d" % i, s.dim("e%d" % (5 + i)))
                                  for i in (0, 1)]),
        ("a list of strings", ["p", "q"]),
        ("an empty list", []),
        ("a tuple", (1, 2)),
        ("a dictionary", {"p": 1}),
        ("an object", s.opq("thing") if hasattr(s, "opq") else NONE),
    ]


def sized(s, t, d):
    s.set(t, "state_dimension", s.term(s.dim(d)))
    return t


def setters(s, o):
    c = s.clsof(o)
    out = []
    for k in c.mro:
        for n, v in getattr(k, "ns", {}).items():
            if isinstance(v, Prop) and v.fset is not None and n not in out \
                    and not n.startswith("_"):
                out.append(n)
    return out


def assign(ctx, fam, made, state, skip=()):
    """made(s) -> object"""
    with ctx.case("%s, %s" % (fam.label, state), RS) as s0:
        names = setters(s0, made(s0))
        ns = dict((nm, len(values(s0, nm))) for nm in names)
    for nm in names:
        if nm in skip:
            continue
        with ctx.case("%s, %s, .%s" % (fam.label, state, nm), RS) as s0:
            o = made(s0)
            for i in range(ns[nm]):
                s = s0.fork()
                lab, v = values(s, nm)[i]
                ctx.label = "%s, %s, .%s = %s" % (fam.label, state, nm, lab)
                try:
                    v = s.val(v)
                    out = s.eng.set(s.st.fork(), o, nm, v)
                    unchanged(s, ctx, RS, fam.where(ctx, nm), o, out,
                              fam.probes, "assigning %s to %s" % (lab, nm))
                except (Unsupported, RecursionError, TypeError):
                    continue


def calls(ctx, fam, made, state, methods):
    """methods: [(name, [valid arguments], {keywords})]"""
    for nm, mk_args in methods:
        with ctx.case("%s, %s, %s()" % (fam.label, state, nm), RM) as s0:
            na = len(mk_args(s0))
            n = len(values(s0))
        with ctx.case("%s, %s, %s()" % (fam.label, state, nm), RM) as s1:
            o = made(s1)
            for j in range(na):
                for i in range(n):
                    s = s1.fork()
                    lab, v = values(s)[i]
                    if lab in ("'bad'", "an object", "a dictionary"):
                        # (what their .shape is cannot be said)
                        continue
                    args = mk_args(s)
                    args[j] = v
                    args = [s.val(x) for x in args]
                    what = "%s() with %s as argument %d" % (nm, lab, j + 1)
                    try:
                        out = s.eng.meth(s.st.fork(), o, nm, args, {})
                        unchanged(s, ctx, RM, fam.where(ctx, nm), o, out,
                                  fam.probes, what)
                    except (Unsupported, RecursionError, TypeError):
                        continue


def both(fam):
    yield "as constructed", fam.build
    if fam.fit is not None:
        def f(s):
            o = fam.build(s)
            fam.fit(s, o)
            return o
        yield "fitted", f


def solvers(ctx):
    for fam in common.solvers(ctx):
        for st, made in both(fam):
            assign(ctx, fam, made, st)
            calls(ctx, fam, made, st, [
                ("fit", lambda s: list(common.data_of(s, "2"))),
                ("residual", lambda s: [s.arr("O2", s.dim("r"),
                                              s.dim("d"))])])


def transformers(ctx):
    n = lambda s: s.dim("n")
    X = lambda s: [s.arr("X2", s.dim("n"), s.dim("k2"))]
    for fam in common.transformers(ctx, deep=False) + common.composites(ctx):
        for st, made in both(fam):
            assign(ctx, fam, made, st)
            Y = X if not hasattr(fam, "tot") else (
                lambda s, fam=fam: [s.arr("X2", fam.tot(s), s.dim("k2"))])
            calls(ctx, fam, made, st, [(m, Y) for m in (
                ("fit", "fit_transform") if not hasattr(fam, "combo") else
                # (composites fit their parts one after the other)
                ()) + ("transform", "inverse_transform", "transform_ddts")])


def bases(ctx):
    X = lambda s: [s.arr("X2", s.dim("n"), s.dim("k2"))]
    for fam in common.bases(ctx, deep=False) + common.basis_composites(ctx):
        for st, made in both(fam):
            assign(ctx, fam, made, st)
            Y = X if not hasattr(fam, "tot") else (
                lambda s, fam=fam: [s.arr("X2", fam.tot(s), s.dim("k2"))])
            ms = [(m, Y) for m in (("fit", "compress") if not hasattr(
                fam, "combo") else ("compress", "decompress"))]
            if fam.cls == "basis.PODBasis":
                ms.append(("set_dimension", lambda s: [s.int("nv2")]))
            calls(ctx, fam, made, st, ms)


def operators(ctx):
    from . import c04
    for fam in c04.nonparam_fams(ctx) + c04.param_op_fams(ctx):
        assign(ctx, fam, fam.build, "as constructed")
        ms = [("set_entries", lambda s: [s.arr("E2", s.dim("a"),
                                               s.dim("b"))])]
        if "Interp" in fam.cls:
            ms.append(("set_training_parameters", lambda s: [
                s.arr("mus2", 3)]))
        calls(ctx, fam, fam.build, "as constructed", ms)


def model_fams(ctx):
    # (fit() of a model discards the inferred operators first, by design)
    seen = set()
    for fam in models.mono_fams(ctx) + models.param_fams(ctx):
        key = (fam.cls, fam.pattern, models.has_input(fam.mix))
        if key in seen and not ctx.thorough:
            continue
        seen.add(key)
        for st, made in both(fam):
            assign(ctx, fam, made, st)


PARTS = [solvers, transformers, bases, operators, model_fams]


def check(ctx):
    for f in PARTS:
        f(ctx)
