"""A model consists of exactly the operators it was given.

Operators given as objects or by their short names, in any order and mix, are
the ones the model lists, iterates over, finds by kind, evaluates and stacks in
its operator matrix; its dimensions are theirs.  The checks compare references
(the same object) and terms on every path of construction and access.
"""
from itertools import permutations
from .. import terms as tm
from ..terms import const, NONE, concat
from . import ops, models
from .c12 import lst

RG, RA, RM, RN, RV = (
    "the-operators-given", "found-by-kind", "operator-matrix-of-the-unknown",
    "old-names-mean-the-new-classes", "evaluated-operators-found-by-kind")

ACC = dict(Constant="c_", Linear="A_", Quadratic="H_", Cubic="G_",
           Input="B_", StateInput="N_")
SHORT = dict(Constant="c", Linear="A", Quadratic="H", Cubic="G",
             Input="B", StateInput="N")
USER = '''
def through(model):
    return [op for op in model]
'''


def ident(s, ctx, R, w, got, want, what):
    """the same object"""
    if got == want or got is NONE and want is None:
        ctx.ok(R, w)
        return
    t = s.term(got)
    if want is None:
        ctx.bad(R, w, "%s is %s instead of None" % (
            what, tm.show(t, 3)[:80]))
    elif tm.is_const(t) or type(got) is type(want):
        ctx.bad(R, w, "%s is another object (%s)" % (
            what, tm.show(t, 3)[:80]))
    else:
        ctx.undec(R, w, what)


def objects(s, kinds, give, param):
    """operators, some with entries; parametric ones in turn"""
    out = []
    for i, k in enumerate(kinds):
        cls = k + "Operator"
        ent = give == "given" or give == "some" and i % 2
        what = (param[i % len(param)] if param else "")
        if what == "":
            out.append(ops.build(s, cls, models.R_, models.mdim(k), "E%d" % i)
                       if ent else s.new("operators." + cls))
        elif ent:
            out.append(ops.build_param(s, what, cls, models.R_, models.mdim(
                k), None, "E%d_" % i, models.N_))
        elif what == "Affine":
            out.append(s.new("operators.Affine" + cls, models.N_))
        else:
            out.append(s.new("operators.Interp" + cls))
    return out


def mixes(thorough):
    names = list(ACC)
    out = [tuple(names), tuple(names[::-1])]
    out += [(x,) for x in names]
    out += list(permutations(names, 2))
    out += [tuple(names[:i] + names[i + 1:]) for i in range(6)]
    if thorough:
        out += list(permutations(names, 3))
    return out


def given(ctx, v):
    fams = [("models.%sModel", [()]),
            ("models.Parametric%sModel", [("Affine",), ("Interp", "Affine"),
                                          ("", "Interp"), ("Affine", "")]),
            ("models.Interp%sModel", [("Interp",)])]
    for kind in ("Continuous", "Discrete"):
        for fam, params in fams:
            name = fam % kind
            w = ctx.locate(name, "operators")
            for mix in mixes(ctx.thorough):
                for param in params:
                    for give in ("given", "free", "some"):
                        if len(mix) == 2 and give == "some" and \
                                not ctx.thorough:
                            continue
                        with ctx.case("%s(%s), %s %s" % (
                                name, "+".join(mix), "/".join(param), give),
                                RG) as s:
                            one(s, ctx, v, w, name, mix, give, param)


def one(s, ctx, v, w, name, mix, give, param):
    if param and not any(x for x in (param * 6)[:len(mix)]):
        return
    O = objects(s, mix, give, param)
    how = (list, tuple)[len(mix) % 2]
    m = s.new(name, how(O))
    kn = [give == "given" or give == "some" and i % 2
          for i in range(len(mix))]
    listed(s, ctx, v, w, name, m, O, mix, kn)
    if give == "given" and param:
        evaluated(s, ctx, w, m, O, mix, param)


def listed(s, ctx, v, w, name, m, O, mix, kn):
    got = lst(s, s.get(m, "operators"))
    it = lst(s, s.done(s.run(v["through"], m), "", w))
    for lab, x in (("operators", got), ("iteration", it)):
        if len(x) != len(O):
            ctx.bad(RG, w, "%s of a model of %d operators: %d" % (
                lab, len(O), len(x)))
            continue
        for i, (a, b) in enumerate(zip(x, O)):
            ident(s, ctx, RG, w, a, b, "entry %d of %s" % (i, lab))
    for k, acc in ACC.items():
        ident(s, ctx, RA, ctx.locate(name, acc), s.get(m, acc),
              O[mix.index(k)] if k in mix else None,
              "%s of a model of %s" % (acc, "+".join(mix)))
    s.same(RG, w, s.tget(m, "state_dimension"), const(models.R_) if any(kn)
           else NONE, note="state dimension")
    inp = [i for i, k in enumerate(mix) if "Input" in k]
    s.same(RG, w, s.tget(m, "input_dimension"), const(0) if not inp else
           const(models.M_) if any(kn[i] for i in inp) else NONE,
           note="input dimension")


def evaluated(s, ctx, w, m, O, mix, param):
    mu = s.flt("mu")
    e = s.call(m, "evaluate", mu)
    for k, acc in ACC.items():
        a = s.get(e, acc)
        if k not in mix:
            ident(s, ctx, RV, w, a, None, acc + " of an evaluated model")
            continue
        j = mix.index(k)
        what = (param * 6)[j]
        want = s.tget(O[j] if what == "" else s.call(
            O[j], "evaluate", mu), "entries")
        s.same(RV, w, s.tget(a, "entries"), want,
               note=acc + " of an evaluated model")


def replaced(ctx, v):
    """other operators assigned to a model, fresh or fitted"""
    fams = [("models.%sModel", ""), ("models.Parametric%sModel", "Affine"),
            ("models.Parametric%sModel", "Interp"),
            ("models.Interp%sModel", "Interp")]
    K = list(ACC)
    pairs = [(tuple(K), (a,)) for a in K] + [((a,), tuple(K)) for a in K] + [
        (("Linear", "Input"), ("Constant", "Quadratic")),
        (("Constant", "Quadratic"), ("Input", "Linear"))]
    for kind in ("Continuous", "Discrete"):
        for fam, par in fams:
            name = fam % kind
            w = ctx.locate(name, "operators")
            for m1, m2 in pairs:
                for give in ("given", "free", "some"):
                    for fit in (False, True):
                        if fit and (par or not ctx.thorough and len(m1) > 2):
                            continue
                        with ctx.case("%s(%s) given %s instead, %s%s" % (
                                name, "+".join(m1), "+".join(m2), give,
                                ", after fitting" if fit else ""), RG) as s:
                            m = s.new(name, objects(
                                s, m1, "free" if fit else "given", (par,)
                                if par else ()))
                            if fit:
                                models.fit_mono(s, m, m1)
                            O = objects(s, m2, give, (par,) if par else ())
                            s.set(m, "operators", O)
                            kn = [give == "given" or give == "some" and i % 2
                                  for i in range(len(m2))]
                            listed(s, ctx, v, w, name, m, O, m2, kn)
                            if fit and give != "given" and len(m2) < 3:
                                models.fit_mono(s, m, m2)
                                listed(s, ctx, v, w, name, m, O, m2,
                                       [True] * len(m2))


def named(ctx):
    """short names"""
    for kind in ("Continuous", "Discrete"):
        name = "models.%sModel" % kind
        w = ctx.locate(name, "operators")
        forms = ["".join(SHORT[k] for k in m) for m in mixes(ctx.thorough)]
        for form in forms:
            for how in (str, list, tuple):
                with ctx.case("%s(%r) as %s" % (name, form, how.__name__),
                              RG) as s:
                    m = s.new(name, how(form))
                    got = lst(s, s.get(m, "operators"))
                    want = [k for f in form for k in SHORT
                            if SHORT[k] == f]
                    have = [ops.cls_name(s, x) for x in got]
                    if have != [k + "Operator" for k in want]:
                        ctx.bad(RG, w, "%s(%r) has operators %s" % (
                            name, form, have))
                    else:
                        ctx.ok(RG, w)
        for k in ACC:
            with ctx.case("%s(one %s operator)" % (name, k), RG) as s:
                o = s.new("operators.%sOperator" % k)
                m = s.new(name, o)
                x = lst(s, s.get(m, "operators"))
                if len(x) != 1:
                    ctx.bad(RG, w, "%d operators" % len(x))
                else:
                    ident(s, ctx, RG, w, x[0], o, "the only operator")


def matrix(ctx):
    for kind in ("Continuous", "Discrete"):
        name = "models.%sModel" % kind
        w = ctx.locate(name, "operator_matrix")
        for mix in mixes(ctx.thorough):
            for give in ("free", "some"):
                if len(mix) == 1 and give == "some":
                    continue
                with ctx.case("operator matrix of %s(%s), %s" % (
                        name, "+".join(mix), give), RM) as s:
                    O = objects(s, mix, give, ())
                    m = s.new(name, O)
                    models.fit_mono(s, m, mix)
                    un = [x for i, x in enumerate(O)
                          if give == "free" or not i % 2]
                    E = [s.tget(x, "entries") for x in un]
                    E = [e if len(e.shape) == 2 else tm.reshape(
                        e, (e.shape[0], const(1))) for e in E]
                    s.same(RM, w, s.tget(m, "operator_matrix"),
                           concat(E, 1) if len(E) > 1 else E[0],
                           note="the operator matrix")
                    s.same(RM, w, s.tget(m, "operator_matrix"), s.tcall(
                        s.get(m, "solver"), "solve"),
                        note="the operator matrix and the solution")


def renamed(ctx):
    """the deprecated classes"""
    from .c27 import user_interp
    for kind in ("Continuous", "Discrete"):
        old, new = ["models.Interp%s%sModel" % (x, kind)
                    for x in ("olated", "")]
        for mix in models.PMIXES:
            inp = models.has_input(mix)
            for kw in ((), ("solver",), ("InterpolatorClass",),
                       ("solver", "InterpolatorClass")):
                with ctx.case("%s(%s; %s)" % (old, "+".join(mix), ", ".join(
                        kw)), RN) as s:
                    w = ctx.locate(old, "__init__")
                    val = []
                    a = {}
                    if "solver" in kw:
                        a["solver"] = s.new("lstsq.L2Solver", s.flt("reg"))
                    if "InterpolatorClass" in kw:
                        a["InterpolatorClass"] = user_interp(s)
                    for name in (old, new):
                        o = s.new(name, [s.new(
                            "operators.Interp%sOperator" % k) for k in mix],
                            **a)
                        models.fit_param(s, o, mix)
                        q = s.arr("q", models.R_)
                        u = s.arr("u", models.M_)
                        arg = [s.flt("mu"), q] + ([u] if inp else [])
                        if kind == "Continuous":
                            arg = [s.flt("t"), s.flt("mu"), q] + (
                                [models.free_fn(u)] if inp else [])
                        val.append(s.tcall(o, "rhs", *arg))
                    s.same(RN, w, val[0], val[1], note="right-hand side")


def check(ctx):
    m = ctx.eng.load_text("usermodels", USER)
    v = ctx.eng.base_state.get(m.env).vars
    given(ctx, v)
    replaced(ctx, v)
    named(ctx)
    matrix(ctx)
    renamed(ctx)
