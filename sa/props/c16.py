"""Untrained objects refuse to be used."""
from .. import terms as tm
from ..terms import const, NONE
from . import common, ops, models
from .common import attempted, attrs, mk_locs

R = "untrained-use-raises"
OKAY = ("AttributeError",)


def refuses(s, ctx, where, o, calls, what, okay=OKAY):
    for label, fn in calls:
        ctx.label = s.ctx.label
        a = attempted(s, lambda q: fn(q, o))
        w = where(label.split("(")[0].lstrip("."))
        note = "%s of %s" % (label, what)
        if a[0] == "undec":
            ctx.undec(R, w, note + ": " + str(a[1]))
        elif a[0] == "val":
            ctx.bad(R, w, "%s returns %s instead of raising %s" % (
                note, tm.show(a[1], 4)[:120], "/".join(okay)))
        elif not set(a[1]) <= set(okay):
            ctx.bad(R, w, "%s raises %s instead of %s" % (
                note, a[2].split(": ", 1)[-1], "/".join(okay)))
        else:
            ctx.ok(R, w)


def at(ctx, fam):
    return lambda m: fam.where(ctx, m)


def tf_calls(n, locs=1):
    X = lambda s, shape=("k",): s.arr("P%d" % len(shape), n(s), *[
        s.dim(x) for x in shape])
    out = []
    for ip in (False, True):
        for sh in (("k",), ()):
            out += [(m + "(%s%s)" % ("states" if sh else "vector",
                                     ", inplace" if ip else ""),
                     lambda s, o, m=m, ip=ip, sh=sh: s.call(
                         o, m, X(s, sh), inplace=ip))
                    for m in ("transform", "inverse_transform",
                              "transform_ddts")]
    if locs:
        out.append(("inverse_transform(states, locs)", lambda s, o: s.call(
            o, "inverse_transform", s.arr("L", tm.mul(const(locs), s.dim("p")),
                                         s.dim("k")),
            locs=s.arrt(mk_locs("locs", "p")))))
    return out


def transformers(ctx):
    n = common.nfun("n")
    for fam in common.transformers(ctx):
        if fam.cls != "pre.ShiftScaleTransformer" or fam.fit is None or \
                ("False" in fam.label and "None" in fam.label):
            # (without centering and scaling there is nothing to train)
            continue
        with ctx.case(fam.label, R) as s:
            refuses(s, ctx, at(ctx, fam), fam.build(s), tf_calls(n),
                    "an untrained transformer")
        with ctx.case(fam.label + ", dimension known", R) as s:
            o = fam.build(s)
            s.set(o, "state_dimension", s.term(s.dim("n")))
            refuses(s, ctx, at(ctx, fam), o, tf_calls(n),
                    "an untrained transformer of known dimension")
    for given in (("mean_",), ("scale_", "shift_"), ("mean_", "scale_"),
                  ("mean_", "shift_")):
        with ctx.case("only %s given" % "+".join(given), R) as s:
            o = s.new("pre.ShiftScaleTransformer", centering=True,
                      scaling="standard")
            s.set(o, "state_dimension", s.term(s.dim("n")))
            for g in given:
                s.set(o, g, s.arr("given_" + g, s.dim("n")) if g == "mean_"
                      else s.flt("given_" + g))
            refuses(s, ctx, lambda m: ctx.locate(
                "pre.ShiftScaleTransformer", m), o, tf_calls(n),
                "a transformer with some trained attributes missing")
    B = dict((b[0], b) for b in common.sub_builders())
    for combo in (("std",), ("scale", "std"), ("std", "shift"),
                  ("std", "minmax"), ("null", "std"), ("minmax", "null")):
        for part in [None] + ([0, 1] if combo == ("std", "minmax") else []):
            with ctx.case("Pipeline(%s), %s" % (
                    "+".join(combo), "nothing fitted" if part is None else
                    "only part %d fitted" % part), R) as s:
                sub = [B[c][2](s, s.dim("n"), i) for i, c in enumerate(combo)]
                if part is not None:
                    s.call(sub[part], "fit", s.arr("X", s.dim("n"),
                                                   s.dim("k0")))
                o = s.new("pre.TransformerPipeline", sub)
                W = lambda m: ctx.locate("pre.TransformerPipeline", m)
                refuses(s, ctx, W, o, tf_calls(n),
                        "a pipeline with an untrained transformer")
            with ctx.case("Multi(%s), %s" % (
                    "+".join(combo), "nothing fitted" if part is None else
                    "only part %d fitted" % part), R) as s:
                if len(combo) < 2:
                    continue
                sub = [B[c][2](s, s.dim("n0"), i) for i, c in enumerate(
                    combo)]
                if part is not None:
                    s.call(sub[part], "fit", s.arr("X", s.dim("n0"),
                                                   s.dim("k0")))
                W = lambda m: ctx.locate("pre.TransformerMulti", m)
                tot = lambda s: tm.mul(const(2), s.dim("n0"))
                o = s.new("pre.TransformerMulti", sub)
                refuses(s, ctx, W, o, tf_calls(tot, 2),
                        "a multivariable transformer with an untrained part")
                o = s.new("pre.TransformerMulti", sub, variable_sizes=(
                    s.dim("n0"), s.dim("n0")))
                refuses(s, ctx, W, o, tf_calls(tot, 2), "a multivariable "
                        "transformer with an untrained part and known sizes")


def basis_calls(n, r=None, lin=True):
    r = r or (lambda s: s.dim("r"))
    P = lambda s, sh=("k",): s.arr("P%d" % len(sh), n(s), *[
        s.dim(x) for x in sh])
    Q = lambda s, sh=("k",): s.arr("R%d" % len(sh), r(s), *[
        s.dim(x) for x in sh])
    out = []
    for sh in (("k",), ()):
        t = "states" if sh else "vector"
        out += [(m + "(%s)" % t, lambda s, o, m=m, sh=sh: s.call(
            o, m, P(s, sh))) for m in ("compress", "project")]
        out.append(("decompress(%s)" % t, lambda s, o, sh=sh: s.call(
            o, "decompress", Q(s, sh))))
        out += [("projection_error(%s, relative=%s)" % (t, rel),
                 lambda s, o, rel=rel, sh=sh: s.call(
                     o, "projection_error", P(s, sh), relative=rel))
                for rel in (True, False)]
    out.append(("decompress(states, locs)", lambda s, o: s.call(
        o, "decompress", Q(s), locs=s.arrt(mk_locs("locs", "p")))))
    return out


def bases(ctx):
    n = common.nfun("n")
    for fam in common.bases(ctx):
        if getattr(fam, "ready", False) or fam.fit is None:
            continue
        with ctx.case(fam.label, R) as s:
            refuses(s, ctx, at(ctx, fam), fam.build(s), basis_calls(n) + [
                ("__getitem__", lambda s, o: s.eng.subscript(
                    s.st, o, const(0)))][:0], "an unfitted basis")
    for combo in (("pod", "pod"), ("pod", "lin"), ("lin", "pod")):
        with ctx.case("BasisMulti(%s)" % "+".join(combo), R) as s:
            sub = [s.new("basis.PODBasis", num_vectors=2) if c == "pod" else
                   s.new("basis.LinearBasis", s.arr("V%d" % i, s.dim("n0"),
                                                    s.dim("r0")),
                         check_orthogonality=False)
                   for i, c in enumerate(combo)]
            W = lambda m: ctx.locate("basis.BasisMulti", m)
            tot = lambda s: tm.mul(const(2), s.dim("n0"))
            for kw in ({}, {"full_variable_sizes": (s.dim("n0"),
                                                    s.dim("n0"))}):
                o = s.new("basis.BasisMulti", sub, **kw)
                refuses(s, ctx, W, o, basis_calls(
                    tot, lambda s: tm.mul(const(2), s.dim("r0"))),
                    "a multivariable basis with an unfitted part")


def solver_calls(reg):
    O = lambda s: s.arr("Ohat", s.dim("r"), s.dim("d"))
    out = [("solve()", lambda s, o: s.call(o, "solve")),
           ("residual(O)", lambda s, o: s.call(o, "residual", O(s))),
           ("cond()", lambda s, o: s.call(o, "cond"))]
    if reg:
        out += [("posterior()", lambda s, o: s.call(o, "posterior")),
                ("regcond()", lambda s, o: s.call(o, "regcond")),
                ("regresidual(O)", lambda s, o: s.call(
                    o, "regresidual", O(s)))]
    return out


def solvers(ctx):
    for fam in common.solvers(ctx):
        reg = fam.cls.split(".")[1].startswith(("L2", "Tik"))
        calls = solver_calls(reg)
        if "Total" in fam.cls:
            calls += attrs("augcond", "error")
        if "Trunc" in fam.cls:
            calls += [("tcond()", lambda s, o: s.call(o, "tcond"))]
        with ctx.case(fam.label, R) as s:
            refuses(s, ctx, at(ctx, fam), fam.build(s), calls,
                    "an untrained solver")
        with ctx.case(fam.label + ", reset", R) as s:
            o = fam.build(s)
            fam.fit(s, o)
            s.call(o, "solve") if "None" not in fam.label or not reg else 0
            s.call(o, "reset")
            refuses(s, ctx, at(ctx, fam), o, calls, "a reset solver")
        if reg:
            rc = [c for c in calls if c[0][:4] in ("solv", "post", "regc",
                                                   "regr")]
            with ctx.case(fam.label + ", regularizer removed", R) as s:
                o = fam.build(s)
                fam.fit(s, o)
                s.set(o, "regularizer", NONE)
                refuses(s, ctx, at(ctx, fam), o, rc,
                        "a solver without regularizer")


def op_calls(cls, r, m, mu=False):
    a = lambda s: [s.flt("mu")] if mu else []
    st = lambda s, k=None: ops.state(s, r, *([k] if k else []))
    inp = "Input" in cls
    out = []
    for k in (None, "k"):
        u = lambda s, k=k: [ops.input_(s, m, *([k] if k else []))] \
            if inp else []
        out.append(("apply(%s)" % ("states" if k else "state"),
                    lambda s, o, k=k, u=u: s.call(o, "apply", *a(s), st(s, k),
                                                  *u(s))))
    out.append(("jacobian(state)", lambda s, o: s.call(
        o, "jacobian", *a(s), st(s), *([ops.input_(s, m)] if inp else []))))
    W = lambda s: s.arr("Vr", r, 1)
    out += [("galerkin(Vr)", lambda s, o: s.call(o, "galerkin", W(s))),
            ("galerkin(Vr, Wr)", lambda s, o: s.call(
                o, "galerkin", W(s), s.arr("Wr", r, 1)))]
    if mu:
        out.append(("evaluate(parameter)", lambda s, o: s.call(
            o, "evaluate", s.flt("mu"))))
    return out


def operators(ctx):
    names = [x[0] for x in ops.NONPARAM] + [x[0] for x in ops.POLY]
    for cls in names:
        m = 2 if "Input" in cls else None
        W = lambda x: ctx.locate(ops.path(cls), x)
        calls = op_calls(cls, 3, m)
        a = [ops.order(cls)] if "[" in cls else []
        if "[" in cls:
            # (projection is not implemented for this class)
            calls = [c for c in calls if "galerkin" not in c[0]]
        with ctx.case(cls, R) as s:
            refuses(s, ctx, W, s.new(ops.path(cls), *a), calls,
                    "an operator without entries")
    for kind in ("Affine", "Interp"):
        for nm in ops.PARAM:
            cls = nm + "Operator"
            m = 2 if "Input" in nm else None
            W = lambda x: ctx.locate("operators." + kind + cls, x)
            for how in (("int", "fn", "list") if kind == "Affine" else
                        ("1-D", "2-D", "none")):
                with ctx.case("%s%s(%s)" % (kind, cls, how), R) as s:
                    o = s.new("operators.Interp" + cls) if how == "none" \
                        else ops.build_param(s, kind, cls, 3, m, how,
                                             ent=False)
                    refuses(s, ctx, W, o, op_calls(cls, 3, m, True),
                            "a parametric operator without entries")


def model_calls(kind, mix, parametric):
    inp = models.has_input(mix)
    R_, M_ = models.R_, models.M_
    mu = lambda s: [s.flt("mu")] if parametric else []

    def args(s):
        u = ops.input_(s, M_) if inp else NONE
        if kind == "Discrete":
            return mu(s) + [ops.state(s, R_), u]
        return [s.flt("t")] + mu(s) + [ops.state(s, R_), models.free_fn(u)
                                       if inp else NONE]
    out = [(m, lambda s, o, m=m: s.call(o, m, *args(s)))
           for m in ("rhs", "jacobian")]
    if kind == "Discrete":
        out.append(("predict", lambda s, o: s.call(
            o, "predict", *mu(s), ops.state(s, R_), 3,
            *([s.arr("U", M_, 3)] if inp else []))))
    else:
        out.append(("predict", lambda s, o: s.call(
            o, "predict", *mu(s), ops.state(s, R_), s.arr("t", s.dim("k")),
            *([models.free_fn(ops.input_(s, M_))] if inp else []))))
    if parametric:
        # (an evaluated model may itself be untrained, and then refuses)
        out.append(("evaluate(parameter).rhs", lambda s, o: s.call(
            s.call(o, "evaluate", s.flt("mu")), "rhs", *[
                a for i, a in enumerate(args(s))
                if i != (0 if kind == "Discrete" else 1)])))
    return out


def model_fams(ctx):
    for fam in models.mono_fams(ctx) + models.param_fams(ctx):
        if fam.pattern == "given":
            continue
        with ctx.case(fam.label, R) as s:
            refuses(s, ctx, at(ctx, fam), fam.build(s), model_calls(
                fam.kind, fam.mix, fam.parametric), "an untrained model",
                okay=OKAY + (("ValueError",) if fam.parametric and
                             fam.pattern == "first given" else ()))
            # (evaluating the given operators first, at whatever parameter,
            # may refuse for reasons of its own)


def check(ctx):
    transformers(ctx)
    bases(ctx)
    solvers(ctx)
    operators(ctx)
    model_fams(ctx)
