"""Saved operators and models come back with the same behaviour."""
from . import ops, models
from .c27 import make as make_param, user_interp
from .common import equiv, load_any, Fam, attrs, tm, const, NONE
from ..values import Ext


def poly_build(s, p, r, ent=True):
    w = ops.comb(r + p - 1, p)
    return s.new("operators.PolynomialOperator", p,
                 **(dict(entries=s.arr("E", r, w)) if ent else {}))


def poly_probes(p, r):
    return [("apply(state)", lambda s, o: s.call(o, "apply", s.arr("q", r))),
            ("apply(states)", lambda s, o: s.call(
                o, "apply", s.arr("Q", r, s.dim("k")))),
            ("jacobian(state)", lambda s, o: s.call(
                o, "jacobian", s.arr("q", r))),
            ("operator_dimension", lambda s, o: s.call(
                o, "operator_dimension", r)),
            ("datablock", lambda s, o: s.call(
                o, "datablock", s.arr("Q", r, s.dim("k"))))] + attrs(
                    "state_dimension", "shape", "entries",
                    "polynomial_order")


def nonparam_fams(ctx):
    fams = []
    for cls, p, inp in ops.NONPARAM:
        for r, m in ops.sizes(cls, ctx.thorough):
            fams.append(Fam(ops.lab(cls, r, m), "operators." + cls,
                            lambda s, cls=cls, r=r, m=m: ops.build(
                                s, cls, r, m), probes=ops.op_probes(
                                    cls, r, m)))
        r, m = ops.sizes(cls)[1]
        fams.append(Fam("%s without entries" % cls, "operators." + cls,
                        lambda s, cls=cls: s.new("operators." + cls),
                        probes=ops.op_probes(cls, r, m)))
    for cls in ("LinearOperator",):
        fams.append(Fam("%s, sparse entries" % cls, "operators." + cls,
                        lambda s, cls=cls: s.new(
                            "operators." + cls, s.new_dia("E", "r")),
                        probes=ops.op_probes(cls, "r", None)))
    for p in range(5):
        for r in (1, 2, 3):
            for ent in (True, False):
                if not ent and r > 1:
                    continue
                fams.append(Fam(
                    "PolynomialOperator(%d) r=%d%s" % (
                        p, r, "" if ent else " without entries"),
                    "operators.PolynomialOperator",
                    lambda s, p=p, r=r, ent=ent: poly_build(s, p, r, ent),
                    probes=poly_probes(p, r)))
    return fams


def param_op_probes(cls, r, m, kind, how):
    def at(s):
        return ops.parameters(s, kind, how)[0]

    def u(s):
        return [] if m is None else [ops.input_(s, m)]
    pr = [("apply", lambda s, o: s.call(o, "apply", at(s), ops.state(s, r),
                                        *u(s))),
          ("jacobian", lambda s, o: s.call(
              o, "jacobian", at(s), ops.state(s, r), *u(s))),
          ("evaluate().entries", lambda s, o: s.get(
              s.call(o, "evaluate", at(s)), "entries"))]
    pr += attrs("state_dimension", "parameter_dimension", "shape", "entries")
    if m is not None:
        pr += attrs("input_dimension")
    if kind == "Affine":
        pr += attrs("nterms")
    else:
        pr += attrs("training_parameters")
    pr.append(("class", lambda s, o: const(ops.cls_name(s, o))))
    return pr


def param_op_fams(ctx, extra=False):
    fams = []
    r, n = 2, 3
    for nm in ops.PARAM:
        cls = nm + "Operator"
        m = 2 if "Input" in nm else None
        for how in ("int", "fn", "list"):
            for ent in (True, False):
                if not ent and how == "list":
                    continue

                def load(s, path, cls=cls, how=how):
                    c = {"int": n, "fn": ops.coeff_fn(s, n)}.get(how)
                    if c is None:
                        c = [ops.scalar_fn("theta%d" % i) for i in range(n)]
                    return s.new("operators.Affine%s.load" % cls, path, c)
                fams.append(Fam(
                    "Affine%s(%s%s)" % (cls, how, "" if ent else
                                        ", no entries"),
                    "operators.Affine" + cls,
                    lambda s, cls=cls, m=m, how=how, ent=ent:
                    ops.build_param(s, "Affine", cls, r, m, how, n=n,
                                    ent=ent), load=load,
                    probes=param_op_probes(cls, r, m, "Affine", how)))
        for how in ("1-D", "2-D"):
            for ic in (None, "PchipInterpolator", "NearestNDInterpolator"):
                if ic and ("ND" in ic) != (how == "2-D"):
                    continue
                for ent in (True, False):
                    def build(s, cls=cls, m=m, how=how, ent=ent, ic=ic):
                        mus = s.arrt(tm.mk("np.linspace", const(0), const(1),
                                     kind="arr", shape=(const(n),))) \
                            if how == "1-D" and ic else (
                                s.arr("mus", n) if how == "1-D" else
                                s.arr("mus", n, 2))
                        kw = {}
                        if ent:
                            kw["entries"] = [ops.entries(
                                s, cls, r, m, "E%d" % i) for i in range(n)]
                        if ic:
                            kw["InterpolatorClass"] = Ext("spinterp." + ic)
                        return s.new("operators.Interp" + cls, mus, **kw)
                    pr = param_op_probes(cls, r, m, "Interp", how)
                    pr.append(("entries set later", lambda s, o, cls=cls,
                               m=m, how=how: later(s, o, cls, r, m, how, n)))
                    fams.append(Fam(
                        "Interp%s(%s, %s%s)" % (cls, how, ic, "" if ent else
                                                ", no entries"),
                        "operators.Interp" + cls, build, probes=pr))
    return fams


def later(s, o, cls, r, m, how, n):
    """the operator after it is given other entries"""
    s.call(o, "_clear")
    s.call(o, "set_training_parameters", s.arrt(tm.mk(
        "np.linspace", const(0), const(2), kind="arr",
        shape=(const(n),))) if how == "1-D" else s.arr("nus", n, 2))
    s.call(o, "set_entries", [ops.entries(s, cls, r, m, "F%d" % i)
                              for i in range(n)])
    return s.get(s.call(o, "evaluate", ops.parameters(
        s, "Interp", how)[0]), "entries")


def check(ctx):
    R = "save-load-behaviour"
    for fam in nonparam_fams(ctx) + param_op_fams(ctx):
        with ctx.case(fam.label, R) as s:
            o = fam.build(s)
            s.call(o, "save", "f.h5")
            equiv(s, R, fam.where(ctx, "load"), o, load_any(s, fam),
                  fam.probes)
    for fam in models.mono_fams(ctx) + models.param_fams(
            ctx, interp_only=True):
        for trained in ("as built", "fitted"):
            if trained == "fitted" and fam.fit is None:
                continue
            with ctx.case("%s, %s" % (fam.label, trained), R) as s:
                o = fam.build(s)
                if trained == "fitted":
                    fam.fit(s, o)
                s.call(o, "save", "f.h5")
                # the solver, which str() names, is no part of the file
                equiv(s, R, fam.where(ctx, "load"), o, load_any(s, fam),
                      [p for p in fam.probes if p[0] != "str()"])
    many(ctx, R)


def many(ctx, R):
    """more operators than there are digits"""
    n = 12
    for name, kind in [("models.%sModel" % x, "") for x in (
            "Continuous", "Discrete")] + [("models.Interp%sModel" % x, "Interp")
                                          for x in ("Continuous", "Discrete")]:
        with ctx.case("%s of %d operators" % (name, n), R) as s:
            w = ctx.locate(name, "load")
            if kind:
                O = [ops.build_param(s, kind, "LinearOperator", 2, None, None,
                                     "E%d_" % i, 3) for i in range(n)]
            else:
                O = [ops.build(s, "LinearOperator", 2, None, "E%d" % i)
                     for i in range(n)]
            m = s.new(name, O)
            s.call(m, "save", "f.h5")
            x = s.new(name + ".load", "f.h5")
            got = s.get(x, "operators")
            s.same(R, w, s.len(got), const(n), note="operators")
            for i in range(n):
                a, b = s.item(got, i), O[i]
                for t in ("0", "1", "2") if kind else ("",):
                    ea, eb = s.get(a, "entries"), s.get(b, "entries")
                    if t:
                        ea, eb = s.item(ea, int(t)), s.item(eb, int(t))
                    s.same(R, w, s.term(ea), s.term(eb),
                           note="operator %d of %d" % (i, n))
