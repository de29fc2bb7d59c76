"""Families of abstract monolithic models."""
from . import ops
from .c27 import make as make_param, user_interp
from .common import Fam, attrs, tm, const, NONE
from ..values import PyFn

R_, M_, N_ = 2, 2, 3

# operators of each mix
MIXES = [("Constant", "Linear"), ("Linear",), ("Linear", "Quadratic", "Input"),
         ("Cubic", "StateInput", "Linear"), ("Input", "Constant", "Linear",
                                             "Quadratic"),
         ("StateInput", "Input")]
PMIXES = [("Constant", "Linear"), ("Linear", "Input"),
          ("Quadratic", "StateInput", "Linear")]
PATTERNS = ("given", "free", "first given", "last given")
ABBR = {"Constant": "c", "Linear": "A", "Quadratic": "H", "Cubic": "G",
        "Input": "B", "StateInput": "N"}


def known(pattern, i, n):
    return {"given": True, "free": False, "first given": i == 0,
            "last given": i == n - 1}[pattern]


def has_input(mix):
    return any("Input" in x for x in mix)


def mdim(nm):
    return M_ if "Input" in nm else None


def free_fn(u):
    return PyFn("input_func", lambda e, st, a, k: u)


def probes(kind, mix, parametric=False):
    inp = has_input(mix)

    def args(s, batch=False):
        mu = [s.flt("mu")] if parametric else []
        q = ops.state(s, R_)
        u = ops.input_(s, M_) if inp else NONE
        if kind == "Discrete":
            return mu + [q, u]
        return [s.flt("t")] + mu + [q, free_fn(u) if inp else NONE]
    pr = attrs("state_dimension", "input_dimension")
    if parametric:
        pr += attrs("parameter_dimension")
    pr.append(("number of operators",
               lambda s, o: s.len(s.get(o, "operators"))))
    for i in range(len(mix)):
        pr.append(("class of operator %d" % i, lambda s, o, i=i: const(
            ops.cls_name(s, s.item(s.get(o, "operators"), i)))))
        for a in ("entries", "state_dimension"):
            pr.append(("%s of operator %d" % (a, i), lambda s, o, i=i, a=a:
                       s.get(s.item(s.get(o, "operators"), i), a)))
    pr.append(("rhs", lambda s, o: s.call(o, "rhs", *args(s))))
    pr.append(("jacobian", lambda s, o: s.call(o, "jacobian", *args(s))))
    if not parametric:
        pr.append(("operator_matrix", lambda s, o: s.get(
            o, "operator_matrix")))
    if kind == "Discrete":
        pr.append(("predict", lambda s, o: s.call(
            o, "predict", *([s.flt("mu")] if parametric else []),
            ops.state(s, R_), 3,
            *([s.arr("U", M_, 3)] if inp else []))))
    return pr


def build_mono(s, kind, mix, pattern, tag="E", solver=None, abbr=False,
               klass=None):
    lst = []
    for i, nm in enumerate(mix):
        if known(pattern, i, len(mix)):
            lst.append(ops.build(s, nm + "Operator", R_, mdim(nm),
                                 "%s%d" % (tag, i)))
        elif abbr:
            lst.append(ABBR[nm])
        else:
            lst.append(s.new("operators.%sOperator" % nm))
    kw = {} if solver is None else {"solver": solver(s)}
    return s.new(klass or "models.%sModel" % kind, lst, **kw)


def fit_mono(s, o, mix, tag="", kind="Continuous"):
    k = s.dim("k" + tag)
    q = s.arr("Q" + tag, R_, k)
    z = s.arr("Z" + tag, R_, k)
    u = {"inputs": s.arr("U" + tag, M_, k)} if has_input(mix) else {}
    return s.call(o, "fit", q, z, **u)


def solver_forms(ctx):
    out = [("default", None), ("L2", lambda s: s.new(
        "lstsq.L2Solver", s.flt("reg")))]
    if ctx.thorough:
        out += [("number", lambda s: s.flt("reg")),
                ("Tikhonov", None)]
        out.pop()
    return out


def mono_fams(ctx, solvers=False):
    fams = []
    for kind in ("Discrete", "Continuous"):
        for mix in MIXES:
            for pattern in PATTERNS:
                if len(mix) == 1 and "given" in pattern and \
                        pattern != "given":
                    continue
                for sl, sf in solver_forms(ctx) if solvers and \
                        pattern != "given" else [("default", None)]:
                    def build(s, kind=kind, mix=mix, pattern=pattern, sf=sf):
                        return build_mono(s, kind, mix, pattern, solver=sf,
                                          abbr=pattern == "free"
                                          and kind == "Discrete")

                    def fit(s, o, tag="", mix=mix):
                        return fit_mono(s, o, mix, tag)
                    fams.append(Fam(
                        "%sModel(%s; %s; solver=%s)" % (
                            kind, "+".join(mix), pattern, sl),
                        "models.%sModel" % kind, build,
                        None if pattern == "given" else fit,
                        probes(kind, mix), mix=mix, pattern=pattern,
                        kind=kind, parametric=False))
    return fams


def fit_param(s, o, mix, tag="", n=N_):
    mus = s.arr("mus" + tag, n)
    k = [s.dim("k%d%s" % (i, tag)) for i in range(n)]
    q = [s.arr("Q%d%s" % (i, tag), R_, k[i]) for i in range(n)]
    z = [s.arr("Z%d%s" % (i, tag), R_, k[i]) for i in range(n)]
    u = {"inputs": [s.arr("U%d%s" % (i, tag), M_, k[i])
                    for i in range(n)]} if has_input(mix) else {}
    return s.call(o, "fit", mus, q, z, **u)


def build_param(s, fam, mix, pattern, tag="E", solver=None, interp=None,
                klass=None):
    """fam: 'InterpDiscreteModel', 'ParametricContinuousModel', …"""
    lst = []
    for i, nm in enumerate(mix):
        cls = nm + "Operator"
        what = "Interp" if fam.startswith("Interp") else (
            "Affine", "plain", "Interp")[i % 3]
        if known(pattern, i, len(mix)):
            if what == "plain":
                lst.append(ops.build(s, cls, R_, mdim(nm), tag + str(i)))
            else:
                lst.append(make_param(s, what, cls, R_, mdim(nm), "fn" if
                                      what == "Affine" else "1-D", N_,
                                      "%s%d_" % (tag, i))[0])
        elif what == "plain":
            lst.append(s.new("operators." + cls))
        elif what == "Affine":
            lst.append(s.new("operators.Affine" + cls, ops.coeff_fn(s, N_),
                             nterms=N_))
        else:
            lst.append(s.new("operators.Interp" + cls))
    kw = {} if solver is None else {"solver": solver(s)}
    if interp is not None:
        kw["InterpolatorClass"] = interp(s)
    return s.new(klass or "models." + fam, lst, **kw)


def param_fams(ctx, interp_only=False, solvers=False):
    fams = []
    for base in ("Interp",) if interp_only else ("Parametric", "Interp"):
        for kind in ("Discrete", "Continuous"):
            for mix in PMIXES:
                for pattern in PATTERNS:
                    for sl, sf in solver_forms(ctx) if solvers and \
                            pattern != "given" else [("default", None)]:
                        name = "%s%sModel" % (base, kind)

                        def build(s, name=name, mix=mix, pattern=pattern,
                                  sf=sf):
                            return build_param(s, name, mix, pattern,
                                               solver=sf)

                        def fit(s, o, tag="", mix=mix):
                            return fit_param(s, o, mix, tag)
                        fams.append(Fam(
                            "%s(%s; %s; solver=%s)" % (
                                name, "+".join(mix), pattern, sl),
                            "models." + name, build,
                            None if pattern == "given" else fit,
                            probes(kind, mix, True), mix=mix,
                            pattern=pattern, kind=kind, parametric=True))
    return fams
