"""Families of abstract objects shared by the properties."""
from ..check import S, Fail, Skip, isa_exc, short
from ..interp import Unsupported
from ..terms import const, sym, mk, NONE, TRUE, FALSE
from .. import terms as tm
from ..values import Ref, Tup, Arr, Inst, Opq, Lst, Dct, Phi, ClassVal, Ext


# ---------------------------------------------------------------- outcomes
def attempt(s, fn):
    """('val', term) | ('raise', names) | ('undec', why)"""
    try:
        v = fn(s)
        t = v if isinstance(v, tm.T) else s.term(v)
        return ("val", t)
    except Fail as ex:
        if ex.excs is None:
            return ("undec", ex.what)
        return ("raise", tuple(sorted({x.split(" at ")[0]
                                       for x in ex.excs})), ex.what)
    except (Unsupported, RecursionError) as ex:
        return ("undec", "%s: %s" % (type(ex).__name__, ex))


def attempted(s, fn):
    """attempt() in a fork of s; a value that depends on anything outside of
    the modelled vocabulary does not show that nothing is raised."""
    q = s.fork()
    a = attempt(q, fn)
    if a[0] == "val" and (a[1].opaque
                          or any(c.opaque for c, _ in q.st.pc)):
        return ("undec", "the result is not modelled: " + tm.show(a[1], 3))
    return a


def equiv(s, rule, where, a, b, probes, what=("original", "loaded")):
    """Obligation: both objects answer every probe alike."""
    ctx = s.ctx
    for label, fn in probes:
        sa_, sb_ = s.fork(), s.fork()
        ra = attempt(sa_, lambda q: fn(q, a))
        rb = attempt(sb_, lambda q: fn(q, b))
        if ra[0] == "undec" or rb[0] == "undec":
            ctx.undec(rule, where, "%s: %s" % (
                label, ra[1] if ra[0] == "undec" else rb[1]))
            continue
        if ra[0] == "raise" and rb[0] == "raise":
            if ra[1] == rb[1]:
                ctx.ok(rule, where)
            else:
                ctx.bad(rule, where, "%s: %s raises %s, %s raises %s" % (
                    label, what[0], ra[1], what[1], rb[1]))
            continue
        if ra[0] != rb[0]:
            r, o = (ra, 0) if ra[0] == "raise" else (rb, 1)
            ctx.bad(rule, where, "%s: only the %s object fails (%s)" % (
                label, what[o], r[2]))
            continue
        ctx.same(rule, where, rb[1], ra[1], st=sb_.st, note=label)


# ---------------------------------------------------------------- generic
def text(s, o):
    """what the object prints about itself"""
    c = s.clsof(o)
    if c is not None and s.eng.class_lookup(c, "__str__") is None:
        return const("")        # Python's default, which names the address
    return s.done(s.run(Ext("builtins.str"), o), "str()", s.where(
        o, "__str__"))


class Fam:
    """label, cls: dotted class; build(s, tag)->object; fit(s,obj,tag);
    probes: [(label, fn(s,obj))]; load(s, path)->object or None"""

    def __init__(self, label, cls, build, fit=None, probes=(), load=None,
                 **kw):
        self.label, self.cls, self.build, self.fit = label, cls, build, fit
        self.probes, self.load = list(probes) + [("str()", text)], load
        self.__dict__.update(kw)

    def where(self, ctx, m):
        return ctx.locate(ctx.eng.lookup(
            self.cls if self.cls.startswith("opinf") else
            "opinf." + self.cls), m)


def attrs(*names):
    return [("." + n, (lambda s, o, n=n: s.get(o, n))) for n in names]


# ---------------------------------------------------------------- pre
def tf_probes(n, k="k", extra=()):
    def X(s, name="P"):
        return s.arr(name, n(s), s.dim(k))
    pr = [
        ("transform(states)", lambda s, o: s.call(o, "transform", X(s))),
        ("inverse_transform(states)",
         lambda s, o: s.call(o, "inverse_transform", X(s))),
        ("inverse_transform(states, locs)", lambda s, o: s.call(
            o, "inverse_transform", s.arr("L", s.dim("p"), s.dim(k)),
            locs=s.arrt(mk_locs("locs", "p")))),
        ("transform_ddts(ddts)",
         lambda s, o: s.call(o, "transform_ddts", X(s, "D"))),
    ]
    pr += attrs("state_dimension", "name", *extra)
    return pr


def mk_locs(name, p):
    return sym(name, "idx", (sym(p, "dim", ()),))


def nfun(name="n"):
    return lambda s: s.dim(name)


SCALINGS = ["standard", "minmax", "minmaxsym", "maxabs", "maxabssym",
            "norm", "maxnorm", "maxnormsym"]


def valid_scalings(ctx):
    """The scaling rules the class accepts, found by analysing its
    constructor on the literals it mentions."""
    out = []
    for sc in SCALINGS:
        s = S(ctx)
        o = s.run("pre.ShiftScaleTransformer", scaling=sc)
        if not o.dead:
            out.append(sc)
    return out


def transformers(ctx, deep=True):
    """Every way of configuring a transformer."""
    fams = []
    n = nfun("n")

    def fitX(s, o, tag="X"):
        return s.call(o, "fit_transform", s.arr(tag, s.dim("n"), s.dim("k0")))

    for name in (None, "abc"):
        fams.append(Fam("Null(name=%s)" % name, "pre.NullTransformer",
                        lambda s, name=name: s.new("pre.NullTransformer",
                                                   name=name),
                        fitX, tf_probes(n), "plain"))
        fams.append(Fam(
            "Shift(name=%s)" % name, "pre.ShiftTransformer",
            lambda s, name=name: s.new("pre.ShiftTransformer",
                                       s.arr("ref", s.dim("n")), name=name),
            fitX, tf_probes(n, extra=("reference",)), "plain", ready=True))
        fams.append(Fam(
            "Scale(scalar,name=%s)" % name, "pre.ScaleTransformer",
            lambda s, name=name: s.new("pre.ScaleTransformer", s.flt("alpha"),
                                       name=name),
            fitX, tf_probes(n, extra=("scaler", "byrow")), "plain"))
        fams.append(Fam(
            "Scale(rows,name=%s)" % name, "pre.ScaleTransformer",
            lambda s, name=name: s.new("pre.ScaleTransformer",
                                       s.arr("alpha", s.dim("n")), name=name),
            fitX, tf_probes(n, extra=("scaler", "byrow")), "plain",
            ready=True))
    one = lambda s: const(1)
    fams.append(Fam(
        "Scale(one row)", "pre.ScaleTransformer",
        lambda s: s.new("pre.ScaleTransformer", s.arr("alpha", 1)),
        lambda s, o, tag="X": s.call(o, "fit_transform",
                                     s.arr(tag, 1, s.dim("k0"))),
        tf_probes(one, extra=("scaler", "byrow")), "plain", ready=True))
    for cen in (False, True):
        for sc in [None] + valid_scalings(ctx):
            for byrow in (False, True):
                if byrow and sc is None or (
                        byrow and sc in ("maxnorm", "maxnormsym")):
                    continue
                for name, verb in ((None, False), ("q", True)) if deep else (
                        ("q", False),):
                    lab = "ShiftScale(centering=%s,scaling=%s,byrow=%s,name=" \
                          "%s,verbose=%s)" % (cen, sc, byrow, name, verb)
                    fams.append(Fam(
                        lab, "pre.ShiftScaleTransformer",
                        lambda s, a=(cen, sc, byrow, name, verb): s.new(
                            "pre.ShiftScaleTransformer", centering=a[0],
                            scaling=a[1], byrow=a[2], name=a[3],
                            verbose=a[4]),
                        fitX, tf_probes(n, extra=(
                            "centering", "scaling", "byrow", "verbose",
                            "mean_", "scale_", "shift_")), "plain"))
    return fams


def sub_builders():
    """Small set of transformers used inside composites:
    (label, class, build(s, nsize, i))"""
    return [
        ("shift", "pre.ShiftTransformer",
         lambda s, ni, i: s.new("pre.ShiftTransformer",
                                s.arr("ref%d" % i, ni))),
        ("scale", "pre.ScaleTransformer",
         lambda s, ni, i: s.new("pre.ScaleTransformer",
                                s.flt("alpha%d" % i))),
        ("rows", "pre.ScaleTransformer",
         lambda s, ni, i: s.new("pre.ScaleTransformer",
                                s.arr("alpha%d" % i, ni))),
        ("std", "pre.ShiftScaleTransformer",
         lambda s, ni, i: s.new("pre.ShiftScaleTransformer", centering=True,
                                scaling="standard", byrow=True)),
        ("minmax", "pre.ShiftScaleTransformer",
         lambda s, ni, i: s.new("pre.ShiftScaleTransformer", centering=False,
                                scaling="minmax")),
        ("null", "pre.NullTransformer",
         lambda s, ni, i: s.new("pre.NullTransformer")),
    ]


def composites(ctx, many=False):
    """Pipelines and multivariable transformers of the basic ones.
    many: also with more than ten components."""
    fams = []
    B = dict((b[0], b) for b in sub_builders())
    n = nfun("n")

    def fitX(s, o, tag="X"):
        return s.call(o, "fit_transform", s.arr(tag, s.dim("n"), s.dim("k0")))
    for combo, name in ((("shift", "scale"), None), (("scale", "shift"), "p"),
                        (("rows", "std"), "p"), (("std", "minmax"), None),
                        (("std", "rows", "shift"), "abc"),
                        (("null", "rows"), "z")) + (
                            ((("scale", "shift") * 6, "p"),) if many else ()):
        def build(s, combo=combo, name=name):
            return s.new("pre.TransformerPipeline",
                         [B[c][2](s, s.dim("n"), i)
                          for i, c in enumerate(combo)], name=name)

        def load(s, path, combo=combo):
            return s.new("pre.TransformerPipeline.load", path,
                         [s.cls(B[c][1]) for c in combo])
        fams.append(Fam("Pipeline(%s,name=%s)" % ("+".join(combo), name),
                        "pre.TransformerPipeline", build, fitX,
                        tf_probes(n, extra=("num_transformers",)), load,
                        combo=combo))
    for combo, sizes in ((("shift", "rows"), ("n0", "n1")),
                         (("std", "minmax"), ("n0", "n0")),
                         (("null", "std", "scale"), ("n0", "n1", "n2")),
                         ((None, "rows"), ("n0", "n0"))) + (
                             ((("scale",) * 11, ("n0",) * 11),)
                             if many else ()):
        def build(s, combo=combo, sizes=sizes):
            return s.new("pre.TransformerMulti",
                         [NONE if c is None else B[c][2](s, s.dim(z), i)
                          for i, (c, z) in enumerate(zip(combo, sizes))],
                         variable_sizes=tuple(s.dim(z) for z in sizes))

        def tot(s, sizes=sizes):
            t = const(0)
            for z in sizes:
                t = tm.add(t, s.dim(z))
            return t

        def load(s, path, combo=combo):
            return s.new("pre.TransformerMulti.load", path,
                         [s.cls(B[c or "null"][1]) for c in combo])

        def fit(s, o, tag="X", tot=tot):
            return s.call(o, "fit_transform",
                          s.arr(tag, tot(s), s.dim("k0")))
        pr = [p for p in tf_probes(tot, extra=(
            "num_variables", "variable_names", "variable_sizes"))
            if "locs" not in p[0] and p[0] != ".name"]
        if len(set(sizes)) == 1:
            m = len(sizes)
            pr.append(("inverse_transform(states, locs)", lambda s, o, m=m:
                       s.call(o, "inverse_transform", s.arr(
                           "L", tm.mul(const(m), s.dim("p")), s.dim("k")),
                           locs=s.arrt(mk_locs("locs", "p")))))
        fams.append(Fam("Multi(%s;%s)" % ("+".join(map(str, combo)),
                                          ",".join(sizes)),
                        "pre.TransformerMulti", build, fit, pr, load,
                        combo=combo, sizes=sizes, tot=tot))
    return fams


def load_any(s, fam, path="f.h5"):
    if callable(fam.load):
        return fam.load(s, path)
    return s.new(fam.cls + ".load", path)


# ---------------------------------------------------------------- bases
def basis_probes(n, r, extra=()):
    pr = [
        ("compress(states)", lambda s, o: s.call(
            o, "compress", s.arr("P", n(s), s.dim("k")))),
        ("compress(vector)", lambda s, o: s.call(
            o, "compress", s.arr("p", n(s)))),
        ("decompress(states)", lambda s, o: s.call(
            o, "decompress", s.arr("R", rdim(s, o), s.dim("k")))),
        ("decompress(states, locs)", lambda s, o: s.call(
            o, "decompress", s.arr("R", rdim(s, o), s.dim("k")),
            locs=s.arrt(mk_locs("locs", "p")))),
        ("project(states)", lambda s, o: s.call(
            o, "project", s.arr("P", n(s), s.dim("k")))),
    ]
    return pr + attrs("reduced_state_dimension", "full_state_dimension",
                      "shape", *extra)


def rdim(s, o):
    return s.tget(o, "reduced_state_dimension")


def weights_forms():
    return [
        ("none", lambda s: NONE),
        ("vector", lambda s: s.arr("w", s.dim("n"))),
        ("matrix", lambda s: s.arr("W", s.dim("n"), s.dim("n"))),
        ("sparse csr", lambda s: s.arrt(mk(
            "csr_array", sym("Wd", "arr", (s.dim("n"), s.dim("n"))),
            shape=(s.dim("n"), s.dim("n")), kind="sparse"))),
        ("sparse dia", lambda s: s.new_dia("wd", "n")),
        ("sparse bands", lambda s: s.new_dia("wb", "n", (-1, 0, 1))),
    ]


def bases(ctx, deep=True):
    fams = []
    n = nfun("n")
    r = nfun("r")
    for wl, wf in weights_forms():
        for name in ((None, "b") if wl == "none" else ("b",)):
            fams.append(Fam(
                "LinearBasis(weights=%s,name=%s)" % (wl, name),
                "basis.LinearBasis",
                lambda s, wf=wf, name=name: s.new(
                    "basis.LinearBasis", s.arr("V", s.dim("n"), s.dim("r")),
                    weights=wf(s), name=name, check_orthogonality=False),
                None, basis_probes(n, r, ("entries", "name", "weights")),
                "plain", ready=True))
    crits = [("num_vectors", lambda s: s.int("nv")),
             ("svdval_threshold", lambda s: s.flt("tol")),
             ("cumulative_energy", lambda s: s.flt("tol")),
             ("residual_energy", lambda s: s.flt("tol")),
             ("projection_error", lambda s: s.flt("tol"))]
    podp = ("name", "leftvecs", "svdvals", "rightvecs", "entries",
            "max_vectors", "cumulative_energy", "residual_energy")
    for wl, wf in weights_forms():
        for cn, cf in crits:
            if wl != "none" and cn not in ("num_vectors",
                                           "cumulative_energy"):
                continue
            for mv in ((None, 7) if wl == "none" else (None,)):
                def build(s, wf=wf, cn=cn, cf=cf, mv=mv, **kw):
                    return s.new("basis.PODBasis", **{cn: cf(s)},
                                 weights=wf(s), max_vectors=mv, name="pod",
                                 **kw)

                def fit(s, o, tag="X"):
                    return s.call(o, "fit", s.arr(tag, s.dim("n"),
                                                  s.dim("k0")))
                fams.append(Fam(
                    "PODBasis(%s,weights=%s,max_vectors=%s)" % (cn, wl, mv),
                    "basis.PODBasis", build, fit,
                    basis_probes(n, r, podp), "plain", pod=True))
    for sv, kw in (("randomized", dict(random_state=0)),
                   ("randomized", dict(n_iter=3)),
                   ("method-of-snapshots", {}),
                   ("eigh", dict(minthresh=1e-12)),
                   ("dense", dict(lapack_driver="gesvd"))):
        for mv in (None, 4):
            for wl, wf in weights_forms():
                if wl not in ("none", "vector") or mv and wl != "none":
                    continue

                def build(s, wf=wf, mv=mv, sv=sv, kw=kw):
                    return s.new("basis.PODBasis", num_vectors=s.int("nv"),
                                 weights=wf(s), max_vectors=mv, svdsolver=sv,
                                 **kw)

                def fit(s, o, tag="X"):
                    return s.call(o, "fit", s.arr(tag, s.dim("n"),
                                                  s.dim("k0")))
                fams.append(Fam(
                    "PODBasis(%s %s,weights=%s,max_vectors=%s)" % (
                        sv, kw, wl, mv),
                    "basis.PODBasis", build, fit,
                    basis_probes(n, r, podp), "plain", pod=True,
                    dense=sv == "dense"))
    for rv in (True, False):
        def build(s, rv=rv):
            q = s.dim("q")
            return s.new("basis.PODBasis.from_svd",
                         s.arr("U", s.dim("n"), q), s.arr("sig", q),
                         *([s.arr("Vt", s.dim("k0"), q)] if rv else []),
                         num_vectors=s.int("nv"), name="pod")
        fams.append(Fam("PODBasis.from_svd(%s right vectors)" % (
            "with" if rv else "without"), "basis.PODBasis", build, None,
            basis_probes(n, r, podp), "plain", pod=True, ready=True))
    return fams


def basis_composites(ctx, many=False):
    fams = []

    def lin(s, i, ni):
        return s.new("basis.LinearBasis",
                     s.arr("V%d" % i, ni, s.dim("r%d" % i)),
                     check_orthogonality=False)

    def pod(s, i, ni):
        return s.new("basis.PODBasis", num_vectors=s.int("nv%d" % i))
    for combo, sizes in (((lin, lin), ("n0", "n1")),
                         ((lin, lin, lin), ("n0", "n0", "n0")),
                         ((pod, lin), ("n0", "n1")),
                         ((pod, pod), ("n0", "n0"))) + (
                             (((lin,) * 11, ("n0",) * 11),) if many else ()):
        def build(s, combo=combo, sizes=sizes):
            return s.new("basis.BasisMulti",
                         [c(s, i, s.dim(z)) for i, (c, z) in enumerate(
                             zip(combo, sizes))],
                         full_variable_sizes=tuple(s.dim(z) for z in sizes))

        def tot(s, sizes=sizes):
            t = const(0)
            for z in sizes:
                t = tm.add(t, s.dim(z))
            return t

        def fit(s, o, tag="X", tot=tot):
            return s.call(o, "fit", s.arr(tag, tot(s), s.dim("k0")))

        def load(s, path, combo=combo):
            return s.new("basis.BasisMulti.load", path, [
                s.cls("basis.LinearBasis" if c is lin else "basis.PODBasis")
                for c in combo])
        pr = [p for p in basis_probes(tot, None, (
            "variable_names", "full_variable_sizes",
            "reduced_variable_sizes", "num_variables"))
            if "locs" not in p[0] or len(set(sizes)) == 1]
        fams.append(Fam("BasisMulti(%s;%s)" % (
            "+".join("lin" if c is lin else "pod" for c in combo),
            ",".join(sizes)), "basis.BasisMulti", build, fit, pr, load,
            tot=tot, combo=combo, sizes=sizes,
            ready=all(c is lin for c in combo)))
    return fams


# ---------------------------------------------------------------- solvers
def data_of(s, tag=""):
    k, d, r = s.dims("k d r")
    return s.arr("D" + tag, k, d), s.arr("Z" + tag, r, k)


def solvers(ctx):
    fams = []

    def fit(s, o, tag=""):
        return s.call(o, "fit", *data_of(s, tag))

    def fit2(s, o, tag=""):
        k, d = s.dims("k d")
        return s.call(o, "fit", s.arr("D" + tag, k, d),
                      s.arr("Z" + tag, 2, k))

    def fit1(s, o, tag=""):
        k, d = s.dims("k d")
        return s.call(o, "fit", s.arr("D" + tag, k, d), s.arr("z" + tag, k))
    base = attrs("k", "d", "r", "data_matrix", "lhs_matrix") + [
        ("solve()", lambda s, o: s.call(o, "solve")),
        ("residual(O)", lambda s, o: s.call(o, "residual", s.arr(
            "O", s.tget(o, "r"), s.tget(o, "d")))),
        ("cond()", lambda s, o: s.call(o, "cond")),
        ("options", lambda s, o: options_of(s, o)),
    ]
    reg = base + attrs("regularizer") + [
        ("regcond()", lambda s, o: s.call(o, "regcond")),
        ("posterior()", lambda s, o: s.call(o, "posterior")),
        ("regresidual(O)", lambda s, o: s.call(o, "regresidual", s.arr(
            "O", s.tget(o, "r"), s.tget(o, "d")))),
    ]

    def again(newreg):
        def f(s, o):
            s.set(o, "regularizer", newreg(s))
            return s.call(o, "solve")
        return [("solve() after changing the regularizer", f)]

    def add(label, cls, mk, probes, fit=fit, **kw):
        fams.append(Fam(label, "lstsq." + cls, mk, fit, probes, "plain", **kw))
    for lab, kw in (("", {}), ("cond,gelsy", dict(
            cond=1, lapack_driver="gelsy")), ("gelss", dict(
                lapack_driver="gelss"))):
        def mk_(s, kw=kw):
            k = dict(kw)
            if "cond" in k:
                k["cond"] = s.flt("rcond")
            return s.new("lstsq.PlainSolver", **k)
        add("PlainSolver(%s)" % lab, "PlainSolver", mk_, base)
        add("PlainSolver(%s), 1-D left-hand side" % lab, "PlainSolver", mk_,
            base, fit1)
    for lab, kw in (("", {}), ("gesvd", dict(lapack_driver="gesvd"))):
        add("L2Solver(%s)" % lab, "L2Solver", lambda s, kw=kw: s.new(
            "lstsq.L2Solver", s.flt("lam"), **kw),
            reg + again(lambda s: s.flt("lam2")))
        add("L2DecoupledSolver(%s)" % lab, "L2DecoupledSolver",
            lambda s, kw=kw: s.new("lstsq.L2DecoupledSolver",
                                   s.arr("lams", 2), **kw),
            reg + again(lambda s: s.arr("lams2", 2)), fit2)
    add("L2Solver(None)", "L2Solver", lambda s: s.new("lstsq.L2Solver"),
        base + again(lambda s: s.flt("lam2")), noreg=True)
    forms = [("matrix", lambda s, i="": s.arr("G%s" % i, s.dim("d"),
                                              s.dim("d"))),
             ("vector", lambda s, i="": s.arr("g%s" % i, s.dim("d")))]
    for fl, ff in forms:
        for meth in ("lstsq", "normal"):
            for opt in ({}, dict(cond=1, lapack_driver="gelsy")):
                def mk_(s, ff=ff, meth=meth, opt=opt):
                    k = dict(opt)
                    if "cond" in k:
                        k["cond"] = s.flt("rcond")
                    return s.new("lstsq.TikhonovSolver", ff(s), method=meth,
                                 **k)

                def mkd(s, ff=ff, meth=meth, opt=opt):
                    k = dict(opt)
                    if "cond" in k:
                        k["cond"] = s.flt("rcond")
                    return s.new("lstsq.TikhonovDecoupledSolver",
                                 [ff(s, 0), ff(s, 1)], method=meth, **k)
                lab = "%s,%s%s" % (fl, meth, ",options" if opt else "")
                met = attrs("method")
                add("TikhonovSolver(%s)" % lab, "TikhonovSolver", mk_,
                    reg + met + again(lambda s: s.arr("G2", s.dim("d"),
                                                      s.dim("d"))))
                add("TikhonovDecoupledSolver(%s)" % lab,
                    "TikhonovDecoupledSolver", mkd,
                    reg + met + again(lambda s: [
                        s.arr("H0", s.dim("d"), s.dim("d")),
                        s.arr("H1", s.dim("d"), s.dim("d"))]), fit2)
    add("TikhonovSolver(None)", "TikhonovSolver",
        lambda s: s.new("lstsq.TikhonovSolver"), base + attrs("method"),
        noreg=True)
    for lab, kw in (("", {}), ("gesvd", dict(lapack_driver="gesvd"))):
        add("TotalLeastSquaresSolver(%s)" % lab, "TotalLeastSquaresSolver",
            lambda s, kw=kw: s.new("lstsq.TotalLeastSquaresSolver", **kw),
            base + attrs("augcond", "error"))
        for n in (3, -1, None):
            add("TruncatedSVDSolver(%s%s)" % (n, "," + lab if lab else ""),
                "TruncatedSVDSolver", lambda s, n=n, kw=kw: s.new(
                    "lstsq.TruncatedSVDSolver", n, **kw),
                base + attrs("num_svdmodes", "max_modes") + [
                    ("tcond()", lambda s, o: s.call(o, "tcond"))])
    return fams


def options_of(s, o):
    """the options as a plain dictionary"""
    v = s.get(o, "options")
    return s.new(Ext_dict(), v)


def Ext_dict():
    from ..values import Ext
    return Ext("builtins.dict")
