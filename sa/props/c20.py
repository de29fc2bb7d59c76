"""Reduced-order models encode and decode in matching order."""
from . import ops, models
from .c12 import lst
from .common import tm, const, NONE
from .c11 import np_arange_t
from .c21 import inputs_at

R_ = 2

LIFTERS = [("-", 1, None), ("Quadratic", 2, lambda s: s.new(
    "lift.QuadraticLifter")), ("Polynomial(2,1)", 2, lambda s: s.new(
        "lift.PolynomialLifter", (2, 1)))]

TRANSFORMERS = [
    ("-", None),
    ("Shift", lambda s, n: s.new("pre.ShiftTransformer", s.arr("ref", n))),
    ("Scale", lambda s, n: s.new("pre.ScaleTransformer", s.flt("scale"))),
    ("ShiftScale", lambda s, n: s.new("pre.ShiftScaleTransformer",
                                      centering=True, scaling="standard")),
    ("Pipeline", lambda s, n: s.new("pre.TransformerPipeline", [
        s.new("pre.ShiftTransformer", s.arr("ref", n)),
        s.new("pre.ShiftScaleTransformer", scaling="maxabs")])),
    ("Multi", lambda s, n: s.new("pre.TransformerMulti", [
        s.new("pre.ShiftScaleTransformer", centering=True),
        s.new("pre.ScaleTransformer", s.flt("scale"))])),
]

BASES = [("-", None),
         ("Linear", lambda s, n: s.new("basis.LinearBasis",
                                       s.arr("V", n, R_))),
         ("POD", lambda s, n: s.new("basis.PODBasis", num_vectors=R_)),
         ("Multi", lambda s, n: s.new("basis.BasisMulti", [
             s.new("basis.PODBasis", num_vectors=1),
             s.new("basis.PODBasis", num_vectors=1)]))]


class Parts:
    """One choice of components, built afresh on demand."""

    def __init__(self, s, lf, tf, bs):
        self.s = s
        nv = lf[1]
        even = "Multi" in (tf[0], bs[0])
        if bs[1] is None:
            self.n = const(R_ // nv)
        else:
            self.n = tm.mul(const(2), s.dim("h")) if even and nv == 1 else \
                s.dim("n")
        self.N = tm.mul(const(nv), self.n)
        self.lifter = lf[2] and lf[2](s)
        self.transformer = tf[1] and tf[1](s, self.N)
        self.basis = bs[1] and bs[1](s, self.N)

    def kw(self):
        out = {}
        for n in ("lifter", "transformer", "basis"):
            o = getattr(self, n)
            if o is not None:
                out[n] = o
        return out

    # the documented chain, one component at a time
    def lift(self, q):
        return q if self.lifter is None else self.s.call(
            self.lifter, "lift", q)

    def fit(self, q, transformer=True, basis=True):
        """Train the components on unlifted states."""
        s = self.s
        q = self.lift(q)
        if self.transformer is not None and transformer:
            s.call(self.transformer, "fit", q)
        if self.transformer is not None:
            q = s.call(self.transformer, "transform", q)
        if self.basis is not None and basis:
            s.call(self.basis, "fit", q)

    def encode(self, q, rest=True):
        s, q = self.s, self.lift(q)
        if self.transformer is not None:
            q = s.call(self.transformer, "transform", q)
        if self.basis is not None:
            q = s.call(self.basis, "compress", q)
        return q

    def encode_ddts(self, q, z):
        s = self.s
        if self.lifter is not None:
            z = s.call(self.lifter, "lift_ddts", q, z)
        if self.transformer is not None:
            z = s.call(self.transformer, "transform_ddts", z)
        if self.basis is not None:
            z = s.call(self.basis, "compress", z)
        return z

    def decode(self, z, locs=None):
        s = self.s
        kw = {} if locs is None else {"locs": locs}
        if self.basis is not None:
            z = s.call(self.basis, "decompress", z, **kw)
        if self.transformer is not None:
            z = s.call(self.transformer, "inverse_transform", z, **kw)
        if self.lifter is not None:
            z = s.call(self.lifter, "unlift", z)
        return z


def combos(ctx):
    for i, lf in enumerate(LIFTERS):
        for j, tf in enumerate(TRANSFORMERS):
            for k, bs in enumerate(BASES):
                if i and not ctx.thorough and (i + j + k) % 2:
                    continue
                yield lf, tf, bs


def model(s, kind, inp, tag="E", given=False):
    mix = ("Linear", "Input") if inp else ("Constant", "Linear")
    return models.build_mono(s, kind, mix, "given" if given else "free", tag)


def lab(lf, tf, bs):
    return "lifter %s, transformer %s, basis %s" % (lf[0], tf[0], bs[0])


def rom(s, p, m, cls="ROM", **kw):
    return s.new("roms." + cls, m, **p.kw(), **kw)


def coding(ctx, lf, tf, bs, kind):
    R = "encode-then-decode-in-matching-order"
    L = "%s, %s" % (lab(lf, tf, bs), kind)
    c = ctx.eng.lookup("opinf.roms.ROM")
    we, wd = ctx.locate(c, "encode"), ctx.locate(c, "decode")
    for train in (False, True):
        if train and tf[1] is None and bs[1] is None:
            continue
        for given in (False, True):
            with ctx.case("%s%s%s" % (
                    L, ", left-hand sides" if given else "",
                    ", training" if train else ""), R) as s:
                p, ref = Parts(s, lf, tf, bs), Parts(s, lf, tf, bs)
                k = s.dim("k")
                X = s.term(s.arr("X", p.n, s.dim("kx")))
                Q = s.term(s.arr("Q", p.n, k))
                Z = s.term(s.arr("Z", p.n, k))
                o = rom(s, p, model(s, kind, False, given=True))
                kw = {}
                if train:
                    kw = dict(fit_transformer=True, fit_basis=True)
                    ref.fit(s.arrt(Q))
                else:
                    for x in (p, ref):
                        x.fit(s.arrt(X))
                z = s.term(ref.encode(s.arrt(Q)))
                zz = None
                if given:
                    zz = s.term(ref.encode_ddts(s.arrt(Q), s.arrt(Z)) if
                                kind == "Continuous" else
                                ref.encode(s.arrt(Z)))
                for inplace in (False, True):
                    a = [s.arrt(Q)] + ([s.arrt(Z)] if given else [])
                    v = s.call(o, "encode", *a, **dict(
                        kw, **({"inplace": True} if inplace else {})))
                    note = ", in place" if inplace else ""
                    if given:
                        s.same(R, we, s.term(s.item(v, 0)), z,
                               note="encoded states" + note)
                        s.same(R, we, s.term(s.item(v, 1)), zz,
                               note="encoded left-hand sides" + note)
                    else:
                        s.same(R, we, s.term(v), z, note="encoded states"
                               + note)
                # with the components as they are now
                Y = s.term(s.arr("Y", R_, k))
                y = s.term(ref.decode(s.arrt(Y)))
                s.same(R, wd, s.tcall(o, "decode", s.arrt(Y)), y,
                       note="decoded states")
                s.same(R, ctx.locate(c, "project"), s.tcall(
                    o, "project", s.arrt(Q)), s.term(ref.decode(s.arrt(
                        s.term(ref.encode(s.arrt(Q)))))), note="projection")
                if bs[0] != "Multi" and tf[0] != "Multi" and \
                        lf[1] == 1 and bs[1] is not None:
                    locs = s.arrt(tm.sym("locs", "arr", (const(3),)))
                    s.same(R, wd, s.tcall(o, "decode", s.arrt(Y), locs),
                           s.term(ref.decode(s.arrt(Y), locs)),
                           note="decoded at some locations")


def predicting(ctx, lf, tf, bs, kind, inp):
    R = "predict-encodes-and-decodes"
    c = ctx.eng.lookup("opinf.roms.ROM")
    w = ctx.locate(c, "predict")
    with ctx.case("%s, %s%s" % (lab(lf, tf, bs), kind,
                                ", inputs" if inp else ""), R) as s:
        p, ref = Parts(s, lf, tf, bs), Parts(s, lf, tf, bs)
        for x in (p, ref):
            x.fit(s.arr("X", p.n, s.dim("kx")))
        m = model(s, kind, inp, given=True)
        o = rom(s, p, m)
        q0 = s.arr("q0", p.n)
        z0 = ref.encode(s.arrt(s.term(q0)))
        if kind == "Discrete":
            a = [3] + ([s.arr("U", models.M_, 3)] if inp else [])
        else:
            a = [s.arr("t", tm.add(s.dim("nt"), const(2)))]
            if inp:
                a.append(inputs_at(s, s.term(s.arr("u", models.M_))))
        n0 = len(ctx.eng.events)
        got = s.tcall(o, "predict", q0, *a)
        if kind == "Continuous":
            ev = [e for e in ctx.eng.events[n0:] if e.kind == "solve_ivp"]
            if len(ev) != 1:
                ctx.undec(R, w, "%d integrations" % len(ev))
                return
            s.same(R, w, s.term(ev[0].kwargs["y0"]), s.term(z0),
                   note="initial state")
            s.same(R, w, got, s.term(ref.decode(s.get(ev[0].result, "y"))),
                   note="decoded solution")
        else:
            y = s.call(m, "predict", z0, *a)
            s.same(R, w, got, s.term(ref.decode(y)), note="prediction")


def fitting(ctx, lf, tf, bs, kind, inp, how, ntraj, trained):
    R = "training-encodes-every-trajectory"
    c = ctx.eng.lookup("opinf.roms.ROM")
    w = ctx.locate(c, "fit")
    what = "%s trajectories" % ntraj if ntraj else "one array"
    with ctx.case("%s, %s%s, %s, %s%s" % (
            lab(lf, tf, bs), kind, ", inputs" if inp else "", how, what,
            ", components already trained" if trained else ""), R) as s:
        p, ref = Parts(s, lf, tf, bs), Parts(s, lf, tf, bs)
        n = ntraj or 1
        k = [tm.add(s.dim("k%d" % i), const(8)) for i in range(n)]
        if how == "estimated":
            k = [k[0]] * n
        Q = [s.term(s.arr("Q%d" % i, p.n, k[i])) for i in range(n)]
        Z = [s.term(s.arr("Z%d" % i, p.n, k[i])) for i in range(n)]
        U = [s.term(s.arr("U%d" % i, models.M_, k[i])) for i in range(n)]
        kw, skw = {}, {}
        if how == "estimated":
            t = tm.add(s.flt("t0"), tm.mul(s.flt("dt"), np_arange_t(
                const(0), k[0], const(1))))
            E = s.new("ddt.UniformFiniteDifferencer", s.arrt(t), "fwd2")
            kw["ddt_estimator"] = E
        m, mref = model(s, kind, inp), model(s, kind, inp)
        o = rom(s, p, m, **kw)
        fa = {}
        if trained:
            fa = dict(fit_transformer=False, fit_basis=False)
            for x in (p, ref):
                x.fit(s.arr("X", p.n, s.dim("kx")))
        if how == "given":
            fa["lhs"] = [s.arrt(z) for z in Z] if ntraj else s.arrt(Z[0])
        if inp:
            fa["inputs"] = [s.arrt(u) for u in U] if ntraj else s.arrt(U[0])
        s.call(o, "fit", [s.arrt(q) for q in Q] if ntraj else s.arrt(Q[0]),
               **fa)
        # the same by hand
        if not trained:
            ref.fit(s.arrt(tm.concat(Q, 1) if n > 1 else Q[0]))
        qs, zs, us = [], [], []
        every = ("s", None, None, None)
        for q, z, u in zip(Q, Z, U):
            e = s.term(ref.encode(s.arrt(q)))
            if how == "given":
                f = s.term(ref.encode_ddts(s.arrt(q), s.arrt(z)) if
                           kind == "Continuous" else ref.encode(s.arrt(z)))
            elif how == "estimated":
                v = s.call(E, "estimate", s.arrt(e), s.arrt(u))
                e, f, u = [s.term(x) for x in lst(s, v)]
            else:
                f = tm.getitem(e, (every, ("s", const(1), None, None)))
                e, u = [tm.getitem(x, (every, ("s", None, const(-1), None)))
                        for x in (e, u)]
            qs.append(e), zs.append(f), us.append(u)
        if inp:
            skw["inputs"] = s.arrt(tm.concat(us, 1))
        s.call(mref, "fit", s.arrt(tm.concat(qs, 1)),
               s.arrt(tm.concat(zs, 1)), **skw)
        for i, (x, y) in enumerate(zip(*[lst(s, s.get(
                mm, "operators")) for mm in (m, mref)])):
            s.same(R, w, s.tget(x, "entries"), s.tget(y, "entries"),
                   note="entries of operator %d" % i)
        # and the components are trained as they would be alone
        Y = s.arr("Y", R_, s.dim("k"))
        s.same(R, w, s.tcall(o, "decode", Y), s.term(ref.decode(s.arrt(
            s.term(Y)))), note="decoding afterwards")


def parametric(ctx, lf, tf, bs, base, kind, how):
    c = ctx.eng.lookup("opinf.roms.ParametricROM")
    L = "%s, %s%s, %s" % (lab(lf, tf, bs), base, kind, how)
    name = "%s%sModel" % (base, kind)
    mix = ("Linear", "Input")
    n = models.N_
    with ctx.case(L, "training-encodes-every-trajectory") as s:
        R, w = "training-encodes-every-trajectory", ctx.locate(c, "fit")
        p, ref = Parts(s, lf, tf, bs), Parts(s, lf, tf, bs)
        k = [tm.add(s.dim("k%d" % i), const(8)) for i in range(n)]
        if how == "estimated":
            k = [k[0]] * n
        Q = [s.term(s.arr("Q%d" % i, p.n, k[i])) for i in range(n)]
        Z = [s.term(s.arr("Z%d" % i, p.n, k[i])) for i in range(n)]
        U = [s.term(s.arr("U%d" % i, models.M_, k[i])) for i in range(n)]
        kw = {}
        if how == "estimated":
            t = tm.add(s.flt("t0"), tm.mul(s.flt("dt"), np_arange_t(
                const(0), k[0], const(1))))
            E = s.new("ddt.UniformFiniteDifferencer", s.arrt(t), "bwd1")
            kw["ddt_estimator"] = E
        m, mref = [models.build_param(s, name, mix, "free")
                   for _ in range(2)]
        o = rom(s, p, m, "ParametricROM", **kw)
        mus = s.arr("mus", n)
        fa = {"inputs": [s.arrt(u) for u in U]}
        if how == "given":
            fa["lhs"] = [s.arrt(z) for z in Z]
        s.call(o, "fit", mus, [s.arrt(q) for q in Q], **fa)
        ref.fit(s.arrt(tm.concat(Q, 1)))
        qs, zs, us = [], [], []
        every = ("s", None, None, None)
        for q, z, u in zip(Q, Z, U):
            e = s.term(ref.encode(s.arrt(q)))
            if how == "given":
                f = s.term(ref.encode_ddts(s.arrt(q), s.arrt(z)) if
                           kind == "Continuous" else ref.encode(s.arrt(z)))
            elif how == "estimated":
                v = s.call(E, "estimate", s.arrt(e), s.arrt(u))
                e, f, u = [s.term(x) for x in lst(s, v)]
            else:
                f = tm.getitem(e, (every, ("s", const(1), None, None)))
                e, u = [tm.getitem(x, (every, ("s", None, const(-1), None)))
                        for x in (e, u)]
            qs.append(s.arrt(e)), zs.append(s.arrt(f)), us.append(s.arrt(u))
        s.call(mref, "fit", mus, qs, zs, inputs=us)
        for i, (x, y) in enumerate(zip(*[lst(s, s.get(
                mm, "operators")) for mm in (m, mref)])):
            s.same(R, w, s.tget(x, "entries"), s.tget(y, "entries"),
                   note="entries of operator %d" % i)
        R, w = "predict-encodes-and-decodes", ctx.locate(c, "predict")
        mu = s.flt("mu")
        q0 = s.arr("q0", p.n)
        z0 = ref.encode(s.arrt(s.term(q0)))
        if kind == "Discrete":
            a = [3, s.arr("V", models.M_, 3)]
        else:
            a = [s.arr("t", tm.add(s.dim("nt"), const(2))), inputs_at(
                s, s.term(s.arr("u", models.M_)))]
        n0 = len(ctx.eng.events)
        got = s.tcall(o, "predict", mu, q0, *a)
        if kind == "Discrete":
            s.same(R, w, got, s.term(ref.decode(s.call(
                mref, "predict", mu, z0, *a))), note="prediction")
            return
        ev = [e for e in ctx.eng.events[n0:] if e.kind == "solve_ivp"]
        if len(ev) != 1:
            ctx.undec(R, w, "%d integrations" % len(ev))
            return
        s.same(R, w, s.term(ev[0].kwargs["y0"]), s.term(z0),
               note="initial state")
        x, tau = s.arr("x", R_), s.flt("tau")
        ex = lst(s, ev[0].kwargs["args"]) if "args" in ev[0].kwargs else []
        s.same(R, w, s.term(s.done(s.run(
            ev[0].kwargs["fun"], tau, x, *ex), "the integrated function", w)),
            s.tcall(mref, "rhs", tau, mu, x, a[1]), note="integrated "
            "function")
        s.same(R, w, got, s.term(ref.decode(s.get(ev[0].result, "y"))),
               note="decoded solution")


def check(ctx):
    every = 0
    for lf, tf, bs in combos(ctx):
        for base in ("Parametric", "Interp"):
            for kind in ("Continuous", "Discrete"):
                for how in ("given", "estimated" if kind == "Continuous" else
                            "paired"):
                    every += 1
                    if ctx.thorough or every % 3 == 0:
                        parametric(ctx, lf, tf, bs, base, kind, how)
    for lf, tf, bs in combos(ctx):
        for kind in ("Continuous", "Discrete"):
            coding(ctx, lf, tf, bs, kind)
            for inp in (False, True):
                if inp and not ctx.thorough and tf[0] not in (
                        "ShiftScale",):
                    continue
                predicting(ctx, lf, tf, bs, kind, inp)
            for how in ("given", "estimated" if kind == "Continuous" else
                        "paired"):
                for ntraj in (0, 2) + ((1, 3) if ctx.thorough else ()):
                    for trained in (False, True):
                        if trained and tf[1] is None and bs[1] is None:
                            continue
                        if trained and ntraj and not ctx.thorough:
                            continue
                        fitting(ctx, lf, tf, bs, kind, True, how, ntraj,
                                trained)
