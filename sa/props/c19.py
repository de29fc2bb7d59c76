"""The regularization search keeps, and refits with, the best candidate.

The user's solver, integrator and regularizer factory are arbitrary functions
(uninterpreted); the reference is what the public operations give when each
candidate is used on its own.
"""
from .. import terms as tm
from ..terms import mk, const, sym, NONE
from ..values import PyFn, Arr, Ref, Ext
from .. import extern
from . import models, ops
from .c20 import lst, Parts, LIFTERS, TRANSFORMERS, BASES
from .c27 import user_interp

RG = "grid-search-picks-the-best"
RO = "optimization-follows-the-grid-search"
RF = "search-leaves-the-best-model"

USER = '''
import numpy as np
from opinf import models, lstsq


class Solver(lstsq.SolverTemplate):
    def __init__(self, regularizer=None):
        lstsq.SolverTemplate.__init__(self)
        self.regularizer = regularizer

    def solve(self):
        return solution(self.data_matrix, self.lhs_matrix, self.regularizer)

    def copy(self):
        return Solver(self.regularizer)


def matrix(model):
    """everything the operators of the model contain"""
    return np.column_stack([op.entries for op in model.operators])


class Discrete(models.DiscreteModel):
    def predict(self, state0, niters, inputs=None):
        return prediction(matrix(self), state0, niters, inputs)


class Continuous(models.ContinuousModel):
    def predict(self, state0, t, input_func=None, **options):
        return prediction(matrix(self), state0, t, input_func,
                          **options)


class InterpDiscrete(models.InterpDiscreteModel):
    def predict(self, parameter, state0, niters, inputs=None):
        return prediction(matrix(self.evaluate(parameter)), state0,
                          niters, inputs)


class InterpContinuous(models.InterpContinuousModel):
    def predict(self, parameter, state0, t, input_func=None, **options):
        return prediction(matrix(self.evaluate(parameter)), state0, t,
                          input_func, **options)


class ParametricDiscrete(models.ParametricDiscreteModel):
    def predict(self, parameter, state0, niters, inputs=None):
        return prediction(matrix(self.evaluate(parameter)), state0,
                          niters, inputs)


class ParametricContinuous(models.ParametricContinuousModel):
    def predict(self, parameter, state0, t, input_func=None, **options):
        return prediction(matrix(self.evaluate(parameter)), state0, t,
                          input_func, **options)


def search_error(c):
    return np.inf if bad(c) else error(c)
'''


def solution(eng, st, a, k):
    D, Z, reg = [extern.arr_term(eng, st, x) if isinstance(x, Ref) else
                 eng.term(st, x) for x in a]
    return eng.alloc(st, Arr(mk("usersolution", D, Z, reg, kind="arr", shape=(
        Z.shape[0], D.shape[1]))))


def prediction(eng, st, a, k):
    ts = [extern.arr_term(eng, st, x) if isinstance(x, Ref) and isinstance(
        st.get(x), Arr) else eng.term(st, x) for x in a]
    for n in sorted(k):
        ts += [const(n), eng.term(st, k[n])]
    q0, t = ts[1], ts[2]
    cols = t.shape[0] if t.shape else t
    return eng.alloc(st, Arr(mk("userprediction", *ts, kind="arr", shape=(
        q0.shape[0], cols))))


def bad(eng, st, a, k):
    return mk("userbad", eng.term(st, a[0]), kind="bool", shape=())


def error(eng, st, a, k):
    return mk("usererror", eng.term(st, a[0]), kind="float", shape=())


def made(c, rows=None):
    """what the regularizer factory of the user makes of a candidate"""
    if rows:
        return mk("userfactories", c, const(rows), kind="arr",
                  shape=(const(rows),))
    return mk("userfactory", c, kind="float", shape=())


def setup(eng):
    if "userlib" in eng.modules:
        return
    tm.FINITE.add("usererror")
    m = eng.load_text("userlib", USER)
    v = eng.base_state.get(m.env).vars
    for n, f in (("solution", solution), ("prediction", prediction),
                 ("bad", bad), ("error", error)):
        v[n] = PyFn(n, f)


def user(eng, name):
    return eng.base_state.get(eng.modules["userlib"].env).vars[name]


# ------------------------------------------------------------- gridsearch()
def cands(s, n, form):
    if form == "vector":
        return [s.term(s.arr("c%d" % i, 2)) for i in range(n)], [
            s.arr("c%d" % i, 2) for i in range(n)]
    c = [s.flt("c%d" % i) for i in range(n)]
    if form == "array":
        return c, s.arrt(tm.array(c))
    if form == "column":
        return c, [[x] for x in c]
    return c, c


def search(ctx, n, form, failing):
    eng = ctx.eng
    w = ctx.locate(eng.lookup("opinf.utils.gridsearch"))
    lab = "%d %s candidates%s" % (n, form, ", some unstable" if failing else "")
    fun = user(eng, "search_error" if failing else "error")

    def best(s, cs):
        """(the least error, the candidate that has it, any at all)"""
        out = None
        for c in cs:
            e = mk("usererror", c, kind="float", shape=())
            b = mk("userbad", c, kind="bool", shape=()) if failing else None
            if out is None:
                out = (e, c, b)
                continue
            e0, c0, b0 = out
            less = tm.lt(e, e0)
            if failing:
                less = tm.band(tm.bnot(b), tm.bor(b0, less))
                b0 = tm.band(b0, b)
            out = (tm.phi(less, e, e0), tm.phi(less, c, c0), b0)
        return out

    with ctx.case("gridsearch_only, " + lab, RG) as s:
        cs, arg = cands(s, n, form)
        o = s.run("utils.gridsearch", fun, arg, gridsearch_only=True)
        e, c, none = best(s, cs)
        if not failing:
            s.never_raises(RG, w, o.raises, "gridsearch()")
        else:
            for r in o.raises:
                if r.cname() != "RuntimeError":
                    ctx.bad(RG, w, "%s reaches the caller" % r.cname())
        if failing and not o.raises:
            ctx.bad(RG, w, "no error although no candidate is stable")
        v = s.done(o, "gridsearch", w)
        got = s.term(v)
        if failing:      # the answer matters where there is one
            got, c = tm.phi(none, const(0), got), tm.phi(none, const(0), c)
            if form == "vector":
                z = s.term(s.arr("zero", 2))
                got, c = tm.phi(none, z, s.term(v)), tm.phi(
                    none, z, best(s, cs)[1])
        s.same(RG, w, got, c, note="the candidate selected")
    return best


def optimizing(ctx, n, form, best_of):
    """The follow-up search starts from, and improves on, the grid winner."""
    eng = ctx.eng
    w = ctx.locate(eng.lookup("opinf.utils.gridsearch"))
    with ctx.case("%d %s candidates" % (n, form), RO) as s:
        cs, arg = cands(s, n, form)
        n0 = len(eng.events)
        o = s.run("utils.gridsearch", user(eng, "error"), arg)
        got = s.term(s.done(o, "gridsearch", w))
        evs = [e for e in eng.events[n0:] if e.kind == "optimize"]
        scalar = form != "vector"
        kind = "minimize_scalar" if scalar else "minimize"
        if not evs:
            ctx.bad(RO, w, "no optimization although it was asked for")
            return
        e, c, _ = best_of(s, cs)

        def p10(x):
            return tm.power(const(10), x)

        def start(kw, args):
            """where the follow-up search looks"""
            if not scalar:
                return kw.get("x0", args[1] if len(args) > 1 else None)
            return kw.get("bounds", args[1] if len(args) > 1 else None)
        if len(evs) > 1 or evs[0].name != kind or start(
                evs[0].kwargs, evs[0].args) is None:
            ctx.undec(RO, w, "another optimization than the documented one")
            return
        x, vt = evs[0].result
        at = start(evs[0].kwargs, evs[0].args)
        at = extern.arr_term(eng, s.st, at)
        if not scalar:
            s.same(RO, w, p10(at), c, note="the starting point")
        elif n == 1:
            s.same(RO, w, p10(at), tm.array([
                tm.div(c, const(100)), tm.mul(const(100), c)]),
                note="the search interval")
        else:
            srt = mk("np.sort", tm.array(cs), kind="arr", shape=(const(n),))
            z = [tm.getitem(srt, (("i", const(i)),)) for i in range(n)]
            errs = [mk("usererror", y, kind="float", shape=()) for y in z]
            lo = hi = b = None
            for i in range(n):
                l = tm.div(z[0], const(100)) if i == 0 else z[i - 1]
                h = tm.mul(z[-1], const(100)) if i == n - 1 else z[i + 1]
                if b is None:
                    lo, hi, b = l, h, errs[0]
                else:
                    less = tm.lt(errs[i], b)
                    lo, hi, b = [tm.phi(less, p, q) for p, q in (
                        (l, lo), (h, hi), (errs[i], b))]
            s.same(RO, w, p10(at), tm.array([lo, hi]),
                   note="the search interval")
        if scalar:
            want = mk("usererror", p10(x), kind="float", shape=())
            big = const(1e20)
            s.same(RO, w, tm.phi(tm.lt(want, big), vt, const(0)),
                   tm.phi(tm.lt(want, big), want, const(0)),
                   note="the function minimized")
        res = s.st.get(evs[0].extra) if evs[0].extra is not None else None
        if res is None:
            ctx.undec(RO, w, "no result of the optimization")
            return
        xo, fo, ok = [s.term(res.attrs[k]) for k in ("x", "fun", "success")]
        use = tm.band(ok, tm.bnot(tm.lt(e, fo)))
        fin = tm.lt(fo, const(1e20))
        s.same(RO, w, tm.phi(fin, got, c), tm.phi(tm.band(fin, use), p10(xo),
                                                  c), note="the answer")


# ---------------------------------------------------------- fit_regselect()
K = 4            # snapshots per trajectory
NP = 3           # training parameters


class Setting:
    """One way to use the search, and what each candidate gives alone."""

    def __init__(self, ctx, kind, base="", tf=0, bs=0, lf=0, inp=False,
                 ntraj=1, extra=False, cases=False, given=True,
                 with_factory=True, bayes=None, only=True, again=False,
                 trained=False):
        self.__dict__.update(locals())
        self.cont = kind == "Continuous"
        self.cls = "BayesianROM" if bayes else "ParametricROM" if base else \
            "ROM"
        self.rows = 2 if bayes == "L2DecoupledSolver" else 3 if again else \
            None
        self.meth = "fit_regselect_" + kind.lower()
        self.mix = ("Linear", "Input") if inp else ("Constant", "Linear")
        self.label = "%s(%s%s%s), %s%s%s%s%s%s%s%s%s" % (
            self.cls, base, kind, ", " + bayes if bayes else "",
            "%d trajectories" % ntraj if ntraj else "one array",
            ", " + LIFTERS[lf][0] if lf else "",
            ", " + TRANSFORMERS[tf][0] if tf else "",
            ", " + BASES[bs][0] if bs else "", ", inputs" if inp else "",
            ", longer test" if extra else "", ", test cases" if cases else
            "", "" if only else ", then optimization",
            ", trained components" if trained else "") + (
                ", after one of another dimension" if again else "")

    # ------------------------------------------------------------- building
    def parts(self, s):
        return Parts(s, LIFTERS[self.lf], TRANSFORMERS[self.tf],
                     BASES[self.bs])

    def solver(self, s, reg):
        if reg is None:
            reg = s.arr("reg0", self.rows) if self.rows else s.flt("reg0")
        elif self.rows:
            reg = s.arrt(reg)
        if self.bayes or self.again:
            return s.new("lstsq." + (self.bayes or "TikhonovSolver"), reg)
        return s.new(user(s.eng, "Solver"), reg)

    def model(self, s, reg=None):
        if self.base:
            return models.build_param(
                s, self.base + self.kind, self.mix, "free",
                solver=lambda s: self.solver(s, reg), interp=user_interp if
                self.base == "Interp" else None, klass=user(
                    s.eng, self.base + self.kind))
        return models.build_mono(
            s, self.kind, self.mix, "free", solver=lambda s: self.solver(
                s, reg), klass=user(s.eng, self.kind))

    def rom(self, s, p, m):
        return s.new("roms." + self.cls, m, **p.kw())

    def data(self, s, p):
        self.n = NP if self.base else (self.ntraj or 1)
        self.mus = [s.flt("mu%d" % i) for i in range(NP)]
        self.Q = [s.term(s.arr("Q%d" % i, p.n, K)) for i in range(self.n)]
        self.Z = [s.term(s.arr("Z%d" % i, p.n, K)) for i in range(self.n)]
        kin = K + 2 if self.extra else K
        self.U = [s.term(s.arr("U%d" % i, models.M_, kin))
                  for i in range(self.n)]
        if self.extra:
            # evenly spaced, as the longer test requires
            self.tlen = const(.3)
            self.t = [tm.array([tm.add(s.flt("t%d" % i), const(j / 8))
                                for j in range(K)]) for i in range(self.n)]
        else:
            self.t = [s.term(s.arr("t%d" % i, K)) for i in range(self.n)]
        self.u = [PyFn("u%d" % i, lambda e, st, a, k, i=i: e.alloc(st, Arr(
            mk("userinput", const(i), e.term(st, a[0]), kind="arr",
               shape=(const(models.M_),))))) for i in range(self.n)]

    def lists(self, s, ts):
        if self.base or self.ntraj:
            return [s.arrt(x) if isinstance(x, tm.T) else x for x in ts]
        return s.arrt(ts[0]) if isinstance(ts[0], tm.T) else ts[0]

    def tcase(self, s, p):
        """(what the user passes, initial condition)"""
        q0 = s.arr("ic", p.n)
        a = [s.arr("tt", 3)] if self.cont else [5]
        if self.base:
            a.append(s.flt("muc"))
        else:
            a.append(NONE)
        if self.inp:
            a.append(self.u[0] if self.cont else s.arr("Uc", models.M_, 5))
        else:
            a.append(NONE)
        return s.new("utils.%sRegTest" % self.kind, q0, *a,
                     bound=s.flt("wide:bound")), q0, a

    # ------------------------------------------------------------ reference
    def candidate(self, s, c, last):
        """(unstable, error, model, solver's regularizer) for a candidate"""
        reg = made(c, self.rows) if self.with_factory else c
        p = self.parts(s)
        m = self.model(s, reg)
        o = self.rom(s, p, m)
        if self.trained:
            p.fit(s.arr("X", p.n, s.dim("kx")))
        kw = dict(fit_transformer=False, fit_basis=False) if self.trained \
            else {}
        if self.cont:
            kw["lhs"] = self.lists(s, self.Z)
        if self.inp:
            kw["inputs"] = self.lists(s, [stacked(s, u, t) for u, t in zip(self.u, self.t)]
                if self.cont else self.U)
        a = [s.val([x for x in self.mus])] if self.base else []
        s.call(o, "fit", *a, self.lists(s, self.Q), **kw)
        qs = [s.term(s.call(o, "encode", s.arrt(q))) for q in self.Q]
        err, bad = const(0), tm.FALSE
        every = ("s", None, None, None)
        if self.cases:
            tc, q0, a = self.tcase(s, p)
            z0 = s.call(o, "encode", q0)
            pa = ([a[1]] if self.base else []) + [z0, a[0], a[2]]
            sol = self.predict(s, o, m, pa)
            bad = tm.bor(bad, tm.lt(s.flt("wide:bound"), (npf(s, "max", npf(s, 
                "abs", tm.sub(sol, tm.col(s.term(z0))))))))
        for i, q in enumerate(qs):
            if not self.cont:
                q = tm.getitem(q, (every, ("s", None, const(K - last), None)))
            k = q.shape[1]
            mean = tm.col((npf(s, "mean", q, axis=1)))
            dev = (npf(s, "max", npf(s, "abs", tm.sub(q, mean))))
            pa = [self.mus[i]] if self.base else []
            pa.append(s.arrt(tm.getitem(q, (every, ("i", const(0))))))
            if self.cont:
                t = self.t[i]
                if self.extra:
                    dt = (npf(s, "mean", npf(s, "diff", t)))
                    L = self.tlen
                    nt = s.term(s.done(s.run(Ext("builtins.int"), tm.div(
                        L, dt)), "int", "int"))
                    lin = (npf(s, "linspace", dt, tm.add(dt, L), nt))
                    t = tm.concat([t, tm.add(tm.getitem(t, (
                        ("i", const(-1)),)), lin)], 0)
                pa += [s.arrt(t), self.u[i] if self.inp else NONE]
            else:
                pa += [tm.add(k, const(2 if self.extra else 0)),
                       s.arrt(self.U[i]) if self.inp else NONE]
            sol = self.predict(s, o, m, pa)
            bad = tm.bor(bad, tm.lt(tm.mul(s.flt("wide:margin"), dev), (npf(s, 
                "max", npf(s, "abs", tm.sub(sol, mean))))))
            part = tm.getitem(sol, (every, ("s", None, k, None)))
            e = s.run("post.Lp_error", s.arrt(q), s.arrt(part), s.arrt(
                self.t[i])) if self.cont else s.run(
                    "post.frobenius_error", s.arrt(q), s.arrt(part))
            err = tm.add(err, s.term(lst(s, s.done(e, "error", "post"))[1]))
        return bad, tm.div(err, const(self.n)), o, m, reg

    def predict(self, s, o, m, pa):
        if self.bayes:
            s.call(o, "draw_operators")
        return s.tcall(m, "predict", *pa)


def npf(s, name, *a, **kw):
    """a NumPy function of terms, as a term"""
    a = [s.arrt(x) if isinstance(x, tm.T) and x.shape else x for x in a]
    return s.term(s.done(s.run(Ext("np." + name), *a, **kw), name, name))


def stacked(s, u, t):
    cols = [tm.col(s.term(s.done(s.run(u, tm.getitem(t, (("i", const(
        j)),))), "input", "input"))) for j in range(K)]
    return tm.concat(cols, 1)


def selecting(ctx, f):
    eng = ctx.eng
    w = ctx.locate(eng.lookup("opinf.roms." + f.cls), f.meth)
    with ctx.case(f.label, RF) as s:
        p = f.parts(s)
        f.data(s, p)
        cs = [s.flt("c0"), s.flt("c1")]
        m = f.model(s)
        o = f.rom(s, p, m)
        kw = {"gridsearch_only": f.only, "stability_margin": s.flt("wide:margin")}
        if f.with_factory:
            kw["regularizer_factory"] = PyFn(
                "factory", lambda e, st, a, k: e.wrap(st, made(e.term(
                    st, a[0]), f.rows)))
        if f.trained:
            p.fit(s.arr("X", p.n, s.dim("kx")))
            kw.update(fit_transformer=False, fit_basis=False)
        if f.bayes:
            kw["num_posterior_draws"] = 2
        if f.cont:
            kw["train_time_domains"] = [s.arrt(t) for t in f.t] if f.base or \
                f.ntraj else s.arrt(f.t[0])
            kw["ddts"] = f.lists(s, f.Z)
            if f.inp:
                kw["input_functions"] = f.lists(s, f.u)
            if f.extra:
                kw["test_time_length"] = f.tlen
        else:
            if f.inp:
                kw["inputs"] = f.lists(s, f.U)
            if f.extra:
                kw["num_test_iters"] = 2
        if f.cases:
            kw["test_cases"] = [f.tcase(s, p)[0]]
        if f.base:
            kw["parameters"] = f.mus
        if f.again:
            # the same object, used for data of one dimension less
            f.rows -= 1
            old = s.get(m, "solver")
            s.set(old, "regularizer", s.arr("reg1", f.rows))
            less = [tm.getitem(x, (("s", None, const(-1), None),))
                    for x in f.Q]
            kw1 = dict(kw)
            if f.cont:
                kw1["ddts"] = f.lists(s, [tm.getitem(x, (("s", None, const(
                    -1), None),)) for x in f.Z])
            first = s.outcome(o, f.meth, cs, states=f.lists(s, less), **kw1)
            s.done(first, f.meth, w)
            f.rows += 1
        n0 = len(eng.events)
        out = s.outcome(o, f.meth, cs, states=f.lists(s, f.Q), **kw)
        s.done(out, f.meth, w)
        evs = [e for e in eng.events[n0:] if e.kind == "optimize"]
        verdicts = []
        for last in (1, 0) if not f.cont else (0,):
            ref = [f.candidate(s, c, last) for c in cs]
            (b0, e0, o0, m0, r0), (b1, e1, o1, m1, r1) = ref
            pick = tm.band(tm.bnot(b1), tm.bor(b0, tm.lt(e1, e0)))
            none = tm.band(b0, b1)
            verdicts.append(list(answers(s, f, o, m, ref, pick, none)))
        # a discrete search may, or may not, measure the last snapshot
        if len(verdicts) == 2:
            from .. import rand
            good = all(g is x or rand.compare(g, x).verdict == "eq"
                       for _, g, x in verdicts[1])
            verdicts = verdicts[1:] if good else verdicts[:1]
        for note, g, x in verdicts[0]:
            s.same(RF, w, g, x, note=note)


def answers(s, f, o, m, ref, pick, none):
    """(what, found, required) where some candidate is stable"""
    (_, _, o0, m0, r0), (_, _, o1, m1, r1) = ref

    def case(g, a, b):
        zero = const(0) if not g.shape else (npf(s, "zeros", list(
            g.shape)))
        return tm.phi(none, zero, g), tm.phi(none, zero, tm.phi(pick, b, a))
    if f.again:
        r0, r1 = [s.tget(s.get(x, "solver"), "regularizer")
                  for x in (m0, m1)]
    if f.base != "Interp":
        yield ("the solver's regularizer", *case(s.tget(s.get(
            m, "solver"), "regularizer"), r0, r1))
    if f.bayes:
        posts = [s.get(x, "posterior") for x in (o, o0, o1)]
        for what in ("means", "covs"):
            rows = [lst(s, s.get(x, what)) for x in posts]
            for i, (g, a, b) in enumerate(zip(*rows)):
                yield ("posterior %s of row %d" % (what, i), *case(
                    s.term(g), s.term(a), s.term(b)))
        return
    every = [lst(s, s.get(x, "operators")) for x in (m, m0, m1)]
    for i, (g, a, b) in enumerate(zip(*every)):
        g, a, b = [s.tget(x, "entries") for x in (g, a, b)]
        yield ("entries of operator %d" % i, *case(g, a, b))


def settings(ctx):
    for kind in ("Continuous", "Discrete"):
        for ntraj in (0, 2):
            yield Setting(ctx, kind, ntraj=ntraj)
            yield Setting(ctx, kind, inp=True, ntraj=ntraj)
        yield Setting(ctx, kind, ntraj=1, inp=True, with_factory=False)
        yield Setting(ctx, kind, inp=True, extra=True)
        yield Setting(ctx, kind, inp=True, cases=True)
        yield Setting(ctx, kind, tf=2, bs=1, cases=True, ntraj=2)
        yield Setting(ctx, kind, tf=2, bs=2, ntraj=2)
        yield Setting(ctx, kind, tf=2, bs=2, trained=True)
        yield Setting(ctx, kind, lf=1, bs=1, inp=True)
        yield Setting(ctx, kind, again=True)
        for base in ("Interp", "Parametric"):
            yield Setting(ctx, kind, base)
            yield Setting(ctx, kind, base, inp=True, extra=True)
            yield Setting(ctx, kind, base, inp=True, cases=True, bs=1)
        for solver in ("L2Solver", "L2DecoupledSolver"):
            yield Setting(ctx, kind, bayes=solver)
        yield Setting(ctx, kind, bayes="L2Solver", inp=True, cases=True,
                      ntraj=2)
        yield Setting(ctx, kind, bayes="L2Solver", inp=True, extra=True,
                      bs=1)


def check(ctx):
    setup(ctx.eng)
    for form in ("list", "array", "column", "vector"):
        for n in (1, 2, 3) + ((4,) if ctx.thorough or form == "list" else ()):
            for failing in (False, True):
                if n == 4 and not ctx.thorough and failing:
                    continue
                best = search(ctx, n, form, failing)
                if not failing:
                    optimizing(ctx, n, form, best)
    for f in settings(ctx):
        selecting(ctx, f)
