"""verify() accepts consistent components and rejects inconsistent ones.

The components are classes of a user, each with at most one flaw.  verify()
tests identities at random points: two terms count as close exactly if random
interpretation finds them equal.
"""
from .. import terms as tm, extern, rand
from ..terms import const, mk, sym, NONE, TRUE, FALSE
from ..values import PyFn, Arr, Tup
from . import common, ops, models
from .common import attempt
from .c11 import times

RE = "reported-errors-are-those-of-the-estimates"
RR, RA, RS = ("flaws-are-rejected", "consistent-objects-are-accepted",
              "verification-leaves-the-object-alone")

USER = '''
import numpy as np
import types
from opinf import pre, basis, lift, ddt, lstsq, operators


class Transformer(pre.TransformerTemplate):
    def __init__(self, n, flaw=""):
        pre.TransformerTemplate.__init__(self)
        self.state_dimension = n
        self.flaw = flaw

    def fit_transform(self, states, inplace=False):
        return self.transform(states, inplace)

    def transform(self, states, inplace=False):
        out = states if inplace else states.copy()
        out *= 2
        out += 3
        if self.flaw == "transform() drops a row":
            return out[:-1]
        if self.flaw == "transform() drops a column":
            return out[:, :-1]
        if self.flaw == "transform() out of place appends a column":
            if not inplace:
                return np.concatenate((out, out[:, :1]), axis=1)
        if self.flaw == "transform() is always in place" and not inplace:
            return states
        if self.flaw == "transform() is never in place" and inplace:
            return out.copy()
        return out

    def inverse_transform(self, states, inplace=False, locs=None):
        out = states if inplace else states.copy()
        out -= 3
        out /= 2
        if self.flaw == "inverse_transform() drops a column":
            return out[:, :-1]
        if self.flaw == "inverse_transform() drops a row":
            return out[:-1]
        if self.flaw == "inverse_transform() is always in place":
            return states
        if self.flaw == "inverse_transform() is never in place":
            return out.copy()
        if self.flaw == "inverse_transform() is not the inverse":
            if locs is None:
                out += 1
        if self.flaw == "inverse_transform() is wrong in one row":
            if locs is None:
                out[0] *= 2
        if self.flaw == "inverse_transform() is wrong in the last row":
            if locs is None:
                out[-1] *= 2
        if self.flaw == "inverse_transform() is wrong in the last column":
            if locs is None:
                out[:, -1] *= 2
        if self.flaw == "inverse_transform() is wrong at locations":
            if locs is not None:
                out += 1
        if self.flaw == "inverse_transform() is wrong at the last location":
            if locs is not None:
                out[-1] *= 2
        if self.flaw == "inverse_transform() is wrong at the first location":
            if locs is not None:
                out[0] *= 2
        if self.flaw == "inverse_transform() at locations drops a row":
            if locs is not None:
                return out[:-1]
        return out

    def transform_ddts(self, ddts, inplace=False):
        if self.flaw == "no derivatives":
            return NotImplemented
        out = ddts if inplace else ddts.copy()
        out *= 2
        if self.flaw == "transform_ddts() is wrong":
            out *= 2
        if self.flaw == "transform_ddts() shifts":
            out += 3
        if self.flaw == "transform_ddts() is always in place" and not inplace:
            return ddts
        if self.flaw == "transform_ddts() is never in place" and inplace:
            return out.copy()
        return out

    def save(self, savefile, overwrite=False):
        raise NotImplementedError

    @classmethod
    def load(cls, loadfile):
        raise NotImplementedError


class Basis(basis.BasisTemplate):
    def __init__(self, n, flaw=""):
        basis.BasisTemplate.__init__(self)
        self.full_state_dimension = n
        self.reduced_state_dimension = 1
        self.flaw = flaw

    def fit(self, states):
        return self

    def compress(self, states):
        out = states[:1] * 2
        if self.flaw == "compress() drops a column" and states.ndim == 2:
            return out[:, :-1]
        if self.flaw == "compress() of a vector is a matrix":
            if states.ndim == 1:
                return out.reshape((-1, 1))
        return out

    def decompress(self, states_compressed, locs=None):
        n = self.full_state_dimension
        if self.flaw == "decompress() drops a row" and locs is None:
            n = n - 1
        one = states_compressed[0] / 2
        if self.flaw == "not a projection":
            one = states_compressed[0]
        if self.flaw == "decompress() of a vector is a matrix":
            if states_compressed.ndim == 1:
                return np.ones((n, 1)) * one
        if states_compressed.ndim == 1:
            out = np.ones(n) * one
        else:
            out = np.ones((n, 1)) * one.reshape((1, -1))
        if self.flaw == "not quite a projection" and locs is None:
            out[0] *= 3
        if self.flaw == "not quite a projection at the end" and locs is None:
            out[-1] *= 3
        if self.flaw == "not a projection of the last state":
            if out.ndim == 2:
                out[:, -1] *= 3
        if locs is not None:
            out = out[locs]
            if self.flaw == "decompress() is wrong at the first location":
                out[0] *= 2
            if self.flaw == "decompress() is wrong at the last location":
                out[-1] *= 2
            if self.flaw == "decompress() is wrong at locations":
                out = out * 2
            if self.flaw == "decompress() at locations drops a row":
                out = out[:-1]
        return out

    def save(self, savefile, overwrite=False):
        raise NotImplementedError

    @classmethod
    def load(cls, loadfile):
        raise NotImplementedError


class Lifter(lift.LifterTemplate):
    def __init__(self, flaw=""):
        self.flaw = flaw

    def lift(self, states):
        if self.flaw == "lift() drops a column":
            return np.concatenate((states, states * 2))[:, :-1]
        return np.concatenate((states, states * 2))

    def unlift(self, lifted):
        n = lifted.shape[0] // 2
        if self.flaw == "unlift() drops a row":
            return lifted[: n - 1]
        if self.flaw == "unlift() drops a column":
            return lifted[:n, :-1]
        if self.flaw == "unlift() is not the inverse":
            return lifted[n:]
        out = lifted[:n].copy()
        if self.flaw == "unlift() is wrong in the last row":
            out[-1] *= 2
        if self.flaw == "unlift() is wrong in the last column":
            out[:, -1] *= 2
        return out

    def lift_ddts(self, states, ddts):
        if self.flaw == "no derivatives":
            return NotImplemented
        out = np.concatenate((ddts, ddts * 2))
        if self.flaw == "lift_ddts() drops a row":
            return out[:-1]
        if self.flaw == "lift_ddts() drops a column":
            return out[:, :-1]
        if self.flaw == "lift_ddts() is wrong":
            return np.concatenate((ddts, ddts))
        return out


class Estimator(ddt.DerivativeEstimatorTemplate):
    def __init__(self, t, flaw=""):
        ddt.DerivativeEstimatorTemplate.__init__(self, t)
        self.flaw = flaw

    def mask(self, arr):
        return arr[:, 1:]

    def estimate(self, states, inputs=None):
        f = self.flaw
        if f == "fails on other data" and states.shape[1] > 9:
            raise ValueError("too many snapshots")
        d = derivative(states, self.time_domain)
        q, u = states[:, 1:], inputs
        d = d[:, 1:]
        if u is not None:
            u = u[:, 1:]
        if f == "one output" and u is None:
            return q
        if f == "a list of outputs" and u is None:
            return [q, d]
        if f == "a list of outputs with inputs" and u is not None:
            return [q, d, u]
        if f == "three outputs without inputs" and u is None:
            return q, d, u
        if f == "two outputs with inputs" and u is not None:
            return q, d
        if f == "states lose a row" and u is None:
            q = q[:-1]
        if f == "derivatives lose a row" and u is None:
            d = d[:-1]
        if f == "derivatives lose a column" and u is None:
            d = d[:, :-1]
        if f == "states lose a column" and u is None:
            q = q[:, :-1]
        if u is not None:
            if f == "inputs are forgotten":
                return q, d, None
            if f == "inputs lose a row":
                u = u[:-1]
            if f == "inputs keep a column":
                u = inputs
            if f == "states lose a column with inputs":
                q = q[:, :-1]
            return q, d, u
        return q, d


class Exact(ddt.DerivativeEstimatorTemplate):
    """exact derivatives, scaled, at all but the first and last few times"""
    def __init__(self, t, first, last, scales):
        ddt.DerivativeEstimatorTemplate.__init__(self, t)
        self.first, self.last, self.scales = first, last, scales

    def mask(self, arr):
        return arr[:, self.first:arr.shape[1] - self.last]

    def estimate(self, states, inputs=None):
        t = self.time_domain
        d = np.array([np.ones_like(t), 4 * t**3 - t**2, np.cos(t),
                      np.exp(t), -1 / (t + 1) ** 2,
                      1 - 3 * t**2 - np.sin(t) - np.exp(t / 2) / 2])
        d = np.array([d[i] * self.scales[i] for i in range(6)])
        if states.shape[0] != 6:
            d = d[:1] * states
        s = slice(self.first, t.size - self.last)
        if inputs is None:
            return states[:, s], d[:, s]
        return states[:, s], d[:, s], inputs[:, s]


class Solver(lstsq.SolverTemplate):
    def __init__(self, flaw="", bonus=0):
        lstsq.SolverTemplate.__init__(self)
        self.flaw = flaw
        self.bonus = bonus

    def solve(self):
        out = solution(self.data_matrix, self.lhs_matrix)
        if self.bonus == -1:
            out[-1, -1] += 1
        else:
            out = out + self.bonus
        if self.flaw == "solve() drops a row":
            return out[:-1]
        if self.flaw == "solve() drops a column":
            return out[:, :-1]
        if self.flaw == "solve() is transposed":
            return out.T
        return out

    def again(self, cls, wrong, smaller):
        new = cls(self.flaw, wrong if wrong else self.bonus)
        D, Z = self.data_matrix, self.lhs_matrix
        if smaller == "rows":
            D, Z = D[:-1], Z[:, :-1]
        if smaller == "columns":
            D = D[:, :-1]
        if smaller == "r":
            Z = Z[:-1]
        lstsq.SolverTemplate.fit(new, D, Z)
        return new

    def copy(self):
        f = self.flaw
        if f == "copy() is of another type":
            return self.again(OtherSolver, 0, "")
        wrong = 0
        if f == "copy() solves another problem":
            wrong = 1
        if f == "copy() has another last entry":
            wrong = -1
        return self.again(Solver, wrong,
                          f[len("copy() loses "):]
                          if f.startswith("copy() loses ") else "")

    def save(self, savefile, overwrite=False):
        if self.flaw == "not saved":
            raise NotImplementedError
        STORE.append(self)

    @classmethod
    def load(cls, loadfile):
        self = STORE[-1]
        f = self.flaw
        wrong = 0
        if f == "load() solves another problem":
            wrong = 1
        if f == "load() has another last entry":
            wrong = -1
        return self.again(Solver, wrong,
                          f[len("load() loses "):]
                          if f.startswith("load() loses ") else "")


class OtherSolver(Solver):
    pass


STORE = []


class Operator(operators.OperatorTemplate):
    def __init__(self, r, flaw="", bonus=0):
        self.r = r
        self.flaw = flaw
        self.bonus = bonus

    @property
    def state_dimension(self):
        f = self.flaw
        if f == "state_dimension is not an integer":
            return self.r + 0.5
        if f == "state_dimension is zero":
            return 0
        return self.r

    def apply(self, state, input_=None):
        out = state * 2
        if self.bonus == -1:
            out[-1] += 1
        else:
            out = out + self.bonus
        if self.flaw == "apply() to a vector drops a row" and out.ndim == 1:
            return out[:-1]
        if self.flaw == "apply() to a matrix drops a row" and out.ndim == 2:
            return out[:-1]
        if self.flaw == "apply() to a matrix drops a column":
            if out.ndim == 2:
                return out[:, :-1]
        if self.flaw == "apply() to a vector is a list" and out.ndim == 1:
            return list(out)
        return out

    def jacobian(self, state, input_=None):
        if self.flaw == "no jacobian":
            raise NotImplementedError
        if self.flaw == "jacobian() is a number":
            return 2.0
        J = np.eye(self.r) * 2
        if self.flaw == "jacobian() drops a column":
            return J[:, :-1]
        if self.flaw == "jacobian() is wrong":
            return J * 2
        return J

    def galerkin(self, Vr, Wr=None):
        if self.flaw == "no projection":
            raise NotImplementedError
        if self.flaw == "galerkin() is not an operator":
            return 1
        rnew = Vr.shape[1]
        if self.flaw == "galerkin() has the wrong dimension":
            rnew = rnew + 1
        if self.flaw == "galerkin() is wrong":
            return Operator(rnew, "", 1)
        if self.flaw == "galerkin() is wrong in the last row":
            return Operator(rnew, "", -1)
        if self.flaw == "galerkin() is wrong with two bases":
            if Wr is not None:
                return Operator(rnew, "", 1)
        if self.flaw == "galerkin() is wrong with one basis":
            if Wr is None:
                return Operator(rnew, "", 1)
        return Operator(rnew)

    def copy(self):
        f = self.flaw
        if f == "copy() is the object":
            return self
        if f == "copy() is of another type":
            return OtherOperator(self.r)
        if f == "copy() has another dimension":
            return Operator(self.r + 1)
        if f == "copy() is another map":
            return Operator(self.r, f, 1)
        if f == "copy() is another map in the last row":
            return Operator(self.r, f, -1)
        return Operator(self.r, f, self.bonus)

    def save(self, savefile, overwrite=False):
        if self.flaw == "not saved":
            raise NotImplementedError
        STORE.append(self)

    @classmethod
    def load(cls, loadfile):
        self = STORE[-1]
        f = self.flaw
        if f == "load() gives another type":
            return OtherOperator(self.r)
        if f == "load() gives another dimension":
            return Operator(self.r + 1)
        if f == "load() gives another map":
            return Operator(self.r, f, 1)
        if f == "load() gives another map in the last row":
            return Operator(self.r, f, -1)
        return Operator(self.r, f, self.bonus)


class OtherOperator(Operator):
    pass


class LinearOperator(operators.LinearOperator):
    pass


class DimensionMethod(operators.LinearOperator):
    def operator_dimension(self, r, m):
        return r


class DimensionWrong(operators.LinearOperator):
    @staticmethod
    def operator_dimension(r, m):
        return r + 1


class DimensionFloat(operators.LinearOperator):
    @staticmethod
    def operator_dimension(r, m):
        return float(r)


class DimensionZero(operators.LinearOperator):
    @staticmethod
    def operator_dimension(r, m):
        return 0

    @staticmethod
    def datablock(states, inputs=None):
        return states[:0]


class BlockList(operators.LinearOperator):
    @staticmethod
    def datablock(states, inputs=None):
        return list(states)


class BlockMethod(operators.LinearOperator):
    def datablock(self, states, inputs=None):
        return states


class BlockWide(operators.LinearOperator):
    @staticmethod
    def datablock(states, inputs=None):
        return states[:, :-1]


class BlockFlat(operators.LinearOperator):
    @staticmethod
    def datablock(states, inputs=None):
        return states[0]


class Parametric(operators.ParametricOperatorTemplate):
    _OperatorClass = Operator

    def __init__(self, r, flaw=""):
        self.r = r
        self.flaw = flaw

    @property
    def state_dimension(self):
        if self.flaw == "state_dimension is not an integer":
            return None
        return self.r

    @property
    def parameter_dimension(self):
        return 2

    def evaluate(self, parameter):
        if self.flaw == "evaluate() gives another type":
            return operators.LinearOperator(np.eye(self.r))
        if self.flaw == "evaluate() has another dimension":
            return Operator(self.r + 1)
        return Operator(self.r)


class ParametricInput(Parametric, operators.InputMixin):
    @property
    def input_dimension(self):
        if self.flaw == "input_dimension is zero":
            return 0
        return 3

    def evaluate(self, parameter):
        if self.flaw == "evaluate() has another input dimension":
            return InputOperator(self.r, 4)
        return InputOperator(self.r, 3)


class InputOperator(Operator, operators.InputMixin):
    def __init__(self, r, m):
        Operator.__init__(self, r)
        self.m = m

    @property
    def input_dimension(self):
        return self.m


class FlawedInput(Operator, operators.InputMixin):
    def __init__(self, r, flaw="", m=3, bonus=0):
        Operator.__init__(self, r, flaw, bonus)
        self.m = m

    @property
    def input_dimension(self):
        if self.flaw == "input_dimension is zero":
            return 0
        if self.flaw == "input_dimension is not an integer":
            return self.m + 0.5
        return self.m

    def other(self, what):
        f = self.flaw
        m = self.m
        if f == what + " has another input dimension":
            m = m + 1
        return FlawedInput(self.r, "", m, self.bonus)

    def galerkin(self, Vr, Wr=None):
        new = self.other("galerkin()")
        new.r = Vr.shape[1]
        return new

    def copy(self):
        return self.other("copy()")

    @classmethod
    def load(cls, loadfile):
        return STORE[-1].other("load()")


class ParametricForgetful(Parametric):
    def evaluate(self, parameter):
        return InputOperator(self.r, 3)


ParametricInput._OperatorClass = Operator
ParametricForgetful._OperatorClass = Operator
'''

FD = ("transform_ddts() is wrong", "transform_ddts() shifts",
      "lift_ddts() is wrong", "jacobian() is wrong")


def flaws(cls):
    """the flaws the text of a class of the user mentions"""
    import ast
    tree = ast.parse(USER)
    c = next(x for x in tree.body if getattr(x, "name", "") == cls)
    out = []
    for x in ast.walk(c):
        if isinstance(x, ast.Compare):
            for y in x.comparators:
                if isinstance(y, ast.Constant) and isinstance(y.value, str) \
                        and " " in y.value:
                    out.append(y.value)
    return list(dict.fromkeys(out))


FINE = ("no derivatives", "no jacobian", "no projection", "not saved")


# ------------------------------------------------------------- environment
CLOSE = extern.EXT["np.allclose"]


def close(eng, st, args, kwargs):
    a, b = extern.arr_term(eng, st, args[0]), extern.arr_term(
        eng, st, args[1])
    if a is b:
        return TRUE
    if a.shape != b.shape:
        return CLOSE(eng, st, args, kwargs)
    v = rand.compare(a, b).verdict
    if v == "eq":
        return TRUE
    if v == "ne":
        return FALSE
    return mk("allclose", a, b, kind="bool", shape=())


def fresh(eng, st, args, kwargs):
    x = args[0] if args else kwargs.get("size", NONE)
    t = eng.term(st, x)
    if t is NONE:
        return sym(str(eng.uid("rnd")), "float", ())
    shape = tuple(t.args) if t.op == "tuple" else (t,)
    return eng.alloc(st, Arr(sym(str(eng.uid("rnd")), "arr", shape)))


def choice(eng, st, args, kwargs):
    n, m = eng.term(st, args[0]), eng.term(st, kwargs["size"])
    n, m = int(tm.cval(n)), int(tm.cval(m))
    return eng.alloc(st, Arr(tm.array(
        [const(i) for i in range(n - m, n)]), dtype="int"))


def derivative(eng, st, a, k):
    q, t = eng.term(st, a[0]), eng.term(st, a[1])
    return eng.alloc(st, Arr(mk("userddt", q, t, kind="arr", shape=q.shape)))


def solution(eng, st, a, k):
    d, z = eng.term(st, a[0]), eng.term(st, a[1])
    return eng.alloc(st, Arr(mk("usersolution", d, z, kind="arr", shape=(
        z.shape[0], d.shape[1]))))


def setup(eng):
    m = eng.load_text("userlib", USER)
    v = eng.base_state.get(m.env).vars
    v["derivative"] = PyFn("derivative", derivative)
    v["solution"] = PyFn("solution", solution)
    for n in ("random", "standard_normal"):
        extern.EXT["np.random." + n] = fresh
    extern.EXT["np.random.choice"] = choice
    extern.EXT["np.allclose"] = close
    return v


# -------------------------------------------------------------------- check
def judge(s, ctx, w, what, fn, bad, fd=False):
    out = fn(s)
    raises = {r.cname() for r in out.raises}
    if not bad:
        odd = [r for r in out.raises if r.cname() == "VerificationError"
               and not fdcheck(s, r)]
        if out.dead:
            ctx.bad(RA, w, "verify() of %s never returns: %s" % (
                what, ", ".join(sorted(raises))))
        elif odd and all(any(c.opaque for c, _ in r.st.pc) for r in odd):
            ctx.undec(RA, w, "verify() of %s may raise %s at %s:%s" % (
                what, odd[0].cname(), odd[0].site[0], odd[0].site[2]))
        elif odd:
            ctx.bad(RA, w, "verify() of %s raises %s at %s:%s" % (
                what, odd[0].cname(), odd[0].site[0], odd[0].site[2]))
        else:
            ctx.ok(RA, w)
    elif fd:
        if "VerificationError" in raises:
            ctx.ok(RR, w)
        else:
            ctx.bad(RR, w, "verify() accepts an object of which %s" % what)
    else:
        if not out.dead:
            ctx.bad(RR, w, "verify() accepts an object of which %s" % what)
        elif "VerificationError" not in raises:
            ctx.bad(RR, w, "verify() of an object of which %s raises %s" % (
                what, ", ".join(sorted(raises))))
        else:
            ctx.ok(RR, w)
    return out


def fdcheck(s, r):
    """raised by a comparison with the tolerance of finite differences"""
    o = r.st.get(r.exc)
    text = tm.show(s.eng.term(r.st, r.exc), 6)
    return "finite difference" in text


def components(ctx, v):
    n = 6
    t = lambda s: s.arr("t", 20)
    table = [
        ("Transformer", "pre.TransformerTemplate", (n,), ()),
        ("Basis", "basis.BasisTemplate", (n,), ()),
        ("Lifter", "lift.LifterTemplate", (), lambda s: [
            s.arr("Q", 3, 20), s.new("userlin")]),
        ("Operator", "operators.OperatorTemplate", (4,), ()),
        ("Operator", "operators.OperatorTemplate", (5,), ()),
        ("FlawedInput", "operators.OperatorTemplate", (4,), ()),
        ("Parametric", "operators.ParametricOperatorTemplate", (4,), ()),
    ]
    for cls, base, args, call in table:
        w = ctx.locate(base, "verify")
        more = [x + " has another input dimension" for x in (
            "copy()", "galerkin()", "load()")] if cls == "FlawedInput" else []
        for f in [""] + flaws(cls) + more:
            with ctx.case("%s%s: %s" % (cls, args, f or "no flaw"),
                          RR if f and f not in FINE else RA) as s:
                o = s.done(s.run(v[cls], *args, f), cls, w)
                a = []
                if cls == "Lifter":
                    a = [s.arr("Q", 3, 20), uniform(s, 20)]
                judge(s, ctx, w, f or "a consistent object",
                      lambda s: s.outcome(o, "verify", *a), f and f not in
                      FINE, f in FD)


def uniform(s, k):
    return s.arrt(times(s, const(k))[2])


def unchanged(s, ctx, w, o, what, *args):
    """the object is as before, also when verify() fails"""
    before = s.term(o)
    out = s.outcome(o, "verify", *args)
    for st in [x.st for x in out.raises] + ([] if out.dead else [out.st]):
        s.same(RS, w, s.eng.term(st, o), before, note=what)


def estimators(ctx, v):
    w = ctx.locate("ddt.DerivativeEstimatorTemplate", "verify_shapes")
    wv = ctx.locate("ddt.DerivativeEstimatorTemplate", "verify")
    with ctx.case("Estimator, failing on other data", RS) as s:
        o = s.done(s.run(v["Estimator"], s.arr("t", 9),
                         "fails on other data"), "", w)
        unchanged(s, ctx, wv, o, "verify() that fails")
    for f in [""] + [x for x in flaws("Estimator") if x[:5] != "fails"]:
        with ctx.case("Estimator: " + (f or "no flaw"),
                      RR if f else RA) as s:
            o = s.done(s.run(v["Estimator"], s.arr("t", 9), f), "", w)
            judge(s, ctx, w, f or "a consistent object", lambda s: s.outcome(
                o, "verify_shapes"), f)
            judge(s, ctx, wv, f or "a consistent object", lambda s: s.outcome(
                o, "verify"), f)


def reported(ctx, v):
    """the errors of an estimator whose estimates are known"""
    w = ctx.locate("ddt.DerivativeEstimatorTemplate", "verify")
    for first, last in ((0, 0), (1, 0), (0, 2), (3, 1)):
        with ctx.case("reported errors, %d first and %d last times dropped" % (
                first, last), RE) as s:
            o = s.done(s.run(v["Exact"], s.arr("t", 9), const(first), const(
                last), s.arrt(tm.array([const(x) for x in (1, 1, 3, 1, 1, 1)]))), "", w)
            e = s.call(o, "verify", FALSE, TRUE)
            e = s.term(e)
            for i, x in enumerate(y for y in e.args if y.op == "list"):
                for y in x.args[:1]:
                    s.same(RE, w, y, const(2 if i == 2 else 0),
                           note="test %d" % i)


def trained_solver(s, v, f):
    o = s.done(s.run(v["Solver"], f), "", ("", "", 0))
    s.call(o, "fit", s.arr("D", 7, 3), s.arr("Z", 2, 7))
    return o


def solvers(ctx, v):
    w = ctx.locate("lstsq.SolverTemplate", "verify")
    extra = ["copy() loses " + x for x in ("rows", "columns", "r")] + [
        "load() loses " + x for x in ("rows", "columns", "r")]
    for f in [""] + flaws("Solver") + extra:
        with ctx.case("Solver: " + (f or "no flaw"), RR if f and f not in
                      FINE else RA) as s:
            o = trained_solver(s, v, f)
            judge(s, ctx, w, f or "a consistent object", lambda s: s.outcome(
                o, "verify"), f and f not in FINE)
    with ctx.case("Solver: not trained", RA) as s:
        o = s.done(s.run(v["Solver"], ""), "", w)
        judge(s, ctx, w, "a solver without data", lambda s: s.outcome(
            o, "verify"), "")


OPERATORS = {"DimensionMethod": "operator_dimension() is no static method",
             "DimensionWrong": "operator_dimension() and datablock() differ",
             "BlockMethod": "datablock() is no static method",
             "BlockWide": "datablock() loses a column",
             "DimensionFloat": "operator_dimension() is no integer",
             "DimensionZero": "operator_dimension() is zero",
             "BlockList": "datablock() is a list",
             "BlockFlat": "datablock() is a vector"}


def operators(ctx, v):
    w = ctx.locate("operators.OpInfOperator", "verify")
    for cls, f in [("LinearOperator", "")] + list(OPERATORS.items()):
        for ent in (False, True):
            with ctx.case("%s, %s entries" % (f or "a consistent operator",
                                              "with" if ent else "without"),
                          RR if f else RA) as s:
                o = s.done(s.run(v[cls], *([s.arr("A", 4, 4)] if ent else [])
                                 ), "", w)
                judge(s, ctx, w, f or "a consistent operator",
                      lambda s: s.outcome(o, "verify"), f)
    w = ctx.locate("operators.ParametricOperatorTemplate", "verify")
    for cls, f in (("ParametricInput", ""),
                   ("ParametricInput", "input_dimension is zero"),
                   ("ParametricInput",
                    "evaluate() has another input dimension"),
                   ("ParametricForgetful", "evaluate() depends on inputs")):
        with ctx.case("%s: %s" % (cls, f or "no flaw"),
                      RR if f else RA) as s:
            o = s.done(s.run(v[cls], 4, f), "", w)
            judge(s, ctx, w, f or "a consistent operator",
                  lambda s: s.outcome(o, "verify"), f)


def parts(ctx, v):
    """a flawed part makes the composite inconsistent"""
    for name, cls in (("pre.TransformerMulti", "Transformer"),
                      ("basis.BasisMulti", "Basis")):
        w = ctx.locate(name, "verify")
        for f in [""] + flaws(cls):
            if f in FINE[1:]:
                continue
            for first in (False, True):
                with ctx.case("%s: %s variable, %s" % (
                        name, "first" if first else "second", f or
                        "no flaw"), RR if f and f not in FINE else RA) as s:
                    x = [s.done(s.run(v[cls], 6, y), "", w)
                         for y in ((f, "") if first else ("", f))]
                    o = s.new(name, x)
                    judge(s, ctx, w, f or "a consistent object",
                          lambda s: s.outcome(o, "verify"), f and f not in
                          FINE, f in FD)


SIZES = dict(n=6, n0=4, n1=4, n2=4, k=9, k0=9, d=4, r=2, r0=2, r1=2, r2=2,
             p=3, q=3)


def provided(ctx):
    """the classes of the package verify themselves"""
    fams = [(f, f.build) for f in common.transformers(ctx, False)
            + common.composites(ctx) + common.bases(ctx)
            if "LinearBasis" not in f.label and (
                "PODBasis" not in f.label or "randomized" not in f.label
                and ("=none" in f.label or "=vector" in f.label))]
    for f, build in fams:
        w = f.where(ctx, "verify")
        with ctx.case("verify() of " + f.label, RA) as s:
            s.sizes = SIZES
            o = build(s)
            if f.fit:
                f.fit(s, o)
            judge(s, ctx, w, "a trained " + f.label, lambda s: s.outcome(
                o, "verify"), "")
            unchanged(s, ctx, w, o, "verify()")
    for name in ("UniformFiniteDifferencer", "NonuniformFiniteDifferencer",
                 "InterpDerivativeEstimator"):
        w = ctx.locate("ddt." + name, "verify")
        for extra in (False, True) if name[0] == "I" else (False,):
            with ctx.case("verify() of %s%s" % (
                    name, ", new times" if extra else ""), RA) as s:
                t = s.arr("t", 9) if name[0] != "U" else uniform(s, 9)
                o = s.new("ddt." + name, t, *(
                    [] if name[0] != "I" else ["cubic"]), **(
                        {"new_time_domain": s.arr("t2", 5)} if extra else {}))
                judge(s, ctx, w, "a " + name, lambda s: s.outcome(
                    o, "verify_shapes"), "")
                unchanged(s, ctx, w, o, "verify()")
    for nm in ops.NAMES if hasattr(ops, "NAMES") else (
            "ConstantOperator", "LinearOperator", "QuadraticOperator",
            "CubicOperator", "InputOperator", "StateInputOperator"):
        w = ctx.locate("operators." + nm, "verify")
        with ctx.case("verify() of " + nm, RA) as s:
            o = ops.build(s, nm, 4, 3 if "Input" in nm else None, "E")
            judge(s, ctx, w, "a " + nm, lambda s: s.outcome(
                o, "verify"), "")
            unchanged(s, ctx, w, o, "verify()")
        for kind in ("Affine", "Interp"):
            cls = "operators.%s%s" % (kind, nm)
            w = ctx.locate(cls, "verify")
            with ctx.case("verify() of %s%s" % (kind, nm), RA) as s:
                o = ops.build_param(s, kind, nm, 4, 3 if "Input" in nm else
                                    None, "2-D" if kind == "Interp" else
                                    "int")
                judge(s, ctx, w, "a " + kind + nm, lambda s: s.outcome(
                    o, "verify"), "")
                unchanged(s, ctx, w, o, "verify()")
    for f in common.solvers(ctx):
        if "(None)" in f.label:
            continue
        w = f.where(ctx, "verify")
        with ctx.case("verify() of " + f.label, RA) as s:
            s.sizes = SIZES
            o = f.build(s)
            f.fit(s, o)
            judge(s, ctx, w, "a trained " + f.label, lambda s: s.outcome(
                o, "verify"), "")
            unchanged(s, ctx, w, o, "verify()")


def check(ctx):
    v = setup(ctx.eng)
    provided(ctx)
    components(ctx, v)
    estimators(ctx, v)
    reported(ctx, v)
    solvers(ctx, v)
    operators(ctx, v)
    parts(ctx, v)
