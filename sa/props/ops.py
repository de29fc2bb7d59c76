"""Families of abstract operators."""
from math import comb
from ..terms import const, sym, mk, NONE
from .. import terms as tm
from ..values import Arr
from .common import Fam, attrs

# class, order in the state, depends on input
NONPARAM = [("ConstantOperator", 0, False), ("LinearOperator", 1, False),
            ("QuadraticOperator", 2, False), ("CubicOperator", 3, False),
            ("QuarticOperator", 4, False), ("InputOperator", 0, True),
            ("StateInputOperator", 1, True)]
POLY = [("PolynomialOperator[%d]" % p, p, False) for p in range(7)]
PARAM = ["Constant", "Linear", "Quadratic", "Cubic", "Input", "StateInput"]


def width(cls, r, m):
    """number of columns of the operator's matrix"""
    if cls == "ConstantOperator":
        return 1
    if cls == "LinearOperator":
        return r
    if cls == "InputOperator":
        return m
    if cls == "StateInputOperator":
        return r * m
    p = order(cls)
    return comb(r + p - 1, p)


def order(cls):
    """degree in the state of a polynomial operator, else None"""
    if "[" in cls:
        return int(cls.split("[")[1][:-1])
    return {"QuadraticOperator": 2, "CubicOperator": 3,
            "QuarticOperator": 4}.get(cls)


def path(cls):
    return "operators." + cls.split("[")[0]


def sizes(cls, thorough=False, sym_too=True):
    """(r, m) with r, m concrete integers or names of symbolic dimensions"""
    inp = cls in ("InputOperator", "StateInputOperator")
    if order(cls) is not None:
        rs = [1, 2, 3]
        if thorough:
            rs += [4] if order(cls) >= 4 else [4, 5]
        return [(r, None) for r in rs]
    rs = [1, 2, 3] + (["r"] if sym_too else [])
    if not inp:
        return [(r, None) for r in rs]
    if cls == "InputOperator":
        return [(r, m) for r in rs for m in ([1, 2] + (
            ["m"] if sym_too else []))]
    return [(r, m) for r in ([1, 2, 3]) for m in (1, 2, 3)] + (
        [("r", 1), ("r", 2)] if sym_too else [])


def D(s, x):
    return s.dim(x) if isinstance(x, str) else const(x)


def entries(s, cls, r, m, tag="E"):
    if cls == "ConstantOperator":
        return s.arr(tag, D(s, r))
    if isinstance(r, int) and (m is None or isinstance(m, int)):
        return s.arr(tag, r, width(cls, r, m))
    if cls == "LinearOperator":
        return s.arr(tag, D(s, r), D(s, r))
    if cls == "InputOperator":
        return s.arr(tag, D(s, r), D(s, m))
    if cls == "StateInputOperator":
        return s.arr(tag, D(s, r), tm.mul(D(s, r), D(s, m)))
    raise AssertionError(cls)


def state(s, r, k=None, tag="pm:q"):
    """a state or states with components of either sign"""
    return s.arr(tag, D(s, r)) if k is None else s.arr(tag, D(s, r), D(s, k))


def input_(s, m, k=None, tag="pm:u"):
    if m is None:
        return NONE
    return s.arr(tag, D(s, m)) if k is None else s.arr(tag, D(s, m), D(s, k))


def lab(cls, r, m):
    return "%s(r=%s%s)" % (cls, r, "" if m is None else ",m=%s" % m)


def build(s, cls, r, m, tag="E"):
    a = [order(cls)] if "[" in cls else []
    return s.new(path(cls), *a, entries(s, cls, r, m, tag))


def blank(s, cls):
    """without entries"""
    return s.new(path(cls), *([order(cls)] if "[" in cls else []))


def matrix(s, cls, op):
    """the operator's matrix (r, width) whatever the stored form"""
    e = s.tget(op, "entries")
    if len(e.shape or ()) == 1:
        return tm.col(e)
    return e


def op_probes(cls, r, m):
    """questions two equal operators answer alike"""
    pr = [
        ("apply(state)", lambda s, o: s.call(
            o, "apply", state(s, r), input_(s, m))),
        ("apply(states)", lambda s, o: s.call(
            o, "apply", state(s, r, "k", "pm:Q"), input_(s, m, "k", "pm:U"))),
        ("jacobian(state)", lambda s, o: s.call(
            o, "jacobian", state(s, r), input_(s, m))),
    ]
    pr += attrs("state_dimension", "shape", "entries")
    if m is not None:
        pr += attrs("input_dimension")
    pr.append(("class", lambda s, o: const(cls_name(s, o))))
    return pr


def cls_name(s, o):
    c = s.clsof(o)
    return c.name if c is not None else "?"


# ------------------------------------------------------------- parametric
def build_param(s, kind, cls, r, m, how=None, tag="E", n=3, ent=True,
                **kw):
    """an affine or interpolated operator with n terms or parameters.
    how: affine 'int' | 'fn' | 'list'; interpolated '1-D' | '2-D' and a
    custom interpolator class (None for the default)"""
    E = [entries(s, cls, r, m, "%s%d" % (tag, i)) for i in range(n)]
    if kind == "Affine":
        how = how or "fn"
        if how == "int":
            return s.new("operators.Affine" + cls, n,
                         **(dict(entries=E) if ent else {}))
        if how == "fn":
            return s.new("operators.Affine" + cls, coeff_fn(s, n), nterms=n,
                         **(dict(entries=E) if ent else {}))
        return s.new("operators.Affine" + cls,
                     [scalar_fn("theta%d" % i) for i in range(n)],
                     **(dict(entries=E) if ent else {}))
    how = how or "1-D"
    mus = s.arr("mus", n) if how == "1-D" else s.arr("mus", n, 2)
    return s.new("operators.Interp" + cls, mus,
                 **(dict(entries=E) if ent else {}), **kw)


def scalar_fn(name):
    """parameter -> number"""
    from ..values import PyFn
    return PyFn(name, lambda eng, st, args, kwargs: mk(
        name, eng.term(st, args[0]), kind="float", shape=()))


def coeff_fn(s, n):
    """theta: parameter -> (n,) array"""
    from ..values import PyFn

    def f(eng, st, args, kwargs):
        mu = eng.term(st, args[0])
        return eng.alloc(st, Arr(mk("theta", mu, kind="arr",
                                    shape=(const(n),))))
    return PyFn("theta", f)


def parameters(s, kind, how=None):
    if kind == "Affine":
        return [s.arr("mu", 3)] if how == "int" else [
            s.flt("mu"), s.arr("muv", 1)]
    return [s.flt("mu")] if how in (None, "1-D") else [s.arr("mu", 2)]
