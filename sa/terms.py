"""Hash-consed terms with normalising constructors (the abstract value domain).

A term denotes the *content* of a run-time value (number, array, string, ...)
as an expression over the symbols that a query introduces.  Two values that the
domain proves equal are the same Python object.  Nothing here evaluates code of
the repository: the constructors only rewrite expressions.
"""

from fractions import Fraction

_TABLE = {}
_UID = [0]


class T:
    __slots__ = ("op", "args", "shape", "kind", "deps", "uid", "opaque",
                 "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid

    def __bool__(self):
        raise TypeError("term used as bool: %s" % show(self))


EMPTY = frozenset()


def _mk(op, args, shape=None, kind=None, deps=None, opaque=None):
    key = (op, args) if op != "sym" else (op, args, kind, shape)
    t = _TABLE.get(key)
    if t is not None:
        if t.shape is None and shape is not None:
            t.shape = shape
        if t.kind is None and kind is not None:
            t.kind = kind
        return t
    t = T()
    t.op = op
    t.args = args
    t.shape = shape
    t.kind = kind
    _UID[0] += 1
    t.uid = _UID[0]
    if deps is None or opaque is None:
        d, o = set(), False
        stack = list(args)
        while stack:
            a = stack.pop()
            if isinstance(a, T):
                d |= a.deps
                o = o or a.opaque
            elif isinstance(a, tuple):
                stack.extend(a)
        deps = frozenset(d) if deps is None else deps
        opaque = o if opaque is None else opaque
    t.deps = deps
    t.opaque = opaque
    _TABLE[key] = t
    return t


def mk(op, *args, shape=None, kind=None):
    return _mk(op, args, shape, kind)


def opaque(op, *args, shape=None, kind=None):
    """A term whose operation is outside the modelled vocabulary."""
    return _mk(op, args, shape, kind, opaque=True)


def sym(name, kind=None, shape=None, label=None):
    deps = frozenset([label or name])
    return _mk("sym", (name,), shape, kind, deps=deps, opaque=False)


def _constkey(v):
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("n", Fraction(v), "i")
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return ("n", v, "i")
        return ("n", v, "f")
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return ("f", repr(v))
        return ("n", Fraction(v), "f")
    return (type(v).__name__, v)


def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        k = "bool"
    elif isinstance(v, (int, Fraction)) and (
            isinstance(v, int) or v.denominator == 1):
        k = "int"
        v = int(v)
    elif isinstance(v, (float, Fraction)):
        k = "float"
    elif isinstance(v, str):
        k = "str"
    elif v is None:
        k = "none"
    else:
        k = None
    t = _mk("const", _constkey(v), () if k in ("int", "float", "bool") else None,
            k, deps=EMPTY, opaque=False)
    return t


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    k = t.args
    if k[0] == "b":
        return k[1]
    if k[0] == "n":
        if k[2] == "i":
            return int(k[1])
        return float(k[1]) if k[1].denominator != 1 or True else int(k[1])
    if k[0] == "f":
        return float(k[1])
    return k[1]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def is_num(t):
    return t.op == "const" and t.args[0] == "n"


# --------------------------------------------------------------------------
# Shapes
# --------------------------------------------------------------------------
def broadcast(*shapes):
    """Broadcast shape, or None when unknown."""
    if any(s is None for s in shapes):
        return None
    rank = max((len(s) for s in shapes), default=0)
    out = []
    for i in range(rank):
        d = None
        for s in shapes:
            j = i - (rank - len(s))
            if j < 0:
                continue
            e = s[j]
            if e is ONE:
                continue
            if d is None or d is e:
                d = e
            else:
                # unequal symbols: run-time would require equality; keep first
                d = d if not is_const(e) else e
        out.append(d if d is not None else ONE)
    return tuple(out)


def rank(t):
    return None if t.shape is None else len(t.shape)


# --------------------------------------------------------------------------
# Elementwise rational-function normal form
# --------------------------------------------------------------------------
# op 'poly': args = tuple of (monomial, coeff) sorted, monomial = tuple of
# (atom, exponent) sorted by atom uid; exponent int or Fraction.


def _aspoly(t):
    """dict monomial -> coeff"""
    if is_num(t):
        c = t.args[1]
        return {(): c} if c else {}
    if t.op == "const" and t.args[0] == "b":
        return {(): Fraction(int(t.args[1]))} if t.args[1] else {}
    if t.op == "poly":
        return {m: c for m, c in t.args}
    return {((t, 1),): Fraction(1)}


def _monokey(m):
    return (len(m), tuple((a.uid, e) for a, e in m))


def _frompoly(p, shape=None, kind=None):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        if shape in (None, ()):
            return const(0)
        return mk("full", ZERO, shape, shape=shape, kind="arr")
    if len(p) == 1:
        ((m, c),) = p.items()
        if not m:
            k = const(int(c)) if c.denominator == 1 else const(c)
            if shape not in (None, ()):
                return mk("full", k, shape, shape=shape, kind="arr")
            return k
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if shape is None or a.shape is None or a.shape == shape:
                return a
            if len(a.shape) == len(shape) and not any(
                    x is ONE and y is not ONE
                    for x, y in zip(a.shape, shape)):
                return a
            return mk("bcast", a, shape, shape=shape, kind="arr")
    args = tuple(sorted(p.items(), key=lambda mc: _monokey(mc[0])))
    if shape is None:
        shapes = []
        for m, c in args:
            for a, e in m:
                shapes.append(a.shape)
        shape = broadcast(*shapes) if shapes else ()
    if kind is None and shape == ():
        ks = {a.kind for m, c in args for a, e in m}
        integral = all(c.denominator == 1 for m, c in args) and all(
            e == int(e) and e > 0 for m, c in args for a, e in m)
        if ks <= {"int", "bool"} and integral:
            kind = "int"
        elif ks <= {"int", "bool", "float"}:
            kind = "float"
    if shape:
        nat = broadcast(*[a.shape for m, c in args for a, e in m])
        if nat is not None and nat != shape and (
                len(nat) != len(shape) or any(
                    x is ONE and y is not ONE for x, y in zip(nat, shape))):
            # stretched by a constant array
            return mk("bcast", _mk("poly", args, nat, kind), shape,
                      shape=shape, kind="arr")
    return _mk("poly", args, shape, kind)


def _mulmono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda ae: ae[0].uid))


def _phis(*ts):
    for t in ts:
        if isinstance(t, T) and t.op == "phi":
            return t.args[0]
    return None


def _size(t, lim=400):
    seen = set()
    stack = [t]
    while stack and len(seen) < lim:
        a = stack.pop()
        if isinstance(a, T):
            if a.uid in seen:
                continue
            seen.add(a.uid)
            stack.extend(a.args)
        elif isinstance(a, tuple):
            stack.extend(a)
    return len(seen)


def _dist(f, *ts):
    """Distribute a constructor over top-level phi arguments."""
    c = _phis(*ts)
    if c is None:
        return None
    if sum(_size(t) for t in ts if isinstance(t, T)) > 300:
        return None
    a = [t.args[1] if isinstance(t, T) and t.op == "phi" and t.args[0] is c
         else t for t in ts]
    b = [t.args[2] if isinstance(t, T) and t.op == "phi" and t.args[0] is c
         else t for t in ts]
    return phi(c, f(*a), f(*b))


def _strip(t):
    """full(c, shape) behaves as scalar c inside elementwise algebra."""
    if t.op == "full":
        return t.args[0]
    if t.op == "bcast":
        return t.args[0]
    return t


_STRLIKE = ("str",)


def add(a, b):
    d = _dist(add, a, b)
    if d is not None:
        return d
    if a.kind == "str" or b.kind == "str":
        if is_const(a) and is_const(b):
            return const(cval(a) + cval(b))
        return mk("strcat", a, b, kind="str")
    sh = broadcast(a.shape, b.shape)
    p = dict(_aspoly(_strip(a)))
    for m, c in _aspoly(_strip(b)).items():
        p[m] = p.get(m, Fraction(0)) + c
    if sh is None:
        return _frompoly(p)
    return _frompoly(p, sh)


def _infinite(p):
    return len(p) == 1 and any(x.op in ("inf", "nan") for m in p
                               for x, _ in m)


def mul(a, b):
    d = _dist(mul, a, b)
    if d is not None:
        return d
    sh = broadcast(a.shape, b.shape)
    pa, pb = _aspoly(_strip(a)), _aspoly(_strip(b))
    if not pa and _infinite(pb) or not pb and _infinite(pa):
        return mk("nan", *(sh or ()), shape=sh)
    if len(pa) * len(pb) > 600:
        return opaque("mul", a, b, shape=sh)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mulmono(m1, m2)
            p[m] = p.get(m, Fraction(0)) + c1 * c2
    return _frompoly(p, sh)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    d = _dist(sub, a, b)
    if d is not None:
        return d
    return add(a, neg(b))


def _content(p):
    """Split a multi-term poly into (const*monomial gcd, primitive poly)."""
    items = sorted(p.items(), key=lambda mc: _monokey(mc[0]))
    lead = items[0][1]
    common = dict(items[0][0])
    for m, c in items[1:]:
        dm = dict(m)
        for a in list(common):
            if a not in dm:
                del common[a]
            else:
                common[a] = min(common[a], dm[a])
    g = tuple(sorted(common.items(), key=lambda ae: ae[0].uid))
    ginv = tuple((a, -e) for a, e in g)
    q = {_mulmono(m, ginv): c / lead for m, c in items}
    return lead, g, q


def inv(b):
    d = _dist(inv, b)
    if d is not None:
        return d
    p = _aspoly(_strip(b))
    sh = b.shape
    if not p:
        return mk("inf", *(sh or ()), shape=sh)
    if len(p) == 1:
        ((m, c),) = p.items()
        return _frompoly({tuple((a, -e) for a, e in m): 1 / c}, sh)
    lead, g, q = _content(p)
    prim = _frompoly(q, sh)
    m = _mulmono(tuple((a, -e) for a, e in g), ((prim, -1),))
    return _frompoly({m: 1 / lead}, sh)


def div(a, b):
    d = _dist(div, a, b)
    if d is not None:
        return d
    sh = broadcast(a.shape, b.shape)
    pa, pb = _aspoly(_strip(a)), _aspoly(_strip(b))
    if len(pa) > 1 and len(pb) > 1:
        la_, ga, qa = _content(pa)
        lb, gb, qb = _content(pb)
        if qa == qb:
            m = _mulmono(ga, tuple((x, -e) for x, e in gb))
            return _frompoly({m: la_ / lb}, sh)
    r = mul(_strip(a), inv(_strip(b)))
    # cancel  sum_i c_i x_i * P^-1  where the numerator is a multiple of P
    if r.op == "poly":
        r = _cancel(r, sh)
    if sh is not None and r.shape != sh:
        r = _frompoly(_aspoly(r), sh)
    return r


def _cancel(r, sh):
    p = _aspoly(r)
    atoms = {a for m in p for a, e in m if e == -1 and a.op == "poly"}
    for P in atoms:
        num = {}
        ok = True
        for m, c in p.items():
            d = dict(m)
            if d.get(P) != -1:
                ok = False
                break
            del d[P]
            num[tuple(sorted(d.items(), key=lambda ae: ae[0].uid))] = c
        if not ok:
            continue
        la_, ga, qa = _content(num)
        lb, gb, qb = _content(_aspoly(P))
        if qa == qb and len(qa) > 1:
            m = _mulmono(ga, tuple((x, -e) for x, e in gb))
            return _frompoly({m: la_ / lb}, sh)
    return r


def _signed(p):
    """an even power of something that may be negative"""
    return any(y.denominator == 1 and y % 2 == 0 and any(
        s.op == "sym" and str(s.args[0]).startswith("pm:")
        for s in subterms(x)) for m in p for x, y in m)


def power(a, b):
    d = _dist(power, a, b)
    if d is not None:
        return d
    sh = broadcast(a.shape, b.shape)
    if is_num(b):
        e = b.args[1]
        if e == 0:
            return _frompoly({(): Fraction(1)}, sh)
        if e == 1:
            return a
        p = _aspoly(_strip(a))
        if len(p) == 1 and not (e.denominator != 1 and _signed(p)):
            ((m, c),) = p.items()
            if e.denominator == 1:
                return _frompoly(
                    {tuple((x, y * e) for x, y in m): c ** int(e)}, sh)
            if c == 1:
                return _frompoly({tuple((x, y * e) for x, y in m): c}, sh)
            if is_num(a):
                return const(float(c) ** float(e))
            return mul(_frompoly({tuple((x, y * e) for x, y in m):
                                  Fraction(1)}, sh),
                       const(float(c) ** float(e)))
        if e.denominator == 1 and 0 < e <= 4 and len(p) <= 6:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
        prim = _frompoly(p, sh)
        if e.denominator == 1 and e < 0:
            r = inv(a)
            out = r
            for _ in range(int(-e) - 1):
                out = mul(out, r)
            return out
        return _frompoly({((prim, e),): Fraction(1)}, sh)
    return mk("pow", a, b, shape=sh)


def floordiv(a, b):
    d = _dist(floordiv, a, b)
    if d is not None:
        return d
    if is_num(a) and is_num(b) and b.args[1] != 0:
        return const(a.args[1] // b.args[1])
    if b is ONE:
        return a
    q = div(a, b)
    if q.op == "const" and q.args[0] == "n":
        return const(q.args[1].__floor__())
    p = _aspoly(q)
    if all(c.denominator == 1 and all(e > 0 and e == int(e) for _, e in m)
           for m, c in p.items()):
        return q
    # binomials such as r*(r+1)//2 are kept as exact polynomials with
    # fractional coefficients when the product of consecutive integers is even
    if is_num(b) and _always_divisible(a, int(b.args[1])):
        return _frompoly(_aspoly(q), (), "int")
    return mk("floordiv", a, b, shape=broadcast(a.shape, b.shape), kind="int")


def _eval_int(p, env):
    tot = Fraction(0)
    for m, c in p.items():
        v = c
        for a, e in m:
            v *= Fraction(env[a]) ** int(e)
        tot += v
    return tot


def _always_divisible(a, n):
    """Is the integer polynomial `a` divisible by n for all integer values?
    (decided by residues: the polynomial is periodic mod n)"""
    p = _aspoly(a)
    if any(c.denominator != 1 for c in p.values()):
        return False
    atoms = sorted({x for m in p for x, e in m}, key=lambda x: x.uid)
    if len(atoms) > 2 or abs(n) > 64 or n == 0:
        return False
    if any(e != int(e) or e < 0 for m in p for _, e in m):
        return False
    import itertools
    for vals in itertools.product(range(abs(n)), repeat=len(atoms)):
        if _eval_int(p, dict(zip(atoms, vals))) % abs(n) != 0:
            return False
    return True


def mod(a, b):
    if is_num(a) and is_num(b) and b.args[1] != 0:
        return const(a.args[1] % b.args[1])
    q = floordiv(a, b)
    if q.op != "floordiv":
        r = sub(a, mul(q, b))
        return r
    return mk("mod", a, b, shape=broadcast(a.shape, b.shape), kind="int")


def lower_bound(t):
    """A lower bound for an integer term whose dimension atoms are >= 1."""
    if is_num(t):
        return t.args[1]
    if t.op == "sym" and t.kind == "dim":
        return Fraction(1)
    if t.op == "poly":
        tot = Fraction(0)
        for m, c in t.args:
            lo = Fraction(1)
            for a, e in m:
                l = lower_bound(a)
                if l is None or l < 0 or e < 0:
                    return None
                lo *= l ** int(e)
            if c < 0 and m:
                return None
            tot += c * lo
        return tot
    if t.op in ("len",):
        return Fraction(0)
    return None


# --------------------------------------------------------------------------
# Booleans
# --------------------------------------------------------------------------
def _numleaves(t, room=12):
    """is every alternative of a gated value a number?"""
    if t.op == "phi":
        return room > 0 and _numleaves(t.args[1], room - 1) and \
            _numleaves(t.args[2], room - 1)
    return is_num(t)


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) == cval(b)))
        except Exception:
            return FALSE
    # None / str vs definite numbers
    ka, kb = _kindcls(a), _kindcls(b)
    if ka and kb and ka != kb:
        return FALSE
    if ka == kb == "num" and (a.shape == () and b.shape == ()):
        d = sub(a, b)
        if is_num(d):
            return const(d.args[1] == 0)
        if d.op == "phi" and _numleaves(d):
            return phi(d.args[0], eq(d.args[1], const(0)),
                       eq(d.args[2], const(0)))
        lo = lower_bound(d)
        if lo is not None and lo > 0:
            return FALSE
        lo = lower_bound(neg(d))
        if lo is not None and lo > 0:
            return FALSE
        if d.op == "poly":
            # canonical sign / scale so that eq(a,b) and eq(b,a) coincide
            lead = d.args[0][1]
            d = mul(d, const(1 / lead))
            p = _aspoly(d)
            if len(p) == 1:
                # finite factors in the denominator do not vanish the product
                ((m, c),) = p.items()
                m = tuple((a, e) for a, e in m if e > 0)
                if not m:
                    return FALSE
                d = _frompoly({m: Fraction(1)}, ())
        return mk("eqz", d, kind="bool", shape=())
    if b.uid < a.uid:
        a, b = b, a
    sh = broadcast(a.shape, b.shape)
    return mk("eq", a, b, kind="bool", shape=sh)


def _kindcls(t):
    if t.kind in ("int", "float", "bool", "dim"):
        return "num"
    if t.kind in ("str", "none"):
        return t.kind
    if t.kind in ("obj", "fn", "list", "dict", "arr", "tuple"):
        return t.kind
    if t.op == "poly" and t.shape:
        return "arr"
    return None


# operations whose values a scenario takes to be finite numbers
FINITE = set()


def lt(a, b):
    if is_num(a) and is_num(b):
        return const(a.args[1] < b.args[1])
    if is_const(a) and is_const(b):
        try:
            return const(bool(cval(a) < cval(b)))
        except Exception:
            pass
    if a is b or is_const(a) and a.shape == () == b.shape and \
            cval(a) == float("inf"):
        return FALSE
    if is_const(b) and cval(b) == float("inf"):
        if a.op == "phi":
            return phi(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
        if is_num(a) or a.op in FINITE:
            return TRUE
    if a.shape == () and b.shape == () and _kindcls(a) == "num" == _kindcls(b):
        lo = lower_bound(sub(b, a))
        if lo is not None and lo > 0:
            return TRUE
        lo = lower_bound(sub(a, b))
        if lo is not None and lo >= 0:
            return FALSE
    return mk("lt", a, b, kind="bool", shape=broadcast(a.shape, b.shape))


def le(a, b):
    return bnot(lt(b, a)) if (a.shape == () and b.shape == ()) else mk(
        "le", a, b, kind="bool", shape=broadcast(a.shape, b.shape))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "phi":
        return phi(a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return mk("not", a, kind="bool", shape=a.shape)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.args if x.op == "and" else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    for y in out:
        if bnot(y) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda t: t.uid), kind="bool", shape=())


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def isbool(t):
    return t.kind == "bool" and t.shape == ()


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if isinstance(a, T) and a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a.kind == "bool" and b.kind == "bool":
        if b is FALSE:
            return band(c, a)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
    sh = a.shape if a.shape == b.shape else None
    kd = a.kind if a.kind == b.kind else None
    return mk("phi", c, a, b, shape=sh, kind=kd)


# --------------------------------------------------------------------------
# Structural array operations
# --------------------------------------------------------------------------
FULL = ("s", None, None, None)


def _dimmul(shape):
    out = ONE
    for d in shape:
        out = mul(out, d)
    return out


def size_of(t):
    if t.shape is None:
        return mk("size", t, kind="int", shape=())
    return _dimmul(t.shape)


def transpose(t):
    d = _dist(transpose, t)
    if d is not None:
        return d
    if t.shape is not None and len(t.shape) < 2:
        return t
    sh = None if t.shape is None else tuple(reversed(t.shape))
    if t.op == "T":
        return t.args[0]
    if t.op == "mm":
        return matmul(*[transpose(x) for x in reversed(t.args)])
    if t.op == "full":
        return mk("full", t.args[0], sh, shape=sh, kind="arr")
    if t.op == "eye" and t.args[0] is t.args[1]:
        return t
    if t.op == "diag":
        return t
    if t.op == "concat" and t.shape is not None and len(t.shape) == 2:
        return concat([transpose(p) for p in t.args[1:]],
                      1 - cval(t.args[0]))
    if t.op == "col":
        return mk("row", t.args[0], shape=sh, kind="arr")
    if t.op == "row":
        return mk("col", t.args[0], shape=sh, kind="arr")
    if t.op == "poly" and t.shape is not None and len(t.shape) == 2:
        ok = all(a.shape is not None for m, c in t.args for a, e in m)
        if ok:
            def f(a):
                if len(a.shape) == 0:
                    return a
                if len(a.shape) == 1:
                    return col(a)
                return transpose(a)
            return mapatoms(t, f, sh)
    if t.op == "inverse":
        return inverse(transpose(t.args[0]))
    return mk("T", t, shape=sh, kind="arr")


def mapatoms(t, f, sh):
    tot = None
    for m, c in t.args:
        term = const(int(c)) if c.denominator == 1 else const(c)
        for a, e in m:
            term = mul(term, power(f(a), const(int(e)) if e == int(e)
                                   else const(Fraction(e))))
        tot = term if tot is None else add(tot, term)
    if sh is not None and tot.shape != sh:
        tot = _frompoly(_aspoly(_strip(tot)), sh)
    return tot


def col(t):
    d = _dist(col, t)
    if d is not None:
        return d
    if t.op == "full" and len(t.shape) == 1:
        sh = t.shape + (ONE,)
        return mk("full", t.args[0], sh, shape=sh, kind="arr")
    sh = None if t.shape is None else t.shape + (ONE,)
    if t.op == "poly" and t.shape is not None and len(t.shape) == 1 and all(
            a.shape is not None and len(a.shape) <= 1
            for m, c in t.args for a, e in m):
        return mapatoms(t, lambda a: a if a.shape == () else col(a), sh)
    if t.op == "flat" and t.args[0].shape is not None and \
            len(t.args[0].shape) == 2 and t.args[0].shape[1] is ONE:
        return t.args[0]
    return mk("col", t, shape=sh, kind="arr")


def row(t):
    sh = None if t.shape is None else (ONE,) + t.shape
    if t.op == "full" and len(t.shape) == 1:
        return mk("full", t.args[0], sh, shape=sh, kind="arr")
    return mk("row", t, shape=sh, kind="arr")


def flat(t):
    d = _dist(flat, t)
    if d is not None:
        return d
    if t.shape is not None and len(t.shape) == 1:
        return t
    if t.op in ("col", "row"):
        return t.args[0]
    sh = None if t.shape is None else (_dimmul(t.shape),)
    if t.op == "full":
        return mk("full", t.args[0], sh, shape=sh, kind="arr")
    if t.op == "reshape":
        return flat(t.args[0])
    return mk("flat", t, shape=sh, kind="arr")


def reshape(t, shape):
    """shape: tuple of terms (const -1 allowed)"""
    d = _dist(lambda x: reshape(x, shape), t)
    if d is not None:
        return d
    m1 = const(-1)
    if len(shape) == 1:
        if shape[0] is m1 or (t.shape is not None and
                              shape[0] is _dimmul(t.shape)):
            return flat(t)
    if m1 in shape and t.shape is not None:
        others = [s for s in shape if s is not m1]
        tot = _dimmul(t.shape)
        q = floordiv(tot, _dimmul(others))
        if q.op != "floordiv":
            shape = tuple(q if s is m1 else s for s in shape)
    if t.shape is not None and tuple(shape) == t.shape:
        return t
    if len(shape) == 2 and shape[1] is ONE and (
            t.shape is None or len(t.shape) == 1) and t.shape is not None:
        return col(t)
    if len(shape) == 2 and shape[0] is ONE and t.shape is not None and len(
            t.shape) == 1:
        return row(t)
    if t.op in ("reshape", "flat", "col", "row"):
        base = t.args[0]
        if base.shape is not None and base.shape == tuple(shape):
            return base
        t = base
        if base.shape is not None and len(base.shape) == 1 and len(
                shape) == 2 and shape[1] is ONE:
            return col(base)
    if t.op == "full" and m1 not in shape:
        return mk("full", t.args[0], tuple(shape), shape=tuple(shape),
                  kind="arr")
    sh = None if m1 in shape else tuple(shape)
    return mk("reshape", t, tuple(shape), shape=sh, kind="arr")


def concat(parts, axis):
    parts = list(parts)
    flatp = []
    for p in parts:
        if p.op == "concat" and cval(p.args[0]) == axis:
            flatp.extend(p.args[1:])
        else:
            flatp.append(p)
    parts = flatp
    if len(parts) == 1:
        return parts[0]
    # re-assemble adjacent slices of the same base
    merged = [parts[0]]
    for p in parts[1:]:
        q = _join_slices(merged[-1], p, axis)
        if q is not None:
            merged[-1] = q
        else:
            merged.append(p)
    parts = merged
    if len(parts) == 1:
        return parts[0]
    # elementwise: concat of polys with a common scalar factor is left alone
    sh = None
    if all(p.shape is not None for p in parts):
        ranks = {len(p.shape) for p in parts}
        if len(ranks) == 1 and axis < ranks.copy().pop():
            tot = ZERO
            for p in parts:
                tot = add(tot, p.shape[axis])
            base = list(parts[0].shape)
            base[axis] = tot
            sh = tuple(base)
    return mk("concat", const(axis), *parts, shape=sh, kind="arr")


def _join_slices(a, b, axis):
    if a.op == "getitem" and b.op == "getitem" and a.args[0] is b.args[0]:
        ia, ib = a.args[1], b.args[1]
        if len(ia) == len(ib) == axis + 1 and ia[:axis] == ib[:axis] and all(
                x == FULL for x in ia[:axis]):
            sa, sb = ia[axis], ib[axis]
            if sa[0] == "s" and sb[0] == "s" and sa[3] is None is sb[3]:
                if sa[2] is not None and sb[1] is sa[2]:
                    return getitem(a.args[0],
                                   ia[:axis] + (("s", sa[1], sb[2], None),))
    return None


def beyond(hi, n):
    """hi is certainly at or past the end of a dimension of size n"""
    lo = lower_bound(sub(hi, n))
    return lo is not None and lo >= 0


def slice_len(s, n):
    """length of slice item over dimension n (terms), or None"""
    _, lo, hi, st = s
    if st is not None and st is not ONE:
        if n is not None and lo is None and hi is None and is_num(st):
            k = abs(st.args[1])
            if k == 1:
                return n
            return floordiv(add(n, const(int(k) - 1)), const(int(k)))
        return None
    lo = ZERO if lo is None else lo
    hi = n if hi is None else hi
    if n is None and (hi is None):
        return None
    if is_num(lo) and lo.args[1] < 0:
        if n is None:
            return None
        lo = add(n, lo)
    if is_num(hi) and hi.args[1] < 0:
        if n is None:
            return None
        hi = add(n, hi)
    # clip: assume in range when symbolic
    if n is not None and hi is not n and beyond(hi, n):
        hi = n
    d = sub(hi, lo)
    if is_num(d) and d.args[1] < 0:
        return ZERO
    return d


def _norm_slice(s, n):
    """Canonical (lo, hi) with None for defaults."""
    _, lo, hi, st = s
    if st is ONE:
        st = None
    if n is not None:
        if lo is not None and is_num(lo) and lo.args[1] < 0:
            lo = add(n, lo)
        if hi is not None and is_num(hi) and hi.args[1] < 0:
            hi = add(n, hi)
        if hi is not None and (hi is n or beyond(hi, n)) and st is None:
            hi = None
    if lo is ZERO:
        lo = None
    return ("s", lo, hi, st)


def getitem(t, idx):
    """idx: tuple of index items."""
    d = _dist(lambda x: getitem(x, idx), t)
    if d is not None:
        return d
    idx = tuple(idx)
    # normalise ellipsis
    if ("ell",) in idx and t.shape is not None:
        n = sum(1 for i in idx if i[0] not in ("ell", "new"))
        k = idx.index(("ell",))
        idx = idx[:k] + (FULL,) * (len(t.shape) - n) + idx[k + 1:]
    elif idx and idx[0] == ("ell",) and len(idx) == 2 and idx[1][0] == "s" \
            and t.shape is None:
        pass
    if t.shape is not None:
        out, ax = [], 0
        for it in idx:
            if it[0] == "new" or it[0] == "ell":
                out.append(it)
                continue
            n = t.shape[ax] if ax < len(t.shape) else None
            if it[0] == "s":
                it = _norm_slice(it, n)
            elif it[0] == "i" and n is not None and is_num(it[1]) and \
                    it[1].args[1] < 0:
                it = ("i", add(n, it[1]))
            out.append(it)
            ax += 1
        idx = tuple(out)
    else:
        idx = tuple(_norm_slice(i, None) if i[0] == "s" else i for i in idx)
    while idx and idx[-1] == FULL:
        idx = idx[:-1]
    if not idx or idx == (("ell",),):
        return t
    # shape of the result
    sh = None
    if t.shape is not None and ("ell",) not in idx:
        sh = []
        ax = 0
        narr = sum(1 for it in idx if it[0] == "a")
        for it in idx:
            if it[0] == "new":
                sh.append(ONE)
                continue
            n = t.shape[ax] if ax < len(t.shape) else None
            ax += 1
            if it[0] == "s":
                l = slice_len(it, n)
                if l is None:
                    l = mk("slen", n if n is not None else NONE,
                           *[NONE if q is None else q for q in it[1:4]],
                           kind="int", shape=())
                sh.append(l)
            elif it[0] == "a":
                if sh is None or it[1].shape is None or narr > 1:
                    sh = None
                    break
                if it[1].kind == "bool" or it[1].kind == "mask":
                    sh.append(mk("count", it[1], kind="int", shape=()))
                else:
                    sh.extend(it[1].shape)
        if sh is not None:
            sh = tuple(sh) + tuple(t.shape[ax:])
    # axis insertion
    if idx == (FULL, ("new",)) and (t.shape is None or len(t.shape) == 1):
        return col(t)
    if idx == (("new",),) and t.shape is not None and len(t.shape) == 1:
        return row(t)
    # literal arrays / lists
    if t.op == "array" and idx[0][0] == "i" and is_num(idx[0][1]):
        k = int(idx[0][1].args[1])
        if -len(t.args) <= k < len(t.args):
            e = t.args[k]
            return getitem(e, idx[1:]) if len(idx) > 1 else e
    if t.op == "array" and idx[0][0] == "s" and all(
            x is None or is_num(x) for x in idx[0][1:]) and len(idx) == 1:
        s = slice(*[None if x is None else int(x.args[1]) for x in idx[0][1:]])
        return array(list(t.args)[s])
    if t.op == "full" and sh is not None:
        return mk("full", t.args[0], sh, shape=sh, kind="arr") if sh else \
            t.args[0]
    if t.op in ("col",) and len(idx) == 1 and idx[0][0] in ("s", "a"):
        return col(getitem(t.args[0], idx))
    if t.op == "col" and len(idx) == 2 and idx[1] == ("i", ZERO):
        return getitem(t.args[0], idx[:1])
    if t.op == "row" and idx[0] == ("i", ZERO):
        return getitem(t.args[0], idx[1:])
    if t.op == "T" and len(idx) == 2 and all(i[0] in ("s", "i") for i in idx):
        return transpose_index(t.args[0], idx)
    if t.op == "T" and len(idx) == 1 and idx[0][0] in ("s", "i") and \
            t.shape is not None and len(t.shape) == 2:
        return transpose_index(t.args[0], (idx[0], FULL))
    if t.op == "setitem":
        r = _getset(t, idx)
        if r is not None:
            return r
    if t.op == "concat":
        r = _getconcat(t, idx)
        if r is not None:
            return r
    if t.op == "getitem":
        r = _getget(t, idx)
        if r is not None:
            return r
    if t.op == "mm" and len(t.args) >= 2:
        # rows of a product come from the left factor, columns from the right
        left, right = t.args[0], t.args[-1]
        if idx[0] != FULL and idx[0][0] in ("s", "a", "i") and left.shape is \
                not None and len(left.shape) == 2:
            rest = matmul(getitem(left, idx[:1]), *t.args[1:])
            if len(idx) == 1:
                return rest
            if idx[0][0] == "i":
                return getitem(rest, idx[1:])
            return getitem(rest, (FULL,) + idx[1:])
        if idx[0] == FULL and len(idx) == 2 and right.shape is not None and \
                len(right.shape) == 2 and idx[1][0] in ("s", "a", "i"):
            return matmul(*t.args[:-1], getitem(right, idx))
    if t.op == "poly" and t.shape is not None and ("ell",) not in idx and \
            ("new",) not in idx and all(
                a.shape is not None for m, c in t.args for a, e in m):
        R = len(t.shape)
        if len(idx) <= R:
            full = idx + (FULL,) * (R - len(idx))

            def f(a):
                ra = len(a.shape)
                if ra == 0:
                    return a
                sub_ = list(full[R - ra:])
                for j in range(ra):
                    if a.shape[j] is ONE and t.shape[R - ra + j] is not ONE:
                        sub_[j] = ("i", ZERO) if sub_[j][0] == "i" else FULL
                return getitem(a, tuple(sub_))
            return mapatoms(t, f, sh)
    if t.op == "bcast" and sh is not None:
        a = t.args[0]
        if a.shape == ():
            return mk("bcast", a, sh, shape=sh, kind="arr") if sh else a
    if t.op in ("ones_like",):
        pass
    return mk("getitem", t, idx, shape=sh,
              kind="arr" if sh is None or sh else _elemkind(t))


def _elemkind(t):
    return "float" if t.kind in ("arr", None) else None


def transpose_index(base, idx):
    i, j = idx[0], idx[1] if len(idx) > 1 else FULL
    r = getitem(base, (j, i))
    if i[0] == "s" and j[0] == "s":
        return transpose(r)
    return r


def _const_index(it):
    return it[0] == "i"


def idx_rel(a, b):
    """'same', 'disjoint' or None for index tuples"""
    n = max(len(a), len(b))
    a = a + (FULL,) * (n - len(a))
    b = b + (FULL,) * (n - len(b))
    if a == b:
        return "same"
    for x, y in zip(a, b):
        if x[0] == "i" and y[0] == "i":
            d = sub(x[1], y[1])
            if is_num(d) and d.args[1] != 0:
                return "disjoint"
            lo = lower_bound(d)
            if lo is not None and lo > 0:
                return "disjoint"
            lo = lower_bound(neg(d))
            if lo is not None and lo > 0:
                return "disjoint"
        if x[0] == "s" and y[0] == "s" and x[3] is None is y[3]:
            if x[2] is not None and y[1] is not None:
                lo = lower_bound(sub(y[1], x[2]))
                if x[2] is y[1] or (lo is not None and lo >= 0):
                    return "disjoint"
            if y[2] is not None and x[1] is not None:
                lo = lower_bound(sub(x[1], y[2]))
                if y[2] is x[1] or (lo is not None and lo >= 0):
                    return "disjoint"
    return None


def _getset(t, idx):
    base, sidx, val = t.args
    rel = idx_rel(sidx, idx)
    if rel == "same":
        return val
    if rel == "disjoint":
        return getitem(base, idx)
    # reading an element of a stored full row/column/slice
    n = max(len(sidx), len(idx))
    a = sidx + (FULL,) * (n - len(sidx))
    b = idx + (FULL,) * (n - len(idx))
    # stored: (FULL, i) read: (x, i)
    if len(a) == 2 and a[0] == FULL and a[1] == b[1] and a[1][0] == "i":
        return getitem(val, b[:1]) if val.shape not in ((), None) else (
            val if val.shape == () else None)
    # slice reading a column range whose only stored columns lie outside/in
    return None


def _getconcat(t, idx):
    ax = cval(t.args[0])
    parts = t.args[1:]
    if len(idx) <= ax:
        # index on an earlier axis only
        if all(i[0] in ("s", "a", "i") for i in idx):
            nax = ax - sum(1 for i in idx if i[0] == "i")
            if all(p.shape is not None for p in parts):
                return concat([getitem(p, idx) for p in parts], nax)
        return None
    it = idx[ax]
    pre, post = idx[:ax], idx[ax + 1:]
    if any(p.shape is None or len(p.shape) <= ax for p in parts):
        return None
    offs = [ZERO]
    for p in parts:
        offs.append(add(offs[-1], p.shape[ax]))
    nax = ax - sum(1 for i in pre if i[0] == "i")
    if it == FULL:
        return concat([getitem(p, idx) for p in parts], nax)
    if it[0] == "s" and it[3] is None:
        lo = ZERO if it[1] is None else it[1]
        hi = offs[-1] if it[2] is None else it[2]
        if lo in offs and hi in offs:
            i, j = offs.index(lo), offs.index(hi)
            if j > i:
                return concat([getitem(p, pre + (FULL,) + post)
                               for p in parts[i:j]], nax)
        # inside one part
        for k in range(len(parts)):
            a, b = sub(lo, offs[k]), sub(offs[k + 1], hi)
            la_, lb = lower_bound(a), lower_bound(b)
            if la_ is not None and lb is not None and la_ >= 0 and lb >= 0:
                return getitem(parts[k], pre + (
                    ("s", a, sub(hi, offs[k]), None),) + post)
        # drop parts wholly outside
        if lo in offs and it[2] is None:
            pass
    if it[0] == "i":
        k = it[1]
        for q in range(len(parts)):
            a, b = sub(k, offs[q]), sub(sub(offs[q + 1], ONE), k)
            la_, lb = lower_bound(a), lower_bound(b)
            if la_ is not None and lb is not None and la_ >= 0 and lb >= 0:
                return getitem(parts[q], pre + (("i", a),) + post)
    return None


def _getget(t, idx):
    base, i0 = t.args
    if ("new",) in i0 or ("ell",) in i0 or ("new",) in idx or ("ell",) in idx:
        return None
    out = []
    j = 0
    idx = list(idx)
    for it in i0:
        if it[0] == "i":
            out.append(it)
        elif it[0] == "s" and it[3] is None:
            if j < len(idx):
                s2 = idx[j]
                j += 1
                lo = ZERO if it[1] is None else it[1]
                if s2 == FULL:
                    out.append(it)
                elif s2[0] == "i":
                    k = s2[1]
                    if is_num(k) and k.args[1] < 0:
                        return None
                    out.append(("i", add(lo, k)))
                elif s2[0] == "s" and s2[3] is None:
                    l2, h2 = s2[1], s2[2]
                    if any(x is not None and is_num(x) and x.args[1] < 0
                           for x in (l2, h2)):
                        return None
                    nlo = add(lo, l2) if l2 is not None else it[1]
                    nhi = add(lo, h2) if h2 is not None else it[2]
                    out.append(("s", None if nlo is ZERO else nlo, nhi, None))
                else:
                    return None
            else:
                out.append(it)
        elif it[0] == "a":
            if j < len(idx):
                if idx[j] == FULL:
                    out.append(it)
                    j += 1
                else:
                    return None
            else:
                out.append(it)
        else:
            return None
    out.extend(idx[j:])
    return getitem(base, tuple(out))


def setitem(t, idx, val):
    idx = tuple(idx)
    if t.shape is not None:
        out, ax = [], 0
        for it in idx:
            if it[0] in ("new", "ell"):
                out.append(it)
                continue
            n = t.shape[ax] if ax < len(t.shape) else None
            if it[0] == "s":
                it = _norm_slice(it, n)
            elif it[0] == "i" and n is not None and is_num(it[1]) and \
                    it[1].args[1] < 0:
                it = ("i", add(n, it[1]))
            out.append(it)
            ax += 1
        idx = tuple(out)
    else:
        idx = tuple(_norm_slice(i, None) if i[0] == "s" else i for i in idx)
    while idx and idx[-1] == FULL:
        idx = idx[:-1]
    if not idx or idx == (("ell",),):
        if val.shape == t.shape or t.shape is None:
            return val
        return _frompoly(_aspoly(_strip(val)), t.shape)
    base = t
    # overwrite an earlier store at the same place; commute disjoint stores
    chain = []
    while base.op == "setitem":
        rel = idx_rel(base.args[1], idx)
        if rel == "same":
            base = base.args[0]
            for i2, v2 in reversed(chain):
                base = mk("setitem", base, i2, v2, shape=t.shape, kind="arr")
            return setitem(base, idx, val)
        if rel != "disjoint":
            break
        chain.append((base.args[1], base.args[2]))
        base = base.args[0]
    # canonical order of disjoint constant-index stores
    if chain:
        stores = [(idx, val)] + chain
        keyd = []
        for i2, v2 in stores:
            keyd.append((tuple(str(x) for x in i2), i2, v2))
        keyd.sort(key=lambda k: k[0])
        out = base
        for _, i2, v2 in keyd:
            out = mk("setitem", out, i2, v2, shape=t.shape, kind="arr")
        return _assembled(out)
    return _assembled(mk("setitem", t, idx, val, shape=t.shape, kind="arr"))


def _assembled(t):
    """An 'empty'/zeros array filled by adjacent slices is a concatenation."""
    stores = []
    b = t
    while b.op == "setitem":
        stores.append((b.args[1], b.args[2]))
        b = b.args[0]
    if b.op not in ("empty", "full") or t.shape is None:
        return t
    for ax in range(len(t.shape)):
        if not all(len(i) == ax + 1 and all(x == FULL for x in i[:ax]) and
                   i[ax][0] == "s" and i[ax][3] is None for i, v in stores):
            continue
        n = t.shape[ax]
        by = {}
        for i, v in stores:
            by[ZERO if i[ax][1] is None else i[ax][1]] = (i[ax][2] if i[ax][2] is not None else n, v)
        pos, parts = ZERO, []
        while pos in by and len(parts) < len(stores):
            hi, v = by[pos]
            want = list(t.shape)
            want[ax] = sub(hi, pos)
            if v.shape != tuple(want):
                if v.shape is None:
                    return t
                v = _frompoly(_aspoly(_strip(v)), tuple(want))
            parts.append(v)
            pos = hi
        if len(parts) == len(stores) and pos is n:
            return concat(parts, ax)
    return t


def array(items):
    """np.array of a (nested) python list of terms"""
    items = list(items)
    sh = (const(len(items)),)
    if items and all(i.shape is not None for i in items):
        s0 = items[0].shape
        if all(i.shape == s0 for i in items):
            sh = sh + s0
        else:
            sh = None
    elif items:
        sh = None
    return mk("array", *items, shape=sh, kind="arr")


def matmul(*ts):
    """Non-commutative product with bilinear expansion."""
    ts = list(ts)
    d = _dist(matmul, *ts)
    if d is not None:
        return d
    out = []
    for t in ts:
        if t.op == "mm" and (not out or t.args[0].shape is None or
                             len(t.args[0].shape) == 2):
            out.extend(t.args)
        else:
            out.append(t)
    # identities
    res = []
    for t in out:
        if t.op == "eye" and t.args[0] is t.args[1] and len(out) > 1:
            continue
        res.append(t)
    if not res:
        return out[0]
    out = res
    # inverse cancellation, diag merges
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if (a.op == "inverse" and a.args[0] is b) or (
                b.op == "inverse" and b.args[0] is a) or (
                    a.op == "orthT" and a.args[0] is b):
            del out[i:i + 2]
            i = max(i - 1, 0)
            continue
        if a.op == "diag" and b.op == "diag":
            out[i:i + 2] = [diag(mul(a.args[0], b.args[0]))]
            continue
        i += 1
    if not out:
        a = ts[0]
        n = a.shape[0] if a.shape is not None else sym("?n", "dim", ())
        return mk("eye", n, n, shape=(n, n), kind="arr")
    if len(out) == 1:
        return out[0]
    # scalar factors and sums
    for k, t in enumerate(out):
        if t.op == "poly" and t.shape is not None:
            p = t.args
            # pull scalar factors out of each monomial
            splits = []
            ok = True
            for m, c in p:
                sc = const(int(c)) if c.denominator == 1 else const(c)
                rest = []
                for a, e in m:
                    if a.shape == ():
                        sc = mul(sc, power(a, const(int(e)) if e == int(e)
                                           else const(e)))
                    elif a.shape is None:
                        ok = False
                    else:
                        rest.append((a, e))
                splits.append((sc, tuple(rest)))
            if ok and (len(p) > 1 or splits[0][0] is not ONE) and len(p) <= 12:
                tot = None
                for sc, rest in splits:
                    if not rest:
                        base = mk("full", ONE, t.shape, shape=t.shape,
                                  kind="arr")
                    else:
                        base = _frompoly({rest: Fraction(1)},
                                         t.shape if len(rest) > 1 or
                                         rest[0][1] != 1 or
                                         rest[0][0].shape != t.shape
                                         else None)
                    if base is t:
                        tot = None
                        break
                    term = mul(sc, matmul(*out[:k], base, *out[k + 1:]))
                    tot = term if tot is None else add(tot, term)
                if tot is not None:
                    return tot
        if t.op == "full" and t.args[0] is ZERO:
            sh = _mmshape(out)
            if sh is not None:
                return mk("full", ZERO, sh, shape=sh, kind="arr") if sh else \
                    ZERO
        # right factor is a horizontal concatenation -> concat of products
    last = out[-1]
    if last.op == "concat" and cval(last.args[0]) == 1:
        return concat([matmul(*out[:-1], p) for p in last.args[1:]], 1)
    first = out[0]
    if first.op == "concat" and cval(first.args[0]) == 0 and \
            first.shape is not None and len(first.shape) == 2:
        return concat([matmul(p, *out[1:]) for p in first.args[1:]], 0)
    # block product  [A B] @ [x; y] = A x + B y
    for k in range(len(out) - 1):
        a, b = out[k], out[k + 1]
        if a.op == "concat" and b.op == "concat" and cval(
                a.args[0]) == 1 and cval(b.args[0]) == 0 and len(
                    a.args) == len(b.args):
            if all(x.shape is not None and y.shape is not None and len(
                    x.shape) == 2 and x.shape[1] is y.shape[0]
                    for x, y in zip(a.args[1:], b.args[1:])):
                tot = None
                for x, y in zip(a.args[1:], b.args[1:]):
                    term = matmul(*out[:k], x, y, *out[k + 2:])
                    tot = term if tot is None else add(tot, term)
                return tot
    return mk("mm", *out, shape=_mmshape(out), kind="arr")


def _mmshape(out):
    if any(t.shape is None for t in out):
        return None
    sh = tuple(out[0].shape)
    for t in out[1:]:
        l = tuple(t.shape)
        if len(sh) == 0 or len(l) == 0:
            return None
        if len(l) == 1:
            sh = sh[:-1]
        elif len(l) == 2:
            sh = sh[:-1] + l[-1:]
        elif len(sh) <= 2:
            sh = l[:-2] + sh[:-1] + l[-1:]
        else:
            return None
    return sh


def inverse(t):
    d = _dist(inverse, t)
    if d is not None:
        return d
    if t.op == "inverse":
        return t.args[0]
    if t.op == "diag":
        return diag(inv(t.args[0]))
    if t.op == "mm" and all(x.shape is not None and len(x.shape) == 2 and
                            x.shape[0] is x.shape[1] for x in t.args):
        return matmul(*[inverse(x) for x in reversed(t.args)])
    return mk("inverse", t, shape=t.shape, kind="arr")


def diag(v):
    sh = None if v.shape is None or len(v.shape) != 1 else v.shape * 2
    return mk("diag", v, shape=sh, kind="arr")


# --------------------------------------------------------------------------
# Substitution / resolution
# --------------------------------------------------------------------------
_REBUILD = {}


def rebuild(t, args, sh=None):
    """Re-run the normalising constructor for t with new args."""
    op = t.op
    if op == "poly":
        raise AssertionError
    if op == "phi":
        return phi(*args)
    if op == "getitem":
        return getitem(args[0], args[1])
    if op == "setitem":
        return setitem(*args)
    if op == "mm":
        return matmul(*args)
    if op == "T":
        return transpose(args[0])
    if op == "col":
        return col(args[0])
    if op == "row":
        return row(args[0])
    if op == "flat":
        return flat(args[0])
    if op == "reshape":
        return reshape(args[0], args[1])
    if op == "concat":
        return concat(args[1:], cval(args[0]))
    if op == "not":
        return bnot(args[0])
    if op == "and":
        return band(*args)
    if op == "eqz":
        return eq(args[0], ZERO)
    if op == "eq":
        return eq(*args)
    if op == "lt":
        return lt(*args)
    if op == "inverse":
        return inverse(args[0])
    if op == "floordiv":
        return floordiv(*args)
    if op == "pow":
        return power(*args)
    if sh is None:
        sh = t.shape
    return _mk(op, tuple(args), None if sh is None else sh, t.kind,
               opaque=True if (t.opaque and not any(
                   isinstance(a, T) and a.opaque for a in t.args)) else None)


def substitute(t, fn, memo=None):
    """Bottom-up rewriting: fn(term) -> term or None (= descend)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = fn(x)
        if r is None:
            if x.op in ("const", "sym"):
                r = x
            elif x.op == "poly":
                tot = ZERO
                for m, c in x.args:
                    term = const(int(c)) if c.denominator == 1 else const(c)
                    for a, e in m:
                        term = mul(term, power(go(a), const(Fraction(e))))
                    tot = add(tot, term)
                if x.shape is not None and tot.shape != x.shape:
                    tot = _frompoly(_aspoly(_strip(tot)), x.shape)
                r = tot
            else:
                na = tuple(go(a) for a in x.args)
                r = x if na == x.args else rebuild(
                    x, na, x.shape and tuple(go(d) for d in x.shape))
        memo[x] = r
        return r

    return go(t)


def assume_term(t, facts):
    """Resolve phis and conditions under facts (dict cond->bool)."""
    if not facts:
        return t

    def fn(x):
        if x.op == "phi":
            v = facts.get(x.args[0])
            if v is True:
                return assume_term(x.args[1], facts)
            if v is False:
                return assume_term(x.args[2], facts)
        if x.kind == "bool" and x in facts:
            return TRUE if facts[x] else FALSE
        return None
    return substitute(t, fn)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        a = stack.pop()
        if isinstance(a, tuple):
            stack.extend(a)
        elif isinstance(a, T) and a.uid not in seen:
            seen.add(a.uid)
            yield a
            stack.extend(a.args)


# --------------------------------------------------------------------------
# Printing
# --------------------------------------------------------------------------
def show(t, depth=6):
    if isinstance(t, tuple):
        if t and t[0] == "s" and len(t) == 4:
            return "%s:%s" % ("" if t[1] is None else show(t[1], depth - 1),
                              "" if t[2] is None else show(t[2], depth - 1)) \
                + ("" if t[3] is None else ":" + show(t[3], depth - 1))
        if t and t[0] in ("i", "a") and len(t) == 2:
            return show(t[1], depth - 1)
        if t == ("new",):
            return "None"
        if t == ("ell",):
            return "..."
        return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if t.op == "const":
        v = cval(t)
        return repr(v)
    if t.op == "sym":
        return str(t.args[0])
    if depth <= 0:
        return "…"
    if t.op == "poly":
        out = []
        for m, c in t.args:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for a, e in m:
                s = show(a, depth - 1)
                if a.op == "poly":
                    s = "(" + s + ")"
                fs.append(s if e == 1 else "%s^%s" % (s, e))
            out.append("*".join(fs))
        return " + ".join(out)
    if t.op == "getitem":
        return "%s[%s]" % (show(t.args[0], depth - 1),
                           ", ".join(show(i, depth - 1) for i in t.args[1]))
    if t.op == "mm":
        return "(" + " @ ".join(show(a, depth - 1) for a in t.args) + ")"
    if t.op == "T":
        return show(t.args[0], depth - 1) + ".T"
    if t.op == "phi":
        return "{%s ? %s : %s}" % tuple(show(a, depth - 1) for a in t.args)
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))
