"""Random interpretation of abstract terms (Gulwani & Necula style).

Two terms produced by the analysis that are not syntactically identical in
normal form are compared by interpreting them in a random model: symbols become
random arrays, library operations without algebraic laws become random
functions (congruent: equal arguments give equal results).  The repository's
code is never executed; only terms are interpreted.
"""

import cmath
import itertools
import random

import numpy as np

from . import terms as tm
from .terms import T

TOL = 1e-7


NPFUN = {"sort", "argsort", "unique", "searchsorted", "trace", "flip", "roll",
         "tile", "repeat", "triu", "tril", "nan_to_num", "where", "take",
         "clip", "delete", "insert", "append", "pad", "einsum", "tensordot",
         "flatnonzero", "swapaxes", "moveaxis", "interp", "vander",
         "argmax", "argmin", "gradient"}


class Weak(Exception):
    pass


def close(a, b, atol=1e-9):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, atol) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or (
            isinstance(a, (int, float, complex, np.number)) and
            isinstance(b, (int, float, complex, np.number))):
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            if a.dtype == object or b.dtype == object:
                return bool(np.all(a == b))
            if atol > 1e-9:
                a, b = np.nan_to_num(a), np.nan_to_num(b)
            return bool(np.allclose(a, b, rtol=TOL, atol=atol,
                                    equal_nan=True))
        except Exception:
            return False
    try:
        return bool(type(a) is type(b) and a == b)
    except Exception:
        return False


class Model:
    def __init__(self, seed=0, dims=None, force=None, fixed=None):
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.dims = dict(dims or {})
        self.fixed = dict(fixed or {})
        self.force = dict(force or {})
        self.memo = {}
        self.tab = {}
        self.syms = {}
        self.weak = False
        self.svd = False
        self.why = None
        self.invalid = False
        self.misfit = None
        self.atoms = {}

    def setweak(self, why):
        self.weak = True
        if self.why is None:
            self.why = why

    # ------------------------------------------------------------ helpers
    def shape(self, sh):
        if sh is None:
            return None
        out = []
        for d in sh:
            v = self.ev(d)
            try:
                v = int(round(float(np.real(v))))
            except Exception:
                return None
            out.append(max(v, 0))
        return tuple(out)

    def fresh(self, kind, shape, key=""):
        if kind == "bool" and shape in ((), None):
            return bool(self.rng.integers(2))
        if kind in ("int", "dim") and shape in ((), None):
            return int(self.rng.integers(2, 7))
        if kind in ("str", "none", "obj", "fn", "dict", "list", "tuple",
                    "set", "slice", "bytes"):
            return ("tok", key, float(self.rng.random()))
        if shape is None:
            return float(self.rng.uniform(0.3, 2.0))
        if kind == "bool" or kind == "mask":
            return self.rng.random(shape) < 0.6
        if shape == ():
            return float(self.rng.uniform(0.3, 2.0))
        return self.rng.uniform(0.3, 2.0, size=shape)

    def unint(self, key, args, kind, shape):
        """Random function, congruent in its (approximate) arguments."""
        sh = self.shape(shape)
        L = self.tab.setdefault((key, len(args)), [])
        for av, v in L:
            if all(close(x, y) for x, y in zip(av, args)):
                return v
        v = self.fresh(kind, sh, key)
        if key == "userprediction":
            # trajectories differ in size, and in size over time
            v = v * 10 ** (2 * self.rng.random(np.shape(v)) - 1) * 10 ** (
                1.5 * self.rng.random() - 1)
        L.append((args, v))
        return v

    def item(self, it, n):
        if it[0] == "s":
            g = [None if x is None else int(np.real(self.ev(x)))
                 for x in it[1:4]]
            return slice(*g)
        if it[0] == "i":
            v = self.ev(it[1])
            if isinstance(v, (float, complex)):
                if abs(v - round(np.real(v))) > 1e-9:
                    self.setweak("fractional index")
                v = int(round(np.real(v)))
            return v
        if it[0] == "new":
            return None
        if it[0] == "ell":
            return Ellipsis
        v = self.ev(it[1])
        v = np.asarray(v)
        if v.dtype == bool:
            return v
        if v.dtype.kind in "fc":
            r = np.real(v)
            if np.allclose(r, np.round(r)):
                return np.round(r).astype(int)
            return (np.floor(np.abs(r) * 1009).astype(int)) % max(int(n), 1)
        return v

    def index(self, a, idx):
        out, ax = [], 0
        for it in idx:
            if it[0] in ("new", "ell"):
                out.append(self.item(it, 1))
                continue
            n = a.shape[ax] if ax < a.ndim else 1
            out.append(self.item(it, n))
            ax += 1
        return tuple(out)

    def evt(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.evt(y) for y in x)
        return x

    # ------------------------------------------------------------ evaluator
    def ev(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._ev(t)
        self.memo[t] = r
        return r

    def cond(self, c):
        neg = False
        while c.op == "not":
            c = c.args[0]
            neg = not neg
        if c in self.force:
            v = self.force[c]
        elif c.op == "and":
            v = all(self.cond(x) for x in c.args)
        else:
            v = self.ev(c)
            try:
                v = bool(np.all(v)) if isinstance(v, np.ndarray) else bool(v)
            except Exception:
                v = bool(self.unint("cond", (v,), "bool", ()))
            self.atoms[c] = v
        return (not v) if neg else v

    def _ev(self, t):
        op = t.op
        if t.kind == "bool" and t.shape in ((), None) and t in self.force:
            return self.force[t]
        if op == "const":
            v = tm.cval(t)
            if v is None:
                return ("none",)
            if isinstance(v, str):
                return ("str", v)
            if isinstance(v, (bool, int, float)):
                return v
            return ("const", v)
        if op == "sym":
            name = t.args[0]
            if name in self.fixed:
                return self.fixed[name]
            if t.kind == "dim":
                if name not in self.dims:
                    self.dims[name] = int(self.rng.integers(2, 7))
                return self.dims[name]
            sh = self.shape(t.shape)
            r = random.Random("%s|%s|%s" % (self.seed, name, sh))
            g = np.random.default_rng(r.getrandbits(60))
            saved, self.rng = self.rng, g
            v = self.fresh(t.kind, sh, name)
            if str(name).startswith("pm:"):
                # of either sign
                v = np.where(self.rng.random(np.shape(v)) < 0.5, -v, v)
                v = v if sh else float(v)
            if str(name).startswith("wide:"):
                # of any order of magnitude
                v = v * 10 ** (5 * self.rng.random() - 1.5)
            if str(name).startswith("int:"):
                v = np.round(3 * np.real(v))
            self.rng = saved
            return v
        if t.opaque and not any(isinstance(a, T) and a.opaque
                                for a in t.args):
            self.setweak("opaque " + op)
        try:
            f = getattr(self, "op_" + op.replace("*", "_star"), None)
            if f is None and op[:3] == "np." and op[3:] in NPFUN:
                f = self.npcall
            if f is not None:
                with np.errstate(all="ignore"):
                    r = f(t)
                if r is not NotImplemented:
                    return r
        except (ValueError, IndexError, TypeError, ZeroDivisionError,
                AttributeError, OverflowError, np.linalg.LinAlgError) as ex:
            if not self.weak and isinstance(ex, (ValueError, IndexError)):
                self.misfit = self.misfit or "%s: %s" % (op, ex)
            self.setweak("%s: %s" % (op, ex))
            self.invalid = True
        if t.shape is None and t.kind in ("arr", None, "sparse"):
            # unknown shape: the random value is a scalar stand-in
            self.setweak_shape = True
        return self.unint(op, tuple(self.evt(a) for a in t.args), t.kind,
                          t.shape)

    def op_poly(self, t):
        tot = 0
        for m, c in t.args:
            term = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                v = self.num(self.ev(a))
                if e == int(e):
                    e = int(e)
                    if e < 0:
                        if np.size(v) and np.min(np.abs(v)) < 1e-11:
                            self.degenerate("division by zero")
                        term = term * (1.0 / np.asarray(v) ** (-e))
                    else:
                        term = term * (v ** e)
                else:
                    term = term * np.emath.power(v, float(e))
            tot = tot + term
        sh = self.shape(t.shape)
        if sh is not None and np.shape(tot) != sh:
            tot = np.broadcast_to(tot, sh)
        return tot

    def num(self, v):
        if isinstance(v, tuple):
            self.setweak("arithmetic on token")
            return self.unint("num", (v,), "float", ())
        return v

    def arr(self, a):
        v = self.ev(a) if isinstance(a, T) else a
        if isinstance(v, tuple):
            return np.asarray(self.num(v))
        return np.asarray(v)

    def npcall(self, t):
        args, kw, it = [], {}, iter(t.args)
        for a in it:
            v = tm.cval(a) if isinstance(a, T) and a.op == "const" else None
            if isinstance(v, str) and v.startswith("kw:"):
                kw[v[3:]] = self.native(next(it))
            else:
                args.append(self.native(a))
        return np.asarray(getattr(np, t.op[3:])(*args, **kw))

    def native(self, a):
        if isinstance(a, T) and a.op == "const":
            return tm.cval(a)
        v = self.evt(a)
        if isinstance(v, tuple):
            if v[:1] in (("tuple",), ("list",)):
                return [x for x in v[1:]]
            raise ValueError("token argument")
        return v

    def op_slen(self, t):
        n, lo, hi, stp = [None if a is tm.NONE else int(np.real(self.ev(a)))
                          for a in t.args]
        if n is None:
            return NotImplemented
        return len(range(n)[slice(lo, hi, stp)])

    def op_int(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple) or np.size(v) != 1:
            return NotImplemented
        return int(np.real(np.asarray(v).reshape(-1)[0]))

    def op_float(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple) or np.size(v) != 1:
            return NotImplemented
        return np.asarray(v).reshape(-1)[0]

    def op_item(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple) or np.size(v) != 1:
            return NotImplemented
        return np.asarray(v).reshape(-1)[0]

    def op_dia_array(self, t):
        d, o = self.arr(t.args[0]), self.arr(t.args[1])
        n, m = self.shape(t.shape)
        out = np.zeros((n, m))
        for row, k in zip(np.atleast_2d(d), o.reshape(-1)):
            for j in range(min(m, len(row))):
                if 0 <= j - int(k) < n:
                    out[j - int(k), j] += np.real(row[j])
        return out

    def op_svdS(self, t):
        sh = self.shape(t.shape)
        a = self.arr(t.args[0])
        v = np.linalg.svd(a, compute_uv=False)
        return v if sh == v.shape else NotImplemented

    def svd_(self, t):
        """numerical SVD; the signs of the singular vectors depend on the
        options (they are arbitrary)"""
        self.svd = True
        a = self.arr(t.args[0])
        fm = bool(self.ev(t.args[1]))
        if a.ndim != 2:
            return None
        U, s, V = np.linalg.svd(a, full_matrices=fm)
        n = max(a.shape)
        w = self.unint("svdsign", tuple(self.evt(x) for x in t.args[2:]) + (
            n,), "arr", None) if len(t.args) > 2 else 1.0
        g = np.random.default_rng(int(1e6 * w)).integers(0, 2, n) * 2 - 1
        return U * g[:U.shape[1]], V * g[:V.shape[0], None]

    def op_svdU(self, t):
        r = self.svd_(t)
        return NotImplemented if r is None or r[0].shape != self.shape(
            t.shape) else r[0]

    def op_svdVt(self, t):
        r = self.svd_(t)
        return NotImplemented if r is None or r[1].shape != self.shape(
            t.shape) else r[1]

    def eigh_(self, t):
        a = self.arr(t.args[0])
        if a.ndim != 2 or a.shape[0] != a.shape[1] or not np.allclose(
                a, np.conj(a.T)) or len(t.args) > 1:
            return None
        self.svd = True
        w, V = np.linalg.eigh(a)
        # what is exactly zero comes out as a rounding error
        w = np.where(np.abs(w) < 1e-12 * np.abs(w).max(), 0.0, w)
        # the signs are arbitrary, but rounding errors do not change them
        g = np.random.default_rng(8).random(len(w)) @ V
        return w, V * np.where(g < 0, -1.0, 1.0)

    def op_eighW(self, t):
        r = self.eigh_(t)
        return NotImplemented if r is None else r[0]

    def op_eighV(self, t):
        r = self.eigh_(t)
        return NotImplemented if r is None else r[1]

    def op_lstsq(self, t):
        A, B = self.arr(t.args[0]), self.arr(t.args[1])
        sh = self.shape(t.shape)
        if A.ndim != 2 or B.ndim not in (1, 2) or len(A) != len(B):
            return NotImplemented
        opts = [(k, v) for k, v in zip(t.args[2::2], t.args[3::2])
                if v is not tm.NONE]
        B2 = B.reshape(len(B), -1)
        if not opts:
            c = np.linalg.svd(A, compute_uv=False)
            if c.min() < 1e-7 * c.max():
                self.degenerate("nearly rank-deficient system")
            X = np.linalg.lstsq(A, B2, rcond=None)[0]
        else:
            o = tuple(self.evt(x) for kv in opts for x in kv)
            d = tm.const(A.shape[1])
            X = np.column_stack([self.unint("lstsq", (A, b) + o, "arr", (d,))
                                 for b in B2.T])
        X = X.reshape((A.shape[1],) + B.shape[1:])
        return X if X.shape == sh else NotImplemented

    def op_cond(self, t):
        a = self.arr(t.args[0])
        return float(np.linalg.cond(a)) if a.ndim == 2 else NotImplemented

    def op_norm(self, t):
        a = self.arr(t.args[0])
        o, ax, k = [self.ev(x) for x in t.args[1:4]]
        if isinstance(o, (int, float)) and not isinstance(o, bool) and (
                ax is None or isinstance(ax, (int, float))):
            if ax is None and a.ndim != 1:
                return NotImplemented
            return np.linalg.norm(a, o, None if ax is None else int(ax),
                                  bool(k))
        return NotImplemented

    def op_inf(self, t):
        if not t.args:
            return float("inf")
        return np.full(self.shape(t.shape), np.inf)

    def op_nan(self, t):
        if not t.args:
            return float("nan")
        return np.full(self.shape(t.shape), np.nan)

    def op_pi(self, t):
        return float(np.pi)

    def op_pow(self, t):
        return np.emath.power(self.num(self.ev(t.args[0])),
                              self.num(self.ev(t.args[1])))

    def op_floordiv(self, t):
        return self.num(self.ev(t.args[0])) // self.num(self.ev(t.args[1]))

    def op_mod(self, t):
        return self.num(self.ev(t.args[0])) % self.num(self.ev(t.args[1]))

    def op_binom(self, t):
        import math
        return math.comb(int(self.ev(t.args[0])), int(self.ev(t.args[1])))

    def op_eqz(self, t):
        v = self.num(self.ev(t.args[0]))
        return bool(np.all(np.abs(v) < 1e-9))

    def op_eq(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, tuple) or isinstance(b, tuple):
            return close(a, b)
        r = np.isclose(a, b)
        return bool(r) if np.ndim(r) == 0 else r

    def op_lt(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, tuple) or isinstance(b, tuple):
            return NotImplemented
        r = np.real(a) < np.real(b)
        return bool(r) if np.ndim(r) == 0 else r

    def op_le(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, tuple) or isinstance(b, tuple):
            return NotImplemented
        r = np.real(a) <= np.real(b)
        return bool(r) if np.ndim(r) == 0 else r

    def op_not(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple):
            return NotImplemented
        return ~v if isinstance(v, np.ndarray) else not v

    def op_and(self, t):
        return all(self.cond(x) for x in t.args)

    def op_phi(self, t):
        return self.ev(t.args[1] if self.cond(t.args[0]) else t.args[2])

    def op_T(self, t):
        return self.arr(t.args[0]).T

    def op_col(self, t):
        return self.arr(t.args[0])[..., None]

    def op_row(self, t):
        return self.arr(t.args[0])[None]

    def op_flat(self, t):
        return self.arr(t.args[0]).reshape(-1)

    def op_squeeze(self, t):
        return np.squeeze(self.arr(t.args[0]))

    def op_reshape(self, t):
        return self.arr(t.args[0]).reshape(
            tuple(int(self.ev(d)) for d in t.args[1]))

    def op_permute(self, t):
        return np.transpose(self.arr(t.args[0]),
                            tuple(int(self.evt(d)) for d in t.args[1]))

    def op_bcast(self, t):
        return np.broadcast_to(self.arr(t.args[0]), self.shape(t.args[1]))

    def op_full(self, t):
        return np.full(self.shape(t.shape), self.num(self.ev(t.args[0])))

    def op_empty(self, t):
        return np.full(self.shape(t.shape), 0.123)

    def op_eye(self, t):
        return np.eye(int(self.ev(t.args[0])), int(self.ev(t.args[1])))

    def op_arange(self, t):
        return np.arange(*[self.num(self.ev(a)) for a in t.args])

    def op_trunc(self, t):
        return np.trunc(np.real(self.arr(t.args[0])))

    def op_gradient(self, t):
        f, g = self.arr(t.args[0]), self.arr(t.args[1])
        if g.ndim == 0:
            g = g[()]
        return np.gradient(f, g, axis=int(tm.cval(t.args[2])),
                           edge_order=int(tm.cval(t.args[3])))

    def op_linspace(self, t):
        return NotImplemented

    def op_concat(self, t):
        return np.concatenate([self.arr(a) for a in t.args[1:]],
                              axis=tm.cval(t.args[0]))

    def op_array(self, t):
        return np.array([self.arr(a) for a in t.args])

    def op_astype(self, t):
        d = t.args[1]
        nm = tm.show(d, 2)
        if "int" in nm or "float" in nm:
            v = self.arr(t.args[0])
            if "float" in nm:
                return v.astype(float)
            if np.iscomplexobj(v):
                return NotImplemented
            r = np.round(v)
            return np.where(np.abs(v - r) < 1e-9, r, np.trunc(v)).astype(int)
        return NotImplemented

    def op_dense(self, t):
        return self.arr(t.args[0])

    def op_spmatrix(self, t):
        return self.arr(t.args[0])

    def op_csr_array(self, t):
        return self.arr(t.args[0])

    def op_getitem(self, t):
        a = self.arr(t.args[0])
        r = a[self.index(a, t.args[1])]
        return r

    def op_setitem(self, t):
        a = np.array(self.arr(t.args[0]))
        v = self.arr(t.args[2])
        if v.dtype.kind == "c":
            a = a.astype(complex)
        elif a.dtype.kind in "ib":
            a = a.astype(float)
        a[self.index(a, t.args[1])] = v
        return a

    def op_mm(self, t):
        r = self.arr(t.args[0])
        for a in t.args[1:]:
            r = r @ self.arr(a)
        return r

    def op_thinQ(self, t):
        return np.linalg.qr(self.arr_(self.ev(t.args[0])))[0]

    def op_thinR(self, t):
        return np.linalg.qr(self.arr_(self.ev(t.args[0])))[1]

    def op_allclose(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        return bool(np.allclose(self.arr_(a), self.arr_(b)))

    def arr_(self, a):
        if isinstance(a, tuple) or a is None:
            raise TypeError("arithmetic on token")
        return np.asarray(a)

    def op_inverse(self, t):
        a = self.arr(t.args[0])
        if np.linalg.cond(a) > 1e10:
            self.degenerate("singular matrix")
        return np.linalg.inv(a)

    def degenerate(self, why):
        """the sizes chosen make the data degenerate; a difference in this
        trial means nothing"""
        self.invalid = True
        self.why = self.why or why

    def op_diag(self, t):
        return np.diag(self.arr(t.args[0]).reshape(-1))

    def op_diagonal(self, t):
        return np.diagonal(self.arr(t.args[0]))

    def op_outer(self, t):
        return np.outer(self.arr(t.args[0]), self.arr(t.args[1]))

    def op_kron(self, t):
        return np.kron(self.arr(t.args[0]), self.arr(t.args[1]))

    def op_khatri_rao(self, t):
        a, b = self.arr(t.args[0]), self.arr(t.args[1])
        return np.einsum("ij,kj->ikj", a, b).reshape(-1, a.shape[1])

    def op_block_diag(self, t):
        ms = [np.atleast_2d(self.arr(a)) for a in t.args]
        n = sum(m.shape[0] for m in ms)
        k = sum(m.shape[1] for m in ms)
        out = np.zeros((n, k), dtype=complex if any(
            m.dtype.kind == "c" for m in ms) else float)
        i = j = 0
        for m in ms:
            out[i:i + m.shape[0], j:j + m.shape[1]] = m
            i, j = i + m.shape[0], j + m.shape[1]
        return out

    def _red(self, t, f):
        a = self.arr(t.args[0])
        ax = self.ev(t.args[1]) if len(t.args) > 1 else ("none",)
        if ax == ("none",):
            ax = None
        elif isinstance(ax, tuple):
            ax = tuple(int(x) for x in ax)
        else:
            ax = int(ax)
        keep = len(t.args) > 2 and t.args[2] is tm.TRUE
        r = f(a, axis=ax, keepdims=keep)
        return r

    def _arg(self, t, f):
        a, x = self.arr(t.args[0]), t.args[1:]
        if len(x) > 1 and x[1] is tm.TRUE:
            return NotImplemented
        ax = self.ev(x[0]) if x else ("none",)
        r = f(np.real(a), axis=None if ax == ("none",) else int(ax))
        return r if np.ndim(r) else int(r)

    def op_argmin(self, t):
        return self._arg(t, np.argmin)

    def op_argmax(self, t):
        return self._arg(t, np.argmax)

    def op_sum(self, t):
        return self._red(t, np.sum)

    def op_mean(self, t):
        return self._red(t, np.mean)

    def op_std(self, t):
        return self._red(t, np.std)

    def op_var(self, t):
        return self._red(t, np.var)

    def op_prod(self, t):
        return self._red(t, np.prod)

    def op_max(self, t):
        return self._red(t, lambda a, **k: np.max(np.real(a), **k))

    def op_min(self, t):
        return self._red(t, lambda a, **k: np.min(np.real(a), **k))

    def op_all(self, t):
        r = self._red(t, np.all)
        return bool(r) if np.ndim(r) == 0 else r

    def op_any(self, t):
        r = self._red(t, np.any)
        return bool(r) if np.ndim(r) == 0 else r

    def op_count(self, t):
        return int(np.count_nonzero(self.arr(t.args[0])))

    def op_min_star(self, t):
        return min(self.num(self.ev(a)) for a in t.args)

    def op_max_star(self, t):
        return max(self.num(self.ev(a)) for a in t.args)

    def op_tuple(self, t):
        return tuple(["tuple"] + [self.evt(a) for a in t.args])

    def op_list(self, t):
        return tuple(["list"] + [self.evt(a) for a in t.args])

    def op_dict(self, t):
        prs = list(zip(t.args[0::2], t.args[1::2]))
        if len(t.args) % 2:
            return NotImplemented
        return ("dict",) + tuple(sorted(
            ((repr(self.evt(k)), self.evt(v)) for k, v in prs),
            key=lambda p: p[0]))

    def op_inst(self, t):
        return ("inst",) + tuple(self.evt(a) for a in t.args)

    def op_fn(self, t):
        return ("fn",) + tuple(self.evt(a) for a in t.args)

    def op_size(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple):
            return NotImplemented
        return int(np.size(v))

    def op_ndim(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple):
            return NotImplemented
        return int(np.ndim(v))

    def op_shape(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, tuple) or np.ndim(v) == 0:
            return NotImplemented
        return ("tuple",) + tuple(np.shape(v))

    def op_diff(self, t):
        return np.diff(self.arr(t.args[0]), int(self.ev(t.args[1])),
                       axis=int(self.ev(t.args[2])))

    def op_cumsum(self, t):
        ax = self.ev(t.args[1]) if len(t.args) > 1 else ("none",)
        return np.cumsum(self.arr(t.args[0]),
                         axis=None if ax == ("none",) else int(ax))

    def _ew(name, f):
        def g(self, t):
            vs = [self.ev(a) for a in t.args]
            if any(isinstance(v, tuple) for v in vs):
                return NotImplemented
            r = f(*vs)
            return r
        return g

    op_exp = _ew("exp", np.exp)
    op_log = _ew("log", np.emath.log)
    op_log10 = _ew("log10", np.emath.log10)
    op_log2 = _ew("log2", np.emath.log2)
    op_sin = _ew("sin", np.sin)
    op_cos = _ew("cos", np.cos)
    op_abs = _ew("abs", np.abs)
    op_sign = _ew("sign", lambda a: np.sign(np.real(a)))
    op_maximum = _ew("maximum", lambda a, b: np.maximum(np.real(a),
                                                        np.real(b)))
    op_minimum = _ew("minimum", lambda a, b: np.minimum(np.real(a),
                                                        np.real(b)))
    op_isnan = _ew("isnan", np.isnan)
    op_isinf = _ew("isinf", np.isinf)
    op_isfinite = _ew("isfinite", np.isfinite)


class Result:
    def __init__(self, verdict, detail=""):
        self.verdict, self.detail = verdict, detail


def dimsyms(*ts):
    out = {}
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "sym" and x.kind == "dim":
                out[x.args[0]] = x
    return out


def _atoms(ts):
    """conditions on which either term branches"""
    out = []
    seen = set()
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "phi":
                stack = [x.args[0]]
                while stack:
                    c = stack.pop()
                    while c.op == "not":
                        c = c.args[0]
                    if c.op == "and":
                        stack.extend(c.args)
                    elif c.op == "allclose":
                        pass      # decided by the values themselves
                    elif c.uid not in seen:
                        seen.add(c.uid)
                        out.append(c)
    return out


def _dimchoices(names, ts, trials):
    """several assignments of the dimension symbols; constants that the terms
    compare dimensions against are hit from both sides"""
    consts, compared = set(), set()
    for t in ts:
        for x in tm.subterms(t):
            if x.op in ("eqz", "lt", "le", "eq", "min", "max"):
                for y in tm.subterms(x):
                    if y.op == "sym" and y.kind == "dim":
                        compared.add(y.args[0])
                    if y.op == "const" and y.args[0] == "n" and \
                            0 < abs(y.args[1]) <= 40 and \
                            y.args[1].denominator == 1:
                        consts.add(abs(int(y.args[1])))
                    if y.op == "poly":
                        for m, c in y.args:
                            if not m and c.denominator == 1 and \
                                    0 < abs(c) <= 40:
                                consts.add(abs(int(c)))
    names = sorted(names)
    base = [dict(zip(names, itertools.cycle(p))) for p in
            ([5, 4, 3, 2, 7, 6], [3, 6, 2, 5, 4], [1, 5, 4, 2], [2, 1, 3],
             [4, 9, 5, 3, 2])][:trials]
    for c in sorted(consts)[:6]:
        for nm in names[:6]:
            for v in (c, c + 1, c - 1):
                if v >= 1:
                    d = dict(base[0])
                    d[nm] = v
                    base.append(d)
    if len(compared) > 1:
        # dimensions on both sides of each other and of small constants
        cmp_ = sorted(compared)[:4]
        for p in itertools.product((3, 8), repeat=len(cmp_)):
            base.append(dict(base[0], **dict(zip(cmp_, p))))
        rng = random.Random(5)
        for _ in range(4):
            base.append({nm: rng.choice((2, 3, 5, 6, 7, 9)) for nm in names})
    return base


def _plausible(dims):
    """Reduced dimensions (r...) are smaller than full ones (n...)."""
    n = [v for k, v in dims.items() if k[:1] == "n"]
    r = [v for k, v in dims.items() if k[:1] == "r"]
    return not n or not r or max(r) < min(n)


def _arithmetic(c):
    """Inequalities of numbers cannot be assumed at will: two of them may
    contradict each other, and both outcomes occur in random models if they
    are possible (equalities do not)."""
    return c.op in ("lt", "le") or c.op[:4] == "user"


def _natural(a, b, dims, fixed, facts, tries=60):
    """a random model of all the conditions in which the terms differ"""
    names = dimsyms(a, b)
    choices = [dims] if dims else _dimchoices(names, (a, b), 5)
    need = [(c, v) for c, v in facts.items() if _arithmetic(c)]
    force = {c: v for c, v in facts.items() if not _arithmetic(c)}
    seen, equal = [0] * len(need), 0
    for i in range(tries):
        m = Model(1000 + i, choices[i % len(choices)], force, fixed)
        try:
            holds = [m.cond(c) is v for c, v in need]
            va, vb = m.ev(a), m.ev(b)
        except RecursionError:
            break
        if m.invalid or m.weak:
            continue
        seen = [n + h for n, h in zip(seen, holds)]
        if close(va, vb, 1e-6 if m.svd else 1e-9):
            equal += 1
        elif all(holds):
            return Result("ne", "differ in a random model with %s" % ", ".join(
                "%s=%s" % kv for kv in sorted(m.dims.items())))
    if equal > tries // 2 and min(seen) >= 3:
        # each occurs, never all together, and the terms agree throughout
        return Result("eq", "the conditions exclude each other")
    return Result("unknown", "no model of the conditions assumed (%s of %d, "
                  "%d equal)" % (seen, tries, equal))


def compare(a, b, dims=None, trials=3, force=None, maxatoms=6, fixed=None,
            need=None, holds=None, top=None):
    """'eq' | 'ne' | 'unknown' for two terms."""
    if a is b:
        return Result("eq", "identical normal forms")
    names = dimsyms(a, b)
    choices = [dims] if dims else _dimchoices(names, (a, b), trials)
    if holds is not None and not dims:
        big, small = itertools.count(7), itertools.cycle((2, 3, 1))
        choices.append({x: next(big) if x[:1] == "n" else next(small)
                        for x in names})
    if top is None and not force and need is None and any(
            x.op == "sym" and str(x.args[0])[:5] == "wide:"
            for y in (a, b) for x in tm.subterms(y)):
        # numbers of any magnitude are there to make conditions true or not
        choices = list(choices) + [choices[i % len(choices)]
                                   for i in range(150)]
    weak = bad = misfit = None
    n = 0
    for i, d in enumerate(choices):
        m = Model(11 + i, d, force, fixed)
        try:
            if need is not None and not all(m.cond(c) is v for c, v in need):
                # outside the assumed path
                m2 = dict(force or {})
                continue
            va, vb = m.ev(a), m.ev(b)
        except RecursionError:
            return Result("unknown", "term too deep")
        n += 1
        # (what is exactly zero comes out as rounding errors, or as the root
        # of a negative one, when singular vectors are computed)
        if not close(va, vb) and not (m.svd and close(va, vb, 1e-6)):
            if m.invalid:
                n -= 1
                bad = m.why
                if m.misfit and holds is not None and misfit is None \
                        and _plausible(m.dims):
                    # the second term makes sense here: does the first?
                    m2 = Model(11 + i, d, force, fixed)
                    try:
                        m2.ev(b)
                        if not (m2.weak or m2.invalid) and all(
                                m2.cond(c) is v for c, v in holds) and \
                                not (m2.weak or m2.invalid):
                            misfit = "arrays do not fit (%s) with %s" % (
                                m.misfit, ", ".join(
                                    "%s=%s" % kv for kv in
                                    sorted(m.dims.items())))
                    except RecursionError:
                        pass
                continue
            if m.weak:
                weak = m.why
                continue
            return Result("ne", "differ in a random model with %s" % (
                ", ".join("%s=%s" % kv for kv in sorted(m.dims.items()))))
    if misfit is not None:
        return Result("ne", misfit)
    if weak is not None:
        return Result("unknown", weak)
    if n == 0:
        return Result("unknown", bad or "no model of the path condition")
    # every combination of branch conditions
    atoms = [c for c in _atoms((a, b)) if c not in (force or {})
             and not any(x.kind == "dim" for x in tm.subterms(c))
             and any(x.op in ("sym", "opaque") or x.opaque
                     for x in tm.subterms(c))]
    if atoms and maxatoms:
        c = atoms[0]
        for v in (True, False):
            f = dict(force or {})
            f[c] = v
            aa, bb = tm.assume_term(a, f), tm.assume_term(b, f)
            r = compare(aa, bb, dims, 1, f, maxatoms - 1, fixed,
                        top=top or (a, b))
            if r.verdict != "eq" and any(map(_arithmetic, f)):
                # may the assumed conditions hold together at all?
                r = _natural(*(top or (a, b)), dims, fixed, f)
                if r.verdict == "ne":
                    return r
            if r.verdict == "ne":
                return Result("ne", r.detail + " when " + (
                    "" if v else "not ") + tm.show(c, 3))
            if r.verdict == "unknown":
                weak = r.detail
    if weak is not None:
        return Result("unknown", weak)
    return Result("eq", "equal in every random model tried")
