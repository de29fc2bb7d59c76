"""Models of Python builtins, numpy/scipy, h5py and the standard library.

Each model maps abstract arguments to an abstract result (a term over the
arguments), records effects (in-place writes, file operations, process-global
changes) and the exceptions the library documents.  Library functions without
a model become opaque terms, which a query never judges.
"""

import builtins as _b
import itertools as _it
from fractions import Fraction

from . import terms as tm
from .terms import T, const, mk, opaque, sym, NONE, TRUE, FALSE, ZERO, ONE
from .values import (Val, Ref, Tup, Phi, Func, Bound, ClassVal, Ext, Mod,
                     Method, Prop, ClassMethod, StaticMethod, SuperV, SliceV,
                     RangeV, SymIter, PyFn, Inst, Opq, Lst, Dct, SetO, Arr,
                     Env, H5, DS, same, same_seq)

EXT = {}
ARRAY_ATTRS = set("shape ndim T size dtype flat real imag copy reshape ravel "
                  "flatten astype sum mean min max std all any prod cumsum "
                  "transpose dot sort fill item tolist argmax argmin squeeze "
                  "conj __len__ __getitem__ __iter__ __array__ __add__ __mul__ "
                  "__matmul__ nbytes var round clip repeat".split())

CANON = {"numpy": "np", "scipy.linalg": "la", "numpy.linalg": "la",
         "np.linalg": "la", "scipy.sparse": "sparse",
         "scipy.integrate": "spint", "scipy.interpolate": "spinterp",
         "scipy.special": "special", "scipy.optimize": "opt",
         "scipy.stats": "stats", "matplotlib.pyplot": "plt"}


def canon(name):
    parts = name.split(".")
    for k in range(len(parts), 0, -1):
        head = ".".join(parts[:k])
        if head in CANON:
            return canon(".".join([CANON[head]] + parts[k:])) \
                if CANON[head] + "." + "".join(parts[k:]) != name else name
    return name


def builtin(name):
    if name == "NotImplemented":
        return Ext("NotImplemented")
    if hasattr(_b, name):
        return Ext("builtins." + name)
    return None


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


class _Missing:
    pass


MISSING = _Missing()


_DEF = {"None": NONE, "True": TRUE, "False": FALSE, "0": ZERO, "1": ONE}


def P(eng, st, args, kwargs, spec, fname="function"):
    """Bind external-call arguments: spec 'a b=None *rest'."""
    out = []
    kw = dict(kwargs)
    args = list(args)
    names = spec.split()
    for i, nm in enumerate(names):
        if nm.startswith("*"):
            out.append(args)
            args = []
            continue
        req = "=" not in nm
        key = nm.split("=")[0]
        if args:
            out.append(args.pop(0))
        elif key in kw:
            out.append(kw.pop(key))
        elif req:
            eng.raise_exc(st, "TypeError", "missing argument %s of %s" % (
                key, fname))
        else:
            d = nm.split("=")[1]
            out.append(_DEF[d] if d in _DEF else const(
                int(d) if d.lstrip("-").isdigit() else d))
    out.append(kw)
    return out


def ct(t):
    """python value of a constant term or None"""
    return tm.cval(t) if isinstance(t, T) and tm.is_const(t) else None


def allc(ts):
    return all(isinstance(t, T) and tm.is_const(t) for t in ts)


# ----------------------------------------------------------------- dispatch
def call_ext(eng, st, name, args, kwargs):
    args = [eng.phival(st, a) for a in args]
    kwargs = {k: eng.phival(st, v) if isinstance(v, Val) or isinstance(v, T)
              else v for k, v in kwargs.items()}
    if args and isinstance(args[0], Ref) and isinstance(
            st.get(args[0]), Lst) and st.get(args[0]).sym is not None:
        alt = eng.altlist(st, args[0])
        if alt is not None:
            alt = eng.phival(st, alt)

            def go(s, a):
                a = eng.phival(s, a)
                return eng.split(s, a, go) if isinstance(a, Phi) else \
                    call_ext(eng, s, name, [a] + args[1:], kwargs)
            return go(st, alt)
    f = EXT.get(name)
    short = name.split(".")[-1]
    if f is None and name.startswith("builtins.") and hasattr(_b, short):
        cls = getattr(_b, short)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return eng.make_exc(st, short, args)
    if f is not None and kwargs and any(k.startswith(
            "overwrite_") for k in kwargs):
        keep = {k: v for k, v in kwargs.items()
                if not k.startswith("overwrite_")}
        r = f(eng, st, args, keep)
        clobber(eng, st, args, kwargs)
        kwargs = keep
        eng.event(st, "ext", name, args, kwargs, result=r)
        return r
    if f is not None:
        r = f(eng, st, args, kwargs)
        if not name.startswith("builtins."):
            eng.event(st, "ext", name, args, kwargs, result=r)
            if "out" in kwargs and isinstance(kwargs["out"], Ref):
                eng.store_arr(st, kwargs["out"], eng.term(st, r), "out=")
                return kwargs["out"]
        return r
    if short.endswith(("Error", "Exception")) or short == "LinAlgError":
        return eng.make_exc(st, short, args)
    eng.event(st, "ext", name, args, kwargs)
    ts = eng.targs(st, args, kwargs)
    eng.maybe_raise(st, name)
    for k, v in kwargs.items():
        if k == "out" and isinstance(v, Ref):
            eng.store_arr(st, v, opaque("ext:" + name, *ts), "out=")
            return v
    return eng.wrap(st, opaque("ext:" + name, *ts))


def clobber(eng, st, args, kwargs):
    """scipy's overwrite_a=, overwrite_b=: the operand is scratch space"""
    for k, v in kwargs.items():
        if not k.startswith("overwrite_") or eng.term(st, v) is FALSE:
            continue
        i = 1 if k == "overwrite_b" else 0
        x = args[i] if len(args) > i else kwargs.get("ab"[i])
        for y in ((x.a, x.b) if isinstance(x, Phi) else (x,)):
            if isinstance(y, Ref) and eng.isarr(st, y):
                c = eng.term(st, y)
                eng.store_arr(st, y, mk("clobbered", c, shape=c.shape,
                                        kind="arr"), k)


EXT_CONST = {
    "np.inf": lambda: const(float("inf")), "np.nan": lambda: const(
        float("nan")), "np.pi": lambda: mk("pi", shape=(), kind="float"),
    "math.pi": lambda: mk("pi", shape=(), kind="float"),
    "math.inf": lambda: const(float("inf")),
}
DTYPES = {"np.float64", "np.int64", "np.float32", "np.int32", "np.intp",
          "np.bool_", "np.complex128"}


def ext_attr(eng, st, e, name):
    full = canon(e.name + "." + name)
    if full in EXT_CONST:
        return EXT_CONST[full]()
    if name == "__name__":
        return const(e.name.split(".")[-1])
    if name == "__doc__":
        return const("doc")
    if name == "__module__":
        return const(".".join(e.name.split(".")[:-1]))
    if full == "np.newaxis":
        return NONE
    if full == "sys.stdout":
        eng.event(st, "globalread", full)
        return getglobal(eng, st, full)
    return Ext(full)


def _globals(eng, st):
    ref = getattr(eng, "_globref", None)
    if ref is None:
        ref = eng.alloc(eng.base_state, Dct())
        eng._globref = ref
    return ref


def getglobal(eng, st, name):
    d = st.get(_globals(eng, st))
    k = ("str", name)
    if k in d.items:
        return d.items[k][1]
    return sym("global:" + name, "obj")


def setglobal(eng, st, name, v):
    eng.event(st, "setglobal", name, [v])
    st.mut(_globals(eng, st)).items[("str", name)] = (const(name), v)


# ----------------------------------------------------------------- isinstance
KINDS = {
    "builtins.int": ("int", "dim", "bool"), "builtins.float": ("float",),
    "builtins.str": ("str",), "builtins.bool": ("bool",),
    "numbers.Number": ("int", "float", "dim", "bool"),
    "numbers.Real": ("int", "float", "dim", "bool"),
    "numbers.Integral": ("int", "dim", "bool"),
    "np.integer": (), "np.floating": (), "np.bool_": (),
    "builtins.complex": (),
}
DEFKIND = {"int", "float", "str", "bool", "dim", "none", "arr", "sparse",
           "list", "dict", "tuple", "set", "fn", "slice"}


def isinstance_ext(eng, st, v, o, cname):
    if cname == "builtins.object":
        return TRUE
    if isinstance(v, T):
        if v.kind == "scalar" and cname == "numbers.Number":
            return TRUE
        if v.kind in DEFKIND:
            if cname in KINDS:
                if v.kind == "arr":
                    return FALSE
                return const(v.kind in KINDS[cname])
            if cname == "np.ndarray":
                return const(v.kind == "arr")
            if cname.startswith("sparse."):
                if v.kind == "sparse":
                    return isinst_sparse(v, cname)
                return FALSE
            for c, k in (("list", "list"), ("tuple", "tuple"),
                         ("dict", "dict"), ("set", "set")):
                if cname == "builtins." + c:
                    return const(v.kind == k)
            return FALSE
        if cname in ("h5py.HLObject", "h5py.Group", "h5py.File",
                     "types.FunctionType", "builtins.list",
                     "builtins.tuple", "builtins.dict", "builtins.str",
                     "builtins.int", "np.ndarray",
                     "numbers.Number") or True:
            return mk("isinstance", v, const(cname), kind="bool", shape=())
    if isinstance(v, Tup):
        return const(cname in ("builtins.tuple",))
    if isinstance(v, RangeV):
        return const(cname == "builtins.range")
    if isinstance(v, (Func, Bound, PyFn)):
        return const(cname in ("typing.Callable",
                               "collections.abc.Callable") or
                     (cname == "types.FunctionType" and not isinstance(
                         v, Bound)) or (cname == "types.MethodType" and isinstance(v, Bound)))
    if isinstance(v, (ClassVal, Ext)):
        return const(cname == "builtins.type")
    if isinstance(v, SliceV):
        return const(cname == "builtins.slice")
    if isinstance(o, Lst):
        return const(cname == "builtins.list")
    if isinstance(o, Dct):
        return const(cname == "builtins.dict" or (
            cname == "types.MappingProxyType" and o.frozen is True))
    if isinstance(o, SetO):
        return const(cname in ("builtins.set", "builtins.frozenset"))
    if isinstance(o, Arr):
        c = eng.content(st, o)
        if c.kind == "sparse":
            return isinst_sparse(c, cname)
        return const(cname == "np.ndarray")
    if isinstance(o, H5):
        if cname == "h5py.HLObject":
            return TRUE
        if cname == "h5py.Group":
            return const(o.kind in ("group", "file"))
        if cname == "h5py.File":
            return const(o.kind == "file")
        return FALSE
    if isinstance(o, DS):
        return const(cname in ("h5py.Dataset", "h5py.HLObject"))
    if isinstance(o, Inst):
        if cname.split(".")[-1] in ("Exception", "BaseException") and any(
                c.module == "builtins" for c in o.cls.mro):
            return TRUE
        short = cname.split(".")[-1]
        if any(c.module == "builtins" and c.name == short
               for c in o.cls.mro):
            return TRUE
        return FALSE
    if isinstance(o, Opq):
        if o.isa:
            return FALSE
        return mk("isinstance", o.state, const(cname), kind="bool", shape=())
    return mk("isinstance", eng.term(st, v), const(cname), kind="bool",
              shape=())


def isinst_sparse(t, cname):
    if cname in ("sparse.sparray", "sparse.spmatrix"):
        return const((cname == "sparse.sparray") != (t.op == "spmatrix"))
    if cname.endswith("_array") or cname.endswith("_matrix"):
        fmt = cname.split(".")[-1].split("_")[0]
        from .interp import sparse_format
        f = sparse_format(t.args[0] if t.op == "spmatrix" else t)
        if f.op == "const":
            return const(f is const(fmt) and cname.endswith("_matrix") == (
                t.op == "spmatrix"))
        return mk("isformat", t, const(fmt), kind="bool", shape=())
    return FALSE


# ----------------------------------------------------------------- dict/list
def key(eng, st, kv):
    kv = eng.phival(st, kv)
    if isinstance(kv, T):
        if tm.is_const(kv):
            return (kv.kind if kv.kind != "dim" else "int", tm.cval(kv))
        return ("t", kv.uid)
    if isinstance(kv, Tup):
        return ("tup",) + tuple(key(eng, st, x) for x in kv.items)
    if isinstance(kv, Ref):
        o = st.get(kv)
        if isinstance(o, (Lst, Dct, SetO)) or (isinstance(o, Arr)):
            eng.raise_exc(st, "TypeError", "unhashable")
        return ("ref", kv.addr)
    if isinstance(kv, ClassVal):
        return ("cls", kv.qualname)
    if isinstance(kv, Ext):
        return ("ext", kv.name)
    return ("id", id(kv))


def dict_set(eng, st, d, kv, v):
    o = st.get(d)
    if o.frozen is True:
        eng.raise_exc(st, "TypeError", "mappingproxy")
    eng.event(st, "mutate", "dict item", [d], extra=d.addr)
    kv = eng.phival(st, kv)
    if isinstance(kv, Phi) or isinstance(kv, T) and not tm.is_const(kv):
        t = eng.term(st, d)
        if not o.items and o.sym is None or ("t", getattr(
                kv, "uid", 0)) in o.items or all(
                    k[0] == "t" for k in o.items):
            st.mut(d).items[key(eng, st, kv)] = (kv, v)
            return
        m = st.mut(d)
        m.sym = opaque("dset", t, eng.term(st, kv), eng.term(st, v),
                       kind="dict")
        m.items = {}
        return
    st.mut(d).items[key(eng, st, kv)] = (kv, v)


def dict_get(eng, st, d, kv, default=None):
    o = st.get(d)
    k = key(eng, st, kv)
    if k in o.items:
        v = o.items[k][1]
        v = eng.phival(st, v)
        from .interp import UNSET
        if isinstance(v, Phi) and (v.a is UNSET or v.b is UNSET):
            def pick(s, alt):
                if alt is UNSET:
                    if default is not None:
                        return default
                    eng.raise_exc(s, "KeyError", str(k))
                return alt
            return eng.split(st, v, pick)
        if v is UNSET:
            if default is not None:
                return default
            eng.raise_exc(st, "KeyError", str(k))
        return v
    t = eng.term(st, kv) if not isinstance(kv, (ClassVal, Ext)) else None
    if o.sym is None and (t is None or tm.is_const(t)) and not any(
            q[0] == "t" for q in o.items):
        if default is not None:
            return default
        if o.factory is not None:
            v = eng.call(o.factory, [], {}, st)
            dict_set(eng, st, d, kv, v)
            return v
        eng.raise_exc(st, "KeyError", str(k))
    if o.sym is None and t is not None and not tm.is_const(t) and o.items:
        # symbolic key: one of the entries, or KeyError
        alts = list(o.items.values())
        c = eng.contains(st, kv, d)
        kn = st.known(c)
        if kn is not True:
            s2 = st.fork(c, False)
            if default is None:
                eng.raises(s2, eng.make_exc(s2, "KeyError", []))
                st.learn(c, True)
        r = None
        for kk, vv in reversed(alts):
            if r is None:
                r = vv
            else:
                r = eng.mergeval(eng.truth(st, eng.equal(st, kv, kk)), vv, r)
        if default is not None and kn is not True:
            r = eng.mergeval(c, r, default)
        return r
    base = o.sym if o.sym is not None else eng.term(st, d)
    return eng.wrap(st, mk("item", base, eng.term(st, kv)))


def dict_update(eng, st, d, other):
    other = eng.phival(st, other)
    if isinstance(other, Ref) and isinstance(st.get(other), Dct):
        oo = st.get(other)
        eng.event(st, "mutate", "dict update", [d], extra=d.addr)
        m = st.mut(d)
        m.items.update(oo.items)
        if oo.sym is not None:
            m.sym = oo.sym if m.sym is None else opaque(
                "dmerge", m.sym, oo.sym, kind="dict")
        return
    eng.event(st, "mutate", "dict update", [d], extra=d.addr)
    t = eng.term(st, other)
    m = st.mut(d)
    m.sym = t if m.sym is None else opaque("dmerge", m.sym, t, kind="dict")


def set_add(eng, st, s, v):
    o = st.get(s)
    for x in o.items:
        c = eng.truth(st, eng.equal(st, x, v))
        if c is TRUE:
            return
        if c is not FALSE:
            # may coincide: keep symbolic
            pass
    st.mut(s).items.append(v)


def list_extend(eng, st, lref, other):
    items = eng.iterate(st, other)
    eng.event(st, "mutate", "list extend", [lref], extra=lref.addr)
    o = st.get(lref)
    if isinstance(items, list) and o.sym is None:
        st.mut(lref).items.extend(items)
        return
    t = mk("listcat", eng.term(st, lref), eng.term(st, other), kind="list")
    m = st.mut(lref)
    m.items, m.sym = [], t


def _setitems(eng, st, v):
    if isinstance(v, Ref) and isinstance(st.get(v), (SetO, Lst)) and st.get(
            v).sym is None:
        return st.get(v).items
    it = eng.iterate(st, v)
    return it if isinstance(it, list) else None


def _member(eng, st, x, items):
    for y in items:
        c = eng.truth(st, eng.equal(st, x, y))
        if c is TRUE:
            return True
        if c is not FALSE:
            return None
    return False


def setop(eng, st, op, a, b):
    x, y = _setitems(eng, st, a), _setitems(eng, st, b)
    if x is None or y is None:
        return eng.alloc(st, SetO([], opaque("set" + op, eng.term(st, a),
                                             eng.term(st, b), kind="set")))
    out = []
    for v in x:
        m = _member(eng, st, v, y)
        if m is None:
            return eng.alloc(st, SetO([], opaque(
                "set" + op, eng.term(st, a), eng.term(st, b), kind="set")))
        if op == "Sub" and not m or op == "BitAnd" and m or op == "BitOr" \
                or op == "BitXor" and not m:
            out.append(v)
    if op in ("BitOr", "BitXor"):
        for v in y:
            if _member(eng, st, v, x) is False:
                out.append(v)
    return eng.alloc(st, SetO(out))


def setcmp(eng, st, k, a, b):
    def sub_(x, y):
        return all(_member(eng, st, v, y.items) is True for v in x.items)
    r = {"Eq": lambda: sub_(a, b) and sub_(b, a), "LtE": lambda: sub_(a, b),
         "GtE": lambda: sub_(b, a),
         "Lt": lambda: sub_(a, b) and not sub_(b, a),
         "Gt": lambda: sub_(b, a) and not sub_(a, b)}[k]()
    return const(bool(r))


def delitem(eng, st, obj, idx):
    o = st.get(obj) if isinstance(obj, Ref) else None
    if isinstance(o, Dct):
        k = key(eng, st, idx)
        if k not in o.items and o.sym is None:
            eng.raise_exc(st, "KeyError", str(k))
        eng.event(st, "mutate", "dict del", [obj], extra=obj.addr)
        st.mut(obj).items.pop(k, None)
        return
    if isinstance(o, Lst) and o.sym is None:
        t = eng.term(st, idx)
        if tm.is_num(t):
            eng.event(st, "mutate", "list del", [obj], extra=obj.addr)
            del st.mut(obj).items[tm.cval(t)]
            return
    if isinstance(o, H5):
        eng.event(st, "h5del", "del", [obj, idx])
        m = st.mut(obj)
        m.items.pop(ct(eng.term(st, idx)), None)
        return
    from .interp import Unsupported
    raise Unsupported("del item")


# ----------------------------------------------------------------- HDF5
def new_h5(eng, st, kind, path):
    at = eng.alloc(st, H5("attrs", path))
    r = eng.alloc(st, H5(kind, path, attrs={"__attrs__": at}))
    return r


def new_ds(eng, st, content, path):
    d = DS(content)
    r = eng.alloc(st, d)
    at = eng.alloc(st, H5("attrs", path))
    st.get(r).attrs = at
    return r


def _files(eng, st):
    ref = getattr(eng, "_filesref", None)
    if ref is None:
        ref = eng.alloc(eng.base_state, Dct())
        eng._filesref = ref
    return ref


@ext("h5py.File")
def h5file(eng, st, args, kwargs):
    name, mode, kw = P(eng, st, args, kwargs, "name mode=r")
    t = eng.term(st, name)
    m = ct(eng.term(st, mode))
    files = _files(eng, st)
    k = ("t", t.uid)
    d = st.get(files)
    eng.event(st, "openfile", m, [t])
    if m in ("w", "w-", "x"):
        r = new_h5(eng, st, "file", tm.show(t))
        st.mut(files).items[k] = (t, r)
        return r
    if k in d.items:
        r = d.items[k][1]
        if isinstance(r, Ref):
            st.mut(r).open = True
        return r
    if m == "r":
        if known_files(eng, st):
            eng.raise_exc(st, "OSError", "no such file")
        r = eng.alloc(st, H5("file", tm.show(t), attrs={
            "__attrs__": eng.alloc(st, H5("attrs", "", sym=mk("fattrs", t)))},
            sym=mk("filecontent", t, kind="obj")))
        st.mut(files).items[k] = (t, r)
        return r
    r = new_h5(eng, st, "file", tm.show(t))
    st.mut(files).items[k] = (t, r)
    return r


def known_files(eng, st):
    return getattr(eng, "closed_world_files", True)


@ext("os.path.isfile", "os.path.exists")
def isfile(eng, st, args, kwargs):
    t = eng.term(st, args[0])
    d = st.get(_files(eng, st))
    if ("t", t.uid) in d.items:
        v = d.items[("t", t.uid)][1]
        from .interp import UNSET
        if isinstance(v, Phi) and v.a is UNSET:
            return tm.bnot(v.cond)
        if isinstance(v, Phi) and v.b is UNSET:
            return v.cond
        return TRUE
    return mk("isfile", t, kind="bool", shape=())


def h5_close(eng, st, ref):
    o = st.get(ref)
    if isinstance(o, H5) and o.kind == "file":
        eng.event(st, "closefile", "close", [ref])
        st.mut(ref).open = False


def h5_fault(eng, st, what):
    """While faults are enabled every access to a file may fail."""
    if getattr(eng, "h5_faults", False) and len(eng.collectors[-1]) < 60:
        c = mk("fault", const(what), const(eng.uid("f")), kind="bool",
               shape=())
        s = st.fork(c, True)
        eng.raises(s, eng.make_exc(s, eng.exc_class(eng.h5_faults),
                                   [opaque("excarg", eng.uid("e"))]))
        st.learn(c, False)


def open_files(eng, st):
    """[(name term, H5 ref, is it open)]"""
    out = []
    for t, r in st.get(_files(eng, st)).items.values():
        r = eng.phival(st, r)
        for x in ([r] if isinstance(r, Ref) else
                  [y for y in (r.a, r.b) if isinstance(y, Ref)]):
            out.append((t, x, st.get(x).open))
    return out


def h5_dump(eng, st, x):
    """what is written in a file, as comparable data"""
    if isinstance(x, Phi):
        return ("phi", x.cond, h5_dump(eng, st, x.a), h5_dump(eng, st, x.b))
    if not isinstance(x, Ref):
        return x if isinstance(x, T) else repr(x)
    o = st.get(x)

    def table(d):
        if isinstance(d, Ref):
            return h5_dump(eng, st, d)
        return tuple((str(k), h5_dump(eng, st, v)) for k, v in sorted(
            (d or {}).items(), key=lambda kv: str(kv[0])))
    if isinstance(o, DS):
        return ("ds", o.content, table(o.attrs))
    if isinstance(o, H5):
        return (o.kind, table(o.items), table(o.attrs))
    return eng.term(st, x)


def _h5walk(eng, st, ref, name, create=False):
    """Resolve 'a/b' to (group ref, leaf)."""
    parts = [p for p in name.split("/") if p]
    for p in parts[:-1]:
        o = st.get(ref)
        if p not in o.items:
            if not create:
                return None, parts[-1]
            g = new_h5(eng, st, "group", o.path + "/" + p)
            st.mut(ref).items[p] = g
            ref = g
        else:
            ref = o.items[p]
    return ref, (parts[-1] if parts else "")


def h5key(eng, st, k):
    t = eng.term(st, k)
    if tm.is_const(t) and t.kind == "str":
        return tm.cval(t)
    return t


def h5_get(eng, st, obj, idx):
    h5_fault(eng, st, "read")
    o = st.get(obj)
    if isinstance(o, DS):
        return ds_get(eng, st, o, idx)
    if o.kind == "attrs":
        k = h5key(eng, st, idx)
        if k in o.items:
            return _unset_pick(eng, st, o.items[k], k)
        if o.sym is not None:
            return mk("h5attr", o.sym, const(k) if isinstance(k, str) else k)
        eng.raise_exc(st, "KeyError", "attribute %s" % (k,))
    chk_open(eng, st, o)
    k = h5key(eng, st, idx)
    if not isinstance(k, str):
        if k in o.items:
            return _unset_pick(eng, st, o.items[k], k)
        eng.raise_exc(st, "KeyError", "h5 key")
    g, leaf = _h5walk(eng, st, obj, k)
    if g is None or leaf not in st.get(g).items:
        if o.sym is not None:
            return opaque("h5item", o.sym, const(k))
        eng.raise_exc(st, "KeyError", k)
    return _unset_pick(eng, st, st.get(g).items[leaf], leaf)


def _unset_pick(eng, st, v, k):
    from .interp import UNSET
    v = eng.phival(st, v)
    if isinstance(v, Phi) and (v.a is UNSET or v.b is UNSET):
        def pick(s, alt):
            if alt is UNSET:
                eng.raise_exc(s, "KeyError", str(k))
            return alt
        return eng.split(st, v, pick)
    if v is UNSET:
        eng.raise_exc(st, "KeyError", str(k))
    return v


def chk_open(eng, st, o):
    if o.open is False:
        eng.raise_exc(st, "ValueError", "HDF5 file is closed")


def ds_get(eng, st, o, idx):
    c = o.content
    if c.op == "phi" and st.known(c.args[0]) is None and c.args[
            1].kind != c.args[2].kind:
        return eng.split(st, Phi(c.args[0], c.args[1], c.args[2]),
                         lambda s, a: ds_get(eng, s, DS(a), idx))
    if c.op == "phi":
        k = st.known(c.args[0])
        if k is not None:
            c = c.args[1] if k else c.args[2]
    it = eng.idxterm(st, idx)
    scalar = c.shape == () or c.kind in ("int", "float", "bool", "str", "dim")
    if scalar:
        if it == () or it == (("ell",),):
            return mk("bytes", c, kind="bytes") if c.kind == "str" else c
        eng.raise_exc(st, "ValueError", "Illegal slicing argument for scalar "
                      "dataspace")
    return eng.wrap(st, tm.getitem(c, it))


def h5_contains(eng, st, obj, a):
    o = st.get(obj)
    k = h5key(eng, st, a)
    from .interp import UNSET
    if isinstance(k, str) and o.kind != "attrs" and "/" in k:
        g, leaf = _h5walk(eng, st, obj, k)
        return const(g is not None and leaf in st.get(g).items)
    if k in o.items:
        v = o.items[k]
        if v is UNSET:
            return FALSE
        if isinstance(v, Phi):
            if v.a is UNSET:
                return tm.bnot(v.cond)
            if v.b is UNSET:
                return v.cond
        return TRUE
    if o.sym is not None:
        return mk("in", const(k) if isinstance(k, str) else k, o.sym,
                  kind="bool", shape=())
    if not isinstance(k, str) and o.items:
        return tm.bor(*[tm.eq(k, const(x) if isinstance(x, str) else x)
                        for x in o.items])
    return FALSE


def h5_native(eng, st, v, what):
    """Value as stored in a file; raises TypeError for unsupported objects."""
    v = eng.phival(st, v)
    if isinstance(v, Phi):
        return eng.split(st, v, lambda s, a: h5_native(eng, s, a, what))
    if isinstance(v, T) and v.op == "phi" and any(
            x is NONE for x in (v.args[1], v.args[2])):
        return eng.split(st, Phi(v.args[0], v.args[1], v.args[2]),
                         lambda s, a: h5_native(eng, s, a, what))
    if isinstance(v, Ref) and isinstance(st.get(v), Arr) and eng.content(
            st, st.get(v)).kind == "sparse":
        eng.raise_exc(st, "TypeError", what + ": object dtype has no native "
                      "HDF5 equivalent")
    if v is NONE:
        eng.raise_exc(st, "TypeError", what + ": no native HDF5 equivalent "
                      "for None")
    if isinstance(v, Tup):
        ts = [h5_native(eng, st, x, what) for x in v.items]
        return tm.array(ts)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Lst):
            if o.sym is not None:
                return mk("asarray", o.sym, kind="arr")
            return tm.array([h5_native(eng, st, x, what) for x in o.items])
        if isinstance(o, Arr):
            c = eng.content(st, o)
            if c.kind == "sparse":
                eng.raise_exc(st, "TypeError", what + ": object dtype")
            return c
        if isinstance(o, DS):
            return o.content
        if isinstance(o, (Dct, SetO, Inst, H5)):
            eng.raise_exc(st, "TypeError", what + ": no native HDF5 "
                          "equivalent")
        if isinstance(o, Opq):
            return o.state
    if isinstance(v, (Func, Bound, ClassVal, Ext, PyFn)):
        eng.raise_exc(st, "TypeError", what + ": no native HDF5 equivalent")
    t = eng.term(st, v)
    if t.kind in ("fn", "obj", "dict", "set") and t.op != "opaque":
        eng.raise_exc(st, "TypeError", what + ": no native HDF5 equivalent")
    return t


def h5_set(eng, st, obj, idx, v):
    h5_fault(eng, st, "write")
    o = st.get(obj)
    k = h5key(eng, st, idx)
    eng.event(st, "h5write", k, [obj, v])
    if o.kind == "attrs":
        t = h5_native(eng, st, v, "attribute")
        st.mut(obj).items[k] = t if t.shape == () or t.kind in (
            "int", "float", "bool", "str") else t
        return
    g, leaf = _h5walk(eng, st, obj, k, create=True)
    if leaf in st.get(g).items:
        eng.raise_exc(st, "ValueError", "name already exists")
    t = h5_native(eng, st, v, "dataset")
    ds = new_ds(eng, st, t, leaf)
    st.mut(g).items[leaf] = ds


def h5_create_dataset(eng, st, obj, args, kwargs):
    name, shape, dtype, data, kw = P(eng, st, args, kwargs,
                                     "name shape=None dtype=None data=None")
    h5_fault(eng, st, "create_dataset")
    o = st.get(obj)
    chk_open(eng, st, o)
    k = h5key(eng, st, name)
    eng.event(st, "h5write", k, [obj, data])
    if isinstance(k, str):
        g, leaf = _h5walk(eng, st, obj, k, create=True)
    else:
        g, leaf = obj, k
    exists = h5_contains(eng, st, g, const(leaf) if isinstance(leaf, str)
                         else leaf)
    kn = st.known(exists)
    if kn is True:
        eng.raise_exc(st, "ValueError", "name already exists")
    if kn is None and (tm.is_const(exists) is False) and not isinstance(
            leaf, str):
        pass
    elif kn is None:
        s2 = st.fork(exists, True)
        eng.raises(s2, eng.make_exc(s2, "ValueError", []))
        st.learn(exists, False)
    data = eng.phival(st, data)
    if data is NONE:
        if shape is NONE and dtype is NONE:
            eng.raise_exc(st, "TypeError", "One of data, shape or dtype must "
                          "be specified")
        content = mk("emptyds", eng.term(st, shape), kind="arr")
    elif isinstance(data, Phi) or isinstance(data, T) and data.op == "phi":
        p = data if isinstance(data, Phi) else Phi(
            data.args[0], data.args[1], data.args[2])

        def go(s, alt):
            return h5_create_dataset(eng, s, obj, [name], {
                "data": alt, "shape": shape, "dtype": dtype})
        return eng.split(st, p, go)
    else:
        content = h5_native(eng, st, data, "dataset")
        if shape is not NONE and not isinstance(data, T):
            content = tm.reshape(content, tuple(
                eng.term(st, x) for x in (eng.iterate(st, shape))))
    ds = new_ds(eng, st, content, str(k))
    st.mut(g).items[leaf] = ds
    return ds


def h5_create_group(eng, st, obj, args, kwargs):
    h5_fault(eng, st, "create_group")
    o = st.get(obj)
    chk_open(eng, st, o)
    k = h5key(eng, st, args[0])
    eng.event(st, "h5write", k, [obj])
    g, leaf = _h5walk(eng, st, obj, k, create=True) if isinstance(
        k, str) else (obj, k)
    if leaf in st.get(g).items:
        eng.raise_exc(st, "ValueError", "name already exists")
    r = new_h5(eng, st, "group", o.path + "/" + str(leaf))
    st.mut(g).items[leaf] = r
    return r


# ----------------------------------------------------------------- attributes
def meth(obj, name):
    return Method(obj, name)


def getattr_heap(eng, st, ref, o, name, default=None):
    if isinstance(o, Arr):
        c = eng.content(st, o)
        return array_attr(eng, st, ref, c, name, default)
    if isinstance(o, H5):
        if name == "attrs":
            return o.attrs["__attrs__"]
        if name == "name" or name == "filename":
            return const(o.path)
        if name in ("mode",):
            return const(o.mode)
        return Method(ref, name)
    if isinstance(o, DS):
        if name == "attrs":
            return o.attrs
        if name == "shape":
            return shape_val(eng, st, o.content)
        if name == "ndim":
            return ndim_of(o.content)
        if name == "size":
            return tm.size_of(o.content)
        return Method(ref, name)
    if isinstance(o, (Lst, Dct, SetO)):
        py = {Lst: list, Dct: dict, SetO: set}[type(o)]
        if name == "__class__":
            return Ext("builtins." + py.__name__)
        if not hasattr(py, name):
            if default is not None:
                return default
            eng.raise_exc(st, "AttributeError", name)
        return Method(ref, name)
    from .interp import Unsupported
    raise Unsupported("attribute %s of %s" % (name, type(o).__name__))


def shape_val(eng, st, t):
    if t.shape is not None:
        return Tup(t.shape)
    if t.op == "phi":
        return eng.mergeval(t.args[0], shape_val(eng, st, t.args[1]),
                            shape_val(eng, st, t.args[2]))
    return mk("shape", t, kind="tuple")


def ndim_of(t):
    if t.shape is not None:
        return const(len(t.shape))
    if t.op == "phi":
        return tm.phi(t.args[0], ndim_of(t.args[1]), ndim_of(t.args[2]))
    if t.kind in ("int", "float", "bool", "dim", "scalar", "none", "str"):
        return ZERO
    return mk("ndim", t, kind="int", shape=())


SPARSE_ATTRS = {"data", "row", "col", "offsets", "indices", "indptr", "nnz"}


def array_attr(eng, st, v, c, name, default=None):
    if name == "shape":
        return shape_val(eng, st, c)
    if name == "ndim":
        return ndim_of(c)
    if name == "size":
        return tm.size_of(c)
    if name == "T":
        if isinstance(v, Ref) and isinstance(st.get(v), Arr):
            return eng.view(st, v, ("T",))
        return tm.transpose(c)
    if name == "dtype":
        return mk("dtype", c, kind="obj")
    if name == "__class__":
        return Ext("np.ndarray") if c.kind != "sparse" else mk(
            "class_of", c, kind="obj")
    if c.kind == "sparse" and name == "format":
        b = c.args[0] if c.op == "spmatrix" else c
        f = b.op[2:] if b.op[:2] == "to" else b.op.split("_")[0]
        if f in ("dia", "csr", "csc", "coo", "lil", "bsr", "dok"):
            return const(f)
        return mk("sp.format", c, kind="str", shape=())
    if c.kind == "sparse" and name in SPARSE_ATTRS:
        if c.op in ("dia_array",) and name == "data":
            return eng.wrap(st, c.args[0])
        if c.op in ("dia_array",) and name == "offsets":
            return eng.wrap(st, c.args[1])
        return eng.wrap(st, mk("sp." + name, c, kind="arr"))
    if name in ("real", "flat"):
        return v
    if name in ("nbytes", "itemsize"):
        return mk(name, c, kind="int", shape=())
    if c.kind == "arr" and name not in ARRAY_ATTRS and c.shape is not None:
        if default is not None:
            return default
        eng.raise_exc(st, "AttributeError", name)
    return Method(v, name)


def getattr_misc(eng, st, obj, name, default=None):
    if isinstance(obj, T):
        if obj is NONE:
            if name == "__class__":
                return Ext("builtins.NoneType")
            if default is not None:
                return default
            eng.raise_exc(st, "AttributeError", "None." + name)
        if obj.kind in ("int", "float", "bool", "dim"):
            if name in ("shape",):
                return Tup([])
            if name in ("ndim",):
                return ZERO
            if name in ("size",):
                return ONE
            if name == "T":
                return obj
            return Method(obj, name)
        if obj.kind in ("str", "bytes", "list", "tuple", "dict", "set"):
            return Method(obj, name)
        if obj.kind in ("arr", "sparse") or obj.shape is not None:
            return array_attr(eng, st, obj, obj, name, default)
        if name in ("shape", "ndim", "size", "T"):
            return array_attr(eng, st, obj, obj, name, default)
        if obj.op == "class_of" and name == "__name__":
            return mk("clsname", obj.args[0], kind="str")
        if obj.op == "solve_ivp":
            return eng.wrap(st, ivp_result(obj, name))
        if obj.kind == "obj":
            return mk("attr", obj, const(name))
        return Method(obj, name)
    if isinstance(obj, Tup):
        if name in ("index", "count"):
            return Method(obj, name)
        if default is not None:
            return default
        eng.raise_exc(st, "AttributeError", "tuple." + name)
    if isinstance(obj, RangeV):
        return Method(obj, name)
    if isinstance(obj, SliceV):
        if name in ("start", "stop", "step"):
            return {"start": obj.lo, "stop": obj.hi, "step": obj.st}[name]
        return Method(obj, name)
    if isinstance(obj, Method):
        return Method(obj, name)
    if isinstance(obj, (PyFn,)):
        if name == "__name__":
            return const(obj.name)
        if default is not None:
            return default
        return opaque("fattr", const(name))
    if isinstance(obj, SymIter):
        return Method(obj, name)
    if isinstance(obj, (ClassMethod, StaticMethod)):
        if name == "__func__":
            return obj.f
        return eng.getattr(st, obj.f, name, default)
    if default is not None:
        return default
    from .interp import Unsupported
    raise Unsupported("attribute %s of %r" % (name, obj))


# ----------------------------------------------------------------- methods
RED = ("sum", "mean", "min", "max", "std", "var", "prod", "all", "any",
       "argmin", "argmax", "cumsum")


def call_method(eng, st, obj, name, args, kwargs):
    args = [eng.phival(st, a) for a in args]
    obj = eng.phival(st, obj)
    if isinstance(obj, Phi):
        return eng.split(st, obj, lambda s, a: call_method(
            eng, s, a, name, args, kwargs))
    if isinstance(obj, Ref):
        o = st.get(obj)
        if isinstance(o, Arr):
            return array_method(eng, st, obj, eng.content(st, o), name, args,
                                kwargs)
        if isinstance(o, Lst):
            return list_method(eng, st, obj, o, name, args, kwargs)
        if isinstance(o, Dct):
            return dict_method(eng, st, obj, o, name, args, kwargs)
        if isinstance(o, SetO):
            return set_method(eng, st, obj, o, name, args, kwargs)
        if isinstance(o, H5):
            return h5_method(eng, st, obj, o, name, args, kwargs)
        if isinstance(o, DS):
            return opaque("dsmethod", const(name), o.content)
    if isinstance(obj, Tup):
        if name == "index":
            for i, x in enumerate(obj.items):
                if eng.truth(st, eng.equal(st, x, args[0])) is TRUE:
                    return const(i)
        if name == "count":
            return const(sum(1 for x in obj.items if eng.truth(
                st, eng.equal(st, x, args[0])) is TRUE))
        return opaque("tuple." + name, eng.term(st, obj))
    if isinstance(obj, T):
        if obj.kind == "str":
            return str_method(eng, st, obj, name, args, kwargs)
        if obj.kind == "bytes":
            if name == "decode":
                return obj.args[0] if obj.op == "bytes" else mk(
                    "decode", obj, kind="str")
        if obj.kind in ("arr", "sparse") or (
                obj.shape is not None and obj.kind not in (
                    "int", "float", "bool", "dim")):
            return array_method(eng, st, obj, obj, name, args, kwargs)
        if obj.kind in ("int", "float", "bool", "dim"):
            if name == "copy" or name == "item":
                return obj
            if name in RED:
                return reduction(eng, st, name, obj, args, kwargs)
            return opaque("num." + name, obj, *eng.targs(st, args, kwargs))
        if obj.kind == "list":
            if name == "copy":
                return obj
        if obj.kind == "dict":
            if name in ("items", "keys", "values"):
                return opaque("dict." + name, obj)
        if name in RED and not obj.opaque and obj.op not in ("elem", "item"):
            return reduction(eng, st, name, obj, args, kwargs)
        if name == "copy" and not args:
            return eng.alloc(st, Arr(obj)) if obj.kind is None else obj
        if name in ("reshape", "ravel", "flatten", "transpose", "astype",
                    "toarray", "dot"):
            return array_method(eng, st, obj, obj, name, args, kwargs)
        ts = eng.targs(st, args, kwargs)
        t = mk("mcall", obj, const(name), *ts)
        eng.event(st, "mcall", name, args, kwargs, result=t,
                  extra=(obj, obj), targs=ts)
        eng.maybe_raise(st, name)
        return t
    if isinstance(obj, Method):
        ts = eng.targs(st, args, kwargs)
        return opaque("method", eng.term(st, obj), const(name), *ts)
    if isinstance(obj, RangeV):
        if name == "index":
            return args[0]
    if isinstance(obj, SliceV) and name == "indices":
        return opaque("slice.indices", eng.term(st, obj))
    ts = eng.targs(st, args, kwargs)
    return opaque("method", eng.term(st, obj), const(name), *ts)


def array_method(eng, st, v, c, name, args, kwargs):
    isref = isinstance(v, Ref) and isinstance(st.get(v), Arr)
    if c.op == "phi" and name in ("toarray", "tocsr", "tocoo"):
        p = Phi(c.args[0], c.args[1], c.args[2])
        return eng.split(st, p, lambda s, a: array_method(
            eng, s, eng.alloc(s, Arr(a)), a, name, args, kwargs))
    if name == "copy":
        return eng.alloc(st, Arr(c))
    if name in RED:
        return reduction(eng, st, name, c, args, kwargs)
    if name == "reshape":
        order = kwargs.get("order")
        shp = args[0] if len(args) == 1 else Tup(args)
        if not args and "shape" in kwargs:
            shp = kwargs["shape"]
        if order is not None and order is not const("C"):
            return eng.wrap(st, opaque("reshape_order", c, eng.term(st, shp),
                                       eng.term(st, order), kind="arr"))
        return do_reshape(eng, st, v, c, shp)
    if name == "ravel":
        return eng.view(st, v, ("flat",)) if isref else eng.wrap(
            st, tm.flat(c))
    if name == "flatten":
        return eng.alloc(st, Arr(tm.flat(c)))
    if name == "transpose":
        if not args:
            return eng.view(st, v, ("T",)) if isref else tm.transpose(c)
        ax = args[0] if len(args) == 1 and not isinstance(args[0], T) else \
            Tup(args)
        return np_transpose(eng, st, [v, ax], {})
    if name == "astype":
        dv = args[0] if args else kwargs.get("dtype", NONE)
        dt = eng.term(st, dv)
        if isinstance(dv, Ext) and dv.name in (
                "builtins.int", "np.int64", "np.int32", "builtins.float",
                "np.float64"):
            f = fold_array(c)
            if f is not None:
                if "int" in dv.name:
                    f = [Fraction(int(x)) for x in f]
                return eng.alloc(st, Arr(tm.array(
                    [mk_float(x) for x in f])))
            if "float" in dv.name:
                return eng.alloc(st, Arr(c))
        return eng.alloc(st, Arr(mk("astype", c, dt, shape=c.shape,
                                    kind="arr")))
    if name == "dot":
        return eng.wrap(st, matmul_terms(eng, st, c, eng.term(st, args[0])))
    if name == "toarray" or name == "todense":
        if c.kind != "sparse" and c.shape is not None:
            eng.raise_exc(st, "AttributeError", name)
        return eng.alloc(st, Arr(dense(c)))
    if name in ("tocsr", "tocsc", "tocoo", "todia", "tolil", "tobsr",
                "todok"):
        isM = c.op == "spmatrix"
        b, f = c.args[0] if isM else c, name[2:]
        inner = b.args[0] if b.op == "tocoo" else None
        if b.op in (name, f + "_array"):
            pass
        elif inner is not None and inner.op in (name, f + "_array"):
            b = inner
        else:
            b = mk(name, b, shape=c.shape, kind="sparse")
        return eng.alloc(st, Arr(mk("spmatrix", b, shape=c.shape,
                                    kind="sparse") if isM else b))
    if name in ("sort", "fill", "resize", "partition", "put", "itemset"):
        if isref:
            eng.store_arr(st, v, opaque("inplace:" + name, c, *eng.targs(
                st, args, kwargs), shape=c.shape), "." + name + "()")
        return NONE
    if name == "item":
        return tm.getitem(c, tuple(("i", eng.term(st, a)) for a in args)) \
            if args else mk("item", c, ZERO, kind="float", shape=())
    if name == "tolist":
        t = c
        if t.op == "array":
            return eng.alloc(st, Lst([eng.wrap(st, x) for x in t.args]))
        return eng.alloc(st, Lst([], mk("tolist", t, kind="list")))
    if name == "squeeze":
        if c.shape is not None:
            return do_reshape(eng, st, v, c, Tup(
                [s for s in c.shape if s is not ONE]))
        return eng.wrap(st, mk("squeeze", c))
    if name in ("conj", "conjugate"):
        return v
    if name == "diagonal":
        return np_diag(eng, st, [v], {})
    if name == "__len__":
        return EXT["builtins.len"](eng, st, [v], {})
    ts = eng.targs(st, args, kwargs)
    t = opaque("arr." + name, c, *ts)
    eng.event(st, "mcall", name, args, kwargs, result=t, extra=(v, c),
              targs=ts)
    return eng.wrap(st, t)


def dense(c):
    if c.kind != "sparse":
        return c
    if c.op in ("tocsr", "tocsc", "tocoo", "todia", "tolil", "spmatrix"):
        return dense(c.args[0])
    if c.op == "csr_array" and isinstance(c.args[0], T):
        return c.args[0] if c.args[0].kind != "sparse" else dense(c.args[0])
    return mk("dense", c, shape=c.shape, kind="arr")


def do_reshape(eng, st, v, c, shp):
    shp = eng.phival(st, shp)
    isref = isinstance(v, Ref) and isinstance(st.get(v), Arr)
    if isinstance(shp, T) and (shp.kind in ("int", "dim") or tm.is_num(shp)):
        dims = (shp,)
    else:
        its = eng.iterate(st, shp)
        if not isinstance(its, list):
            return eng.wrap(st, opaque("reshape?", c, eng.term(st, shp),
                                       kind="arr"))
        dims = tuple(eng.term(st, x) for x in its)
    if isref:
        return eng.view(st, v, ("reshape", dims))
    return eng.wrap(st, tm.reshape(c, dims))


def list_method(eng, st, ref, o, name, args, kwargs):
    if name == "append":
        eng.event(st, "mutate", "list append", [ref], extra=ref.addr)
        m = st.mut(ref)
        if m.sym is None:
            m.items.append(args[0])
        else:
            m.sym = eng.listcat(m.sym, mk("list", eng.term(st, args[0]),
                                          kind="list"))
        return NONE
    if name == "extend":
        list_extend(eng, st, ref, args[0])
        return NONE
    if name == "copy":
        return eng.alloc(st, o.copy())
    if name == "index" and o.sym is None:
        cs = []
        for i, x in enumerate(o.items):
            c = eng.truth(st, eng.equal(st, x, args[0]))
            cs.append(c)
            if c is TRUE and all(y is FALSE for y in cs[:-1]):
                return const(i)
        if all(c is FALSE for c in cs):
            eng.raise_exc(st, "ValueError", "not in list")
        r = None
        for i in range(len(cs) - 1, -1, -1):
            if cs[i] is FALSE:
                continue
            r = const(i) if r is None else tm.phi(cs[i], const(i), r)
        anyc = tm.bor(*cs)
        if st.known(anyc) is None:
            s2 = st.fork(anyc, False)
            eng.raises(s2, eng.make_exc(s2, "ValueError", []))
            st.learn(anyc, True)
        return r
    if name == "count" and o.sym is None:
        tot = ZERO
        for x in o.items:
            c = eng.truth(st, eng.equal(st, x, args[0]))
            tot = tm.add(tot, tm.phi(c, ONE, ZERO))
        return tot
    if name in ("pop", "insert", "remove", "reverse", "clear", "sort") :
        eng.event(st, "mutate", "list " + name, [ref], extra=ref.addr)
        if o.sym is None:
            m = st.mut(ref)
            if name == "pop":
                k = ct(eng.term(st, args[0])) if args else -1
                if k is not None:
                    if not m.items:
                        eng.raise_exc(st, "IndexError", "pop")
                    return m.items.pop(k)
            if name == "insert":
                k = ct(eng.term(st, args[0]))
                if k is not None:
                    m.items.insert(k, args[1])
                    return NONE
            if name == "reverse":
                m.items.reverse()
                return NONE
            if name == "clear":
                m.items = []
                return NONE
            if name == "remove":
                for i, x in enumerate(m.items):
                    if eng.truth(st, eng.equal(st, x, args[0])) is TRUE:
                        m.items.pop(i)
                        return NONE
        t = opaque("list." + name, eng.term(st, ref), *eng.targs(
            st, args, {}), kind="list")
        m = st.mut(ref)
        m.items, m.sym = [], t
        return NONE if name != "pop" else opaque("popped", t)
    if name == "__len__":
        return EXT["builtins.len"](eng, st, [ref], {})
    return opaque("list." + name, eng.term(st, ref))


def dict_method(eng, st, ref, o, name, args, kwargs):
    if name in ("items", "keys", "values"):
        if o.sym is not None:
            if o.items:
                return opaque("dict." + name, eng.term(st, ref), kind="list")
            return SymIter(o.sym, {
                "items": lambda s: Tup([mk("elem", o.sym), mk(
                    "item", o.sym, mk("elem", o.sym))]),
                "keys": lambda s: mk("elem", o.sym),
                "values": lambda s: mk("item", o.sym, mk("elem", o.sym)),
            }[name])
        from .interp import UNSET
        out = []
        for kv, v in o.items.values():
            out.append({"items": lambda: Tup([kv, v]), "keys": lambda: kv,
                        "values": lambda: v}[name]())
        return Tup(out) if False else eng.alloc(st, Lst(out))
    if name == "get":
        return dict_get(eng, st, ref, args[0],
                        args[1] if len(args) > 1 else NONE)
    if name == "copy":
        d = o.copy()
        return eng.alloc(st, d)
    if name == "update":
        if args:
            dict_update(eng, st, ref, args[0])
        for k, v in kwargs.items():
            if k != "**":
                dict_set(eng, st, ref, const(k), v)
        return NONE
    if name == "pop":
        k = key(eng, st, args[0])
        if k in o.items:
            v = dict_get(eng, st, ref, args[0],
                         args[1] if len(args) > 1 else None)
            eng.event(st, "mutate", "dict pop", [ref], extra=ref.addr)
            st.mut(ref).items.pop(k)
            return v
        if len(args) > 1:
            return args[1] if o.sym is None else mk(
                "item", o.sym, eng.term(st, args[0]))
        if o.sym is None:
            eng.raise_exc(st, "KeyError", str(k))
        return mk("item", o.sym, eng.term(st, args[0]))
    if name == "setdefault":
        k = key(eng, st, args[0])
        if k in o.items:
            return o.items[k][1]
        v = args[1] if len(args) > 1 else NONE
        dict_set(eng, st, ref, args[0], v)
        return v
    if name == "clear":
        eng.event(st, "mutate", "dict clear", [ref], extra=ref.addr)
        m = st.mut(ref)
        m.items, m.sym = {}, None
        return NONE
    return opaque("dict." + name, eng.term(st, ref))


def set_method(eng, st, ref, o, name, args, kwargs):
    if name == "add":
        eng.event(st, "mutate", "set add", [ref], extra=ref.addr)
        set_add(eng, st, ref, args[0])
        return NONE
    if name in ("discard", "remove"):
        eng.event(st, "mutate", "set discard", [ref], extra=ref.addr)
        m = st.mut(ref)
        m.items = [x for x in m.items if eng.truth(
            st, eng.equal(st, x, args[0])) is not TRUE]
        return NONE
    if name == "pop" and o.sym is None and len(o.items) < 2:
        if not o.items:
            eng.raise_exc(st, "KeyError", "pop from an empty set")
        eng.event(st, "mutate", "set pop", [ref], extra=ref.addr)
        return st.mut(ref).items.pop()
    if name == "copy":
        return eng.alloc(st, o.copy())
    if name in ("difference", "union", "intersection"):
        return setop(eng, st, {"difference": "Sub", "union": "BitOr",
                               "intersection": "BitAnd"}[name], ref, args[0])
    if name in ("issubset", "issuperset") and o.sym is None:
        y = _setitems(eng, st, args[0])
        if y is not None:
            return setcmp(eng, st, "LtE" if name == "issubset" else "GtE", o,
                          SetO(y))
    return opaque("set." + name, eng.term(st, ref))


def h5_method(eng, st, ref, o, name, args, kwargs):
    if name == "create_dataset":
        return h5_create_dataset(eng, st, ref, args, kwargs)
    if name in ("create_group",):
        return h5_create_group(eng, st, ref, args, kwargs)
    if name == "require_group":
        k = h5key(eng, st, args[0])
        if k in o.items:
            return o.items[k]
        return h5_create_group(eng, st, ref, args, kwargs)
    if name == "close":
        h5_close(eng, st, ref)
        return NONE
    if name == "flush":
        return NONE
    if name == "keys":
        return eng.alloc(st, Lst([const(k) if isinstance(k, str) else k
                                  for k in sorted(o.items, key=str)]))
    if name in ("items", "values"):
        its = []
        for k in sorted(o.items, key=str):
            kv = const(k) if isinstance(k, str) else k
            v = _unset_pick(eng, st, o.items[k], k)
            its.append(Tup([kv, v]) if name == "items" else v)
        return eng.alloc(st, Lst(its))
    if name == "get":
        c = h5_contains(eng, st, ref, args[0])
        dflt = args[1] if len(args) > 1 else NONE
        kn = st.known(c)
        if kn is True:
            return h5_get(eng, st, ref, args[0])
        if kn is False:
            return dflt
        return eng.split(st, Phi(c, TRUE, FALSE), lambda s, a: h5_get(
            eng, s, ref, args[0]) if a is TRUE else dflt)
    if name == "create":
        h5_set(eng, st, ref, args[0], args[1])
        return NONE
    return opaque("h5." + name, const(o.path), *eng.targs(st, args, {}))


def str_method(eng, st, s, name, args, kwargs):
    ts = [eng.term(st, a) for a in args]
    if name == "join":
        items = eng.iterate(st, args[0])
        if isinstance(items, list):
            its = [eng.term(st, x) for x in items]
            if allc(its) and tm.is_const(s):
                return const(tm.cval(s).join(str(tm.cval(x)) for x in its))
            return mk("join", s, *its, kind="str")
        return mk("join*", s, eng.term(st, args[0]), kind="str")
    if tm.is_const(s) and allc(ts) and not kwargs and name != "format":
        try:
            r = getattr(tm.cval(s), name)(*[tm.cval(x) for x in ts])
        except Exception:
            r = None
        else:
            if isinstance(r, (str, bool, int)):
                return const(r)
            if isinstance(r, list):
                return eng.alloc(st, Lst([const(x) for x in r]))
            if isinstance(r, tuple):
                return Tup([const(x) for x in r])
    kind = "bool" if name in ("endswith", "startswith", "isdigit", "isalpha",
                              "isupper", "islower") else (
        "int" if name in ("find", "index", "count") else (
            "list" if name in ("split", "splitlines") else "str"))
    return mk("str." + name, s, *ts, kind=kind,
              shape=() if kind in ("bool", "int") else None)


# ----------------------------------------------------------------- reductions
def axis_of(eng, st, a):
    t = eng.term(st, a)
    return t


def reduce_shape(shape, axis, keep):
    if shape is None:
        return None
    if axis is NONE:
        return tuple(ONE for _ in shape) if keep else ()
    axes = axis.args if axis.op == "tuple" else (axis,)
    if not all(tm.is_num(a) for a in axes):
        return None
    ks = {tm.cval(a) % len(shape) if len(shape) else 0 for a in axes}
    out = []
    for i, s in enumerate(shape):
        if i in ks:
            if keep:
                out.append(ONE)
        else:
            out.append(s)
    return tuple(out)


def cells(t):
    """the entries of a small array that is written out, or None"""
    if t.shape == () and t.op != "list":
        return [t]
    if t.op in ("array", "list"):
        out = []
        for x in t.args:
            if not isinstance(x, tm.T):
                return None
            c = cells(x)
            if c is None:
                return None
            out += c
        return out if len(out) <= 64 else None
    if t.op in ("isnan", "isinf") and len(t.args) == 1:
        c = cells(t.args[0])
        return c and [nonfinite(t.op, x) for x in c]
    if t.op == "not":
        c = cells(t.args[0])
        return c and [tm.bnot(x) for x in c]
    if t.op in ("lt", "le", "eq") and len(t.args) == 2:
        a, b = cells(t.args[0]), cells(t.args[1])
        if not a or not b or len(a) != len(b) and 1 not in (len(a), len(b)):
            return None
        if len(a) == len(b) and t.args[0].shape != t.args[1].shape:
            return None
        n = max(len(a), len(b))
        f = getattr(tm, t.op)
        return [f(x, y) for x, y in zip(a * (n // len(a)),
                                        b * (n // len(b)))]
    return None


def nonfinite(op, x):
    if tm.is_num(x):
        return FALSE
    if tm.is_const(x) and isinstance(tm.cval(x), float):
        v = tm.cval(x)
        return const(v != v if op == "isnan" else v in (
            float("inf"), -float("inf")))
    return mk(op, x, kind="bool", shape=())


# further ways to settle an all() or any(), added by checks
DECIDE = []


def decided(op, t):
    """an all(), any() or count() that the written-out entries settle"""
    for f in DECIDE:
        r = f(op, t)
        if r is not None:
            return r
    c = cells(t)
    if not c:
        return None
    if op == "count":
        if all(tm.is_const(x) for x in c):
            return const(sum(1 for x in c if tm.cval(x) != 0))
        return None
    if not all(x.kind == "bool" for x in c):
        return None
    r = (tm.band if op == "all" else tm.bor)(*c)
    return r if tm.is_const(r) else None


def red(op, t, axis=NONE, keep=False):
    if op in ("all", "any", "count") and axis is NONE and not keep and \
            t.op in ("array", "lt", "le", "not", "isnan", "isinf", "eq",
                     "eqz"):
        r = decided(op, t)
        if r is not None:
            return r
    d = tm._dist(lambda x: red(op, x, axis, keep), t)
    if d is not None:
        return d
    if t.shape is not None and axis is not NONE and axis.op != "tuple" and \
            tm.is_num(axis) and len(t.shape):
        axis = const(tm.cval(axis) % len(t.shape))
        if len(t.shape) == 1:
            axis = NONE if not keep else axis
    if t.shape == () and t.kind in ("int", "float", "bool", "dim", "scalar"):
        if op in ("sum", "min", "max", "prod", "mean"):
            return t
        if op in ("all", "any") and t.kind == "bool":
            return t
    if op == "mean" and t.shape is not None and (
            axis is NONE or tm.is_num(axis)):
        n = tm.size_of(t) if axis is NONE else t.shape[tm.cval(axis)]
        return tm.div(red("sum", t, axis, keep), n)
    if t.op == "list":
        try:
            t = tm.array(t.args)
        except Exception:
            pass
    if t.op == "array" and op in ("all", "any") and axis is NONE and all(
            x.kind == "bool" and x.shape == () for x in t.args):
        return (tm.band if op == "all" else tm.bor)(*t.args) if t.args else \
            const(op == "all")
    if t.op == "full" and op in ("all", "any") and t.args[0].kind == "bool":
        return t.args[0]
    if t.op == "array" and op in ("sum", "prod", "max", "min") and axis is \
            NONE and len(t.args) <= 12 and all(
                x.shape == () and (x.kind in ("int", "float", "dim"))
                for x in t.args):
        if op in ("sum", "prod"):
            acc = ZERO if op == "sum" else ONE
            for x in t.args:
                acc = (tm.add if op == "sum" else tm.mul)(acc, x)
            return acc
        return minmax(op, list(t.args))
    sh = reduce_shape(t.shape, axis, keep)
    kind = None
    if sh == ():
        kind = "bool" if op in ("all", "any") else (
            "int" if op in ("argmin", "argmax", "count") else "float")
    elif sh is not None:
        kind = "arr"
    if keep:
        return mk(op, t, axis, TRUE, shape=sh, kind=kind)
    # pull scalar coefficients out of sums
    if op == "sum" and t.op == "poly" and len(t.args) == 1:
        ((m, c),) = t.args
        if c != 1:
            base = tm._frompoly({m: Fraction(1)}, t.shape)
            return tm.mul(const(c), red(op, base, axis, keep))
    return mk(op, t, axis, shape=sh, kind=kind)


def minmax(op, ts):
    flat = []
    for t in ts:
        for x in (t.args if t.op == op + "*" else (t,)):
            if x not in flat:
                flat.append(x)
    nums = [x for x in flat if tm.is_num(x)]
    rest = [x for x in flat if not tm.is_num(x)]
    if nums:
        v = (min if op == "min" else max)(x.args[1] for x in nums)
        c = const(int(v) if v.denominator == 1 else v)
        keep = True
        for x in rest:
            lo = tm.lower_bound(x)
            if op == "max" and lo is not None and lo >= v:
                keep = False
        if keep:
            # min(1, dim) = 1
            if op == "min" and rest and all(
                    (tm.lower_bound(x) or Fraction(-10**9)) >= v
                    for x in rest):
                return c
            rest = rest + [c]
    if len(rest) == 1:
        return rest[0]
    # pairwise domination
    out = []
    for i, x in enumerate(rest):
        dom = False
        for j, y in enumerate(rest):
            if i == j:
                continue
            d = tm.sub(x, y) if op == "min" else tm.sub(y, x)
            if x.shape == () == y.shape:
                lo = tm.lower_bound(d)
                if lo is not None and (lo > 0 or (lo == 0 and j < i)):
                    dom = True
        if not dom:
            out.append(x)
    if len(out) == 1:
        return out[0]
    kinds = {x.kind for x in out}
    kind = "dim" if kinds <= {"dim"} else (
        "int" if kinds <= {"int", "dim"} else "float")
    return mk(op + "*", *sorted(out, key=lambda t: t.uid), shape=(),
              kind=kind)


def reduction(eng, st, name, c, args, kwargs):
    axis, keep, kw = P(eng, st, args, {k: v for k, v in kwargs.items()
                                       if k in ("axis", "keepdims")},
                       "axis=None keepdims=False")
    ax = eng.term(st, axis)
    if isinstance(axis, Tup):
        ax = mk("tuple", *axis.items, kind="tuple")
    k = ct(eng.term(st, keep))
    if name == "cumsum":
        return eng.wrap(st, cumsum(c, ax))
    if c.op == "list":
        c = tm.array(list(c.args))
    return eng.wrap(st, red(name, c, ax, bool(k)))


def cumsum(c, ax):
    if c.op == "list":
        c = tm.array(list(c.args))
    if c.op == "array" and all(x.shape == () for x in c.args):
        out, acc = [], ZERO
        for x in c.args:
            acc = tm.add(acc, x)
            out.append(acc)
        return tm.array(out)
    return mk("cumsum", c, ax, shape=c.shape, kind="arr")


for _n in RED + ("count_nonzero", "median", "nanmax", "nanmin", "ptp",
                 "nansum"):
    def _mkred(n):
        nm = {"count_nonzero": "count", "amax": "max"}.get(n, n)

        def f(eng, st, args, kwargs):
            a = args[0] if args else kwargs.get("a")
            t = arr_term(eng, st, a)
            return reduction(eng, st, nm, t, args[1:], kwargs)
        return f
    EXT["np." + _n] = _mkred(_n)
EXT["np.amax"] = EXT["np.max"]
EXT["np.amin"] = EXT["np.min"]


def arr_term(eng, st, v):
    """Content of an array-like argument (lists become array literals)."""
    v = eng.phival(st, v)
    if isinstance(v, Phi):
        return tm.phi(v.cond, arr_term(eng, st, v.a), arr_term(eng, st, v.b))
    if isinstance(v, Tup):
        return even(eng, st, [arr_term(eng, st, x) for x in v.items])
    if isinstance(v, RangeV):
        return np_arange_t(v.lo, v.hi, v.st)
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Lst):
            if o.sym is None:
                return even(eng, st, [arr_term(eng, st, x) for x in o.items])
            return mk("asarray", o.sym, kind="arr")
        if isinstance(o, Inst):
            m = eng.class_lookup(o.cls, "__array__")
    t = eng.term(st, v)
    if t.op in ("list", "tuple"):
        return tm.array(list(t.args))
    return t


def even(eng, st, items):
    """the array of a sequence of arrays, which must have equal shapes"""
    shapes = [x.shape for x in items]
    if items and None not in shapes and any(
            len(s) != len(shapes[0]) or any(
                tm.is_num(a) and tm.is_num(b) and a is not b
                for a, b in zip(s, shapes[0])) for s in shapes):
        eng.raise_exc(st, "ValueError", "inhomogeneous sequence")
    return tm.array(items)


# ----------------------------------------------------------------- numpy
def elementwise(name, fn=None, kind=None):
    def f(eng, st, args, kwargs):
        ts = [arr_term(eng, st, a) for a in args]
        for a in ts:
            if a is NONE:
                eng.raise_exc(st, "TypeError", "None operand")
        if fn is not None:
            r = fn(*ts)
        else:
            r = ew(name, kind, *ts)
        return eng.wrap(st, r)
    return f


def ew(name, kind, *ts):
    d = tm._dist(lambda *x: ew(name, kind, *x), *ts)
    if d is not None:
        return d
    if name == "abs":
        t = ts[0]
        if tm.is_num(t):
            return const(abs(t.args[1])) if t.args[1].denominator != 1 else \
                const(abs(int(t.args[1])))
        if t.op in ("abs", "norm"):
            return t
        if tm.lower_bound(t) is not None and tm.lower_bound(t) >= 0:
            return t
        # |c x| = |c| |x|, canonical sign
        if t.op == "poly":
            lead = t.args[0][1]
            if lead < 0:
                t = tm.neg(t)
            if len(t.args) == 1 and lead not in (1, -1):
                return tm.mul(const(abs(lead)), ew(name, kind, tm.mul(
                    t, const(1 / abs(lead)))))
    sh = tm.broadcast(*[t.shape for t in ts])
    k = kind if sh == () else ("arr" if sh is not None else None)
    if sh == () and kind is None:
        k = "float"
    return mk(name, *ts, shape=sh, kind=k)


for _n in ("exp", "log", "log10", "log2", "sin", "cos", "tan", "abs",
           "sign", "floor", "ceil", "conj", "isfinite", "round", "rint",
           "tanh", "sinh", "cosh", "arctan", "log1p", "expm1", "maximum",
           "minimum", "logical_and", "logical_or", "logical_not", "hypot"):
    EXT["np." + _n] = elementwise(_n)
for _n in ("isnan", "isinf", "isfinite"):
    EXT["np." + _n] = elementwise(_n, kind="bool")
EXT["np.absolute"] = EXT["np.abs"]
EXT["np.sqrt"] = elementwise("sqrt", lambda x: tm.power(
    x, const(Fraction(1, 2))))
EXT["math.sqrt"] = EXT["np.sqrt"]
EXT["np.square"] = elementwise("square", lambda x: tm.power(x, const(2)))
EXT["np.add"] = elementwise("add", tm.add)
EXT["np.subtract"] = elementwise("sub", tm.sub)
EXT["np.multiply"] = elementwise("mul", tm.mul)
EXT["np.divide"] = elementwise("div", tm.div)
EXT["np.true_divide"] = EXT["np.divide"]
EXT["np.power"] = elementwise("pow", tm.power)
EXT["np.negative"] = elementwise("neg", tm.neg)
EXT["np.conjugate"] = elementwise("conj", lambda x: x)


@ext("builtins.abs")
def b_abs(eng, st, args, kwargs):
    return EXT["np.abs"](eng, st, args, kwargs)


@ext("np.array", "np.asarray", "np.asanyarray", "np.ascontiguousarray")
def np_array(eng, st, args, kwargs):
    v = args[0] if args else kwargs.get("object", kwargs.get("a"))
    t = arr_term(eng, st, v)
    if "dtype" in kwargs and kwargs["dtype"] is not NONE or len(args) > 1:
        dt = kwargs.get("dtype", args[1] if len(args) > 1 else NONE)
        if not (isinstance(dt, Ext) and dt.name in (
                "builtins.float", "np.float64", "builtins.int")):
            t = mk("astype", t, eng.term(st, dt), shape=t.shape, kind="arr")
    if t.shape == ():
        return t
    return eng.alloc(st, Arr(t))


def _asarray(eng, st, args, kwargs):
    v = args[0]
    if eng.isarr(st, v):
        return v
    return np_array(eng, st, args, kwargs)


EXT["np.asarray"] = EXT["np.asanyarray"] = EXT["np.ascontiguousarray"] = \
    _asarray


@ext("np.copy")
def np_copy(eng, st, args, kwargs):
    return eng.alloc(st, Arr(arr_term(eng, st, args[0])))


def dims_of(eng, st, v):
    v = eng.phival(st, v)
    if isinstance(v, T) and v.op not in ("tuple", "list") and v.kind not in (
            "tuple", "list"):
        return (v,)
    if isinstance(v, T) and v.op == "shape":
        return None
    its = eng.iterate(st, v)
    if not isinstance(its, list):
        return None
    return tuple(eng.term(st, x) for x in its)


def full_(eng, st, val, shp, nm):
    d = dims_of(eng, st, shp)
    if d is None:
        return eng.alloc(st, Arr(mk(nm + "?", eng.term(st, shp), kind="arr")))
    return eng.alloc(st, Arr(mk("full", val, d, shape=d, kind="arr")))


@ext("np.zeros")
def np_zeros(eng, st, args, kwargs):
    shp = args[0] if args else kwargs["shape"]
    return full_(eng, st, ZERO, shp, "zeros")


@ext("np.ones")
def np_ones(eng, st, args, kwargs):
    return full_(eng, st, ONE, args[0] if args else kwargs["shape"], "ones")


@ext("np.full")
def np_full(eng, st, args, kwargs):
    shp, val, dt, kw = P(eng, st, args, kwargs, "shape fill_value dtype=None")
    return full_(eng, st, eng.term(st, val), shp, "full")


@ext("np.empty")
def np_empty(eng, st, args, kwargs):
    d = dims_of(eng, st, args[0] if args else kwargs["shape"])
    if d is None:
        return eng.alloc(st, Arr(mk("empty?", eng.term(st, args[0]),
                                    kind="arr")))
    return eng.alloc(st, Arr(mk("empty", d, shape=d, kind="arr")))


def like(nm, val):
    def f(eng, st, args, kwargs):
        t = arr_term(eng, st, args[0])
        v = val
        if eng.dtype(st, args[0]) == "int" and "dtype" not in kwargs:
            r = plain(eng, st, args, kwargs)
            if eng.isarr(st, r):
                st.mut(r).dtype = "int"
                if nm == "full":
                    eng.store_arr(st, r, eng.term(st, r), "full_like")
            return r
        return plain(eng, st, args, kwargs)

    def plain(eng, st, args, kwargs):
        t = arr_term(eng, st, args[0])
        shp = kwargs.get("shape")
        if shp is not None and eng.term(st, shp) is not NONE:
            if nm == "empty":
                return np_empty(eng, st, [shp], {})
            if nm == "full":
                return np_full(eng, st, [shp] + list(args[1:]), {
                    k: v for k, v in kwargs.items() if k == "fill_value"})
            return full_(eng, st, val, shp, nm)
        v = val
        if nm == "full":
            v = eng.term(st, args[1] if len(args) > 1 else
                         kwargs["fill_value"])
        if t.shape is None:
            return eng.alloc(st, Arr(mk(nm + "_like", t, v, kind="arr")))
        if t.shape == () and nm != "empty":
            return v
        if nm == "empty":
            return eng.alloc(st, Arr(mk("empty", t.shape, shape=t.shape,
                                        kind="arr")))
        if v.shape not in ((), None) and v.shape:
            return eng.alloc(st, Arr(tm._frompoly(tm._aspoly(tm._strip(v)),
                                                  t.shape)))
        return eng.alloc(st, Arr(mk("full", v, t.shape, shape=t.shape,
                                    kind="arr")))
    return f


EXT["np.zeros_like"] = like("zeros", ZERO)
EXT["np.ones_like"] = like("ones", ONE)
EXT["np.empty_like"] = like("empty", ZERO)
EXT["np.full_like"] = like("full", None)


@ext("np.eye", "np.identity")
def np_eye(eng, st, args, kwargs):
    n, m, kw = P(eng, st, args, {k: v for k, v in kwargs.items()
                                 if k in ("N", "M")}, "N M=None")
    n, m = eng.term(st, n), eng.term(st, m)
    if m is NONE:
        m = n
    return eng.alloc(st, Arr(mk("eye", n, m, shape=(n, m), kind="arr")))


def np_arange_t(lo, hi, stp):
    if all(tm.is_num(x) for x in (lo, hi, stp)):
        import numbers
        vals = []
        a, b, s = (x.args[1] for x in (lo, hi, stp))
        if s != 0 and (b - a) / s <= 400:
            while (a < b) if s > 0 else (a > b):
                vals.append(const(int(a)) if a.denominator == 1 else const(a))
                a += s
            return tm.array(vals) if vals else mk("array", shape=(ZERO,),
                                                  kind="arr")
    n = tm.sub(hi, lo) if stp is ONE else None
    return mk("arange", lo, hi, stp, shape=None if n is None else (n,),
              kind="arr")


@ext("np.arange")
def np_arange(eng, st, args, kwargs):
    ts = [eng.term(st, a) for a in args]
    if len(ts) == 1:
        lo, hi, s = ZERO, ts[0], ONE
    elif len(ts) == 2:
        lo, hi, s = ts[0], ts[1], ONE
    else:
        lo, hi, s = ts[:3]
    return eng.alloc(st, Arr(np_arange_t(lo, hi, s)))


@ext("np.logspace")
def np_logspace(eng, st, args, kwargs):
    from fractions import Fraction
    ts = eng.targs(st, args, kwargs)
    if len(args) == 3 and not kwargs and all(tm.is_num(x) for x in ts):
        lo, hi, n = (x.args[1] for x in ts)
        es = [lo + (hi - lo) * Fraction(i, int(n) - 1) for i in range(int(n))
              ] if n > 1 else []
        if es and all(e.denominator == 1 for e in map(Fraction, es)):
            return eng.alloc(st, Arr(tm.array(
                [const(Fraction(10) ** int(e)) for e in es])))
    n = ts[2] if len(args) > 2 else const(50)
    return eng.alloc(st, Arr(mk("logspace", *ts, shape=(n,), kind="arr")))


@ext("np.linspace")
def np_linspace(eng, st, args, kwargs):
    ts = eng.targs(st, args, kwargs)
    n = ts[2] if len(args) > 2 else const(50)
    return eng.alloc(st, Arr(mk("linspace", *ts, shape=(n,), kind="arr")))


@ext("np.isscalar")
def np_isscalar(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Phi):
        return tm.phi(v.cond, np_isscalar(eng, st, [v.a], {}),
                      np_isscalar(eng, st, [v.b], {}))
    if isinstance(v, T):
        if v.op == "phi":
            return tm.phi(v.args[0], np_isscalar(eng, st, [v.args[1]], {}),
                          np_isscalar(eng, st, [v.args[2]], {}))
        if v is NONE:
            return FALSE
        if v.kind in ("int", "float", "bool", "str", "dim", "scalar"):
            return TRUE
        if v.kind in DEFKIND or v.kind in ("obj",):
            return FALSE
        if v.shape == ():
            return TRUE
        if v.shape is not None:
            return FALSE
        return mk("isscalar", v, kind="bool", shape=())
    return FALSE


@ext("np.ndim")
def np_ndim(eng, st, args, kwargs):
    v = args[0]
    if v is NONE:
        return ZERO
    if isinstance(v, Ref) and isinstance(st.get(v), Opq):
        return mk("ndim", st.get(v).state, kind="int", shape=())
    return ndim_of(arr_term(eng, st, v))


@ext("np.shape")
def np_shape(eng, st, args, kwargs):
    if args[0] is NONE:
        return Tup([])
    return shape_val(eng, st, arr_term(eng, st, args[0]))


@ext("np.size")
def np_size(eng, st, args, kwargs):
    return tm.size_of(arr_term(eng, st, args[0]))


def np_atleast(nd):
    def f(eng, st, args, kwargs):
        out = []
        for a in args:
            t = arr_term(eng, st, a)
            if t.op == "phi":
                out.append(eng.split(st, Phi(t.args[0], t.args[1],
                                             t.args[2]) if not isinstance(
                    a, Ref) else Phi(t.args[0], a, a),
                    lambda s, x: f(eng, s, [x], {}) if eng.term(
                        s, x).op != "phi" else eng.wrap(s, mk(
                            "atleast", eng.term(s, x), kind="arr"))))
                continue
            if t.shape is not None and len(t.shape) >= nd and eng.isarr(
                    st, a):
                out.append(a)
                continue
            if eng.isarr(st, a):
                out.append(eng.view(st, a, ("atleast_%dd" % nd,)))
                continue
            from .interp import apply_view
            out.append(eng.alloc(st, Arr(apply_view(
                t, ("atleast_%dd" % nd,)))))
        if len(out) == 1:
            return out[0]
        return Tup(out)
    return f


EXT["np.atleast_1d"] = np_atleast(1)
EXT["np.atleast_2d"] = np_atleast(2)


@ext("np.reshape")
def np_reshape(eng, st, args, kwargs):
    a, shp, kw = P(eng, st, args, kwargs, "a shape")
    return do_reshape(eng, st, a, arr_term(eng, st, a), shp)


@ext("np.ravel")
def np_ravel(eng, st, args, kwargs):
    a = args[0]
    if eng.isarr(st, a):
        return eng.view(st, a, ("flat",))
    return eng.wrap(st, tm.flat(arr_term(eng, st, a)))


@ext("np.transpose")
def np_transpose(eng, st, args, kwargs):
    a, ax, kw = P(eng, st, args, kwargs, "a axes=None")
    t = arr_term(eng, st, a)
    if ax is NONE:
        if eng.isarr(st, a):
            return eng.view(st, a, ("T",))
        return eng.wrap(st, tm.transpose(t))
    axt = [eng.term(st, x) for x in eng.iterate(st, ax)]
    ks = [ct(x) for x in axt]
    if ks == [1, 0]:
        return eng.wrap(st, tm.transpose(t))
    if all(isinstance(k, int) for k in ks):
        if ks == list(range(len(ks))):
            return a
        sh = None if t.shape is None else tuple(t.shape[k] for k in ks)
        return eng.wrap(st, mk("permute", t, tuple(axt), shape=sh,
                               kind="arr"))
    return eng.wrap(st, opaque("permute", t, tuple(axt), kind="arr"))


def parts_of(eng, st, v):
    its = eng.iterate(st, v)
    if isinstance(its, Phi):
        return None
    if not isinstance(its, list):
        return None
    return [arr_term(eng, st, x) for x in its]


def joined(eng, st, ps, ax):
    """arrays joined along an axis; the other sizes must be equal"""
    shapes = [x.shape for x in ps]
    if None not in shapes and any(
            len(s) != len(shapes[0]) or any(
                i != ax and tm.is_num(a) and tm.is_num(b) and a is not b
                for i, (a, b) in enumerate(zip(s, shapes[0])))
            for s in shapes):
        eng.raise_exc(st, "ValueError", "all the input array dimensions "
                      "except for the concatenation axis must match")
    return tm.concat(ps, ax)


@ext("np.concatenate")
def np_concatenate(eng, st, args, kwargs):
    v, axis, kw = P(eng, st, args, kwargs, "arrays axis=0")
    ax = ct(eng.term(st, axis))
    ps = parts_of(eng, st, v)
    if ps is None or ax is not None and not isinstance(ax, int):
        return eng.alloc(st, Arr(mk("concat*", eng.term(st, v), eng.term(
            st, axis), kind="arr")))
    if not ps:
        eng.raise_exc(st, "ValueError", "need at least one array")
    if ax is None:
        ps = [tm.flat(p) for p in ps]
        ax = 0
    if ax < 0:
        if any(p.shape is None for p in ps):
            return eng.alloc(st, Arr(mk("concat-", const(ax), *ps,
                                        kind="arr")))
        ax += len(ps[0].shape)
    return eng.alloc(st, Arr(joined(eng, st, ps, ax)))


@ext("np.hstack")
def np_hstack(eng, st, args, kwargs):
    ps = parts_of(eng, st, args[0])
    if ps is None:
        return eng.alloc(st, Arr(mk("concat*", eng.term(st, args[0]), ONE,
                                    kind="arr")))
    if not ps:
        eng.raise_exc(st, "ValueError",
                      "need at least one array to concatenate")
    ps = [p if p.shape is None or len(p.shape) else tm.array([p])
          for p in ps]
    rk = {None if p.shape is None else len(p.shape) for p in ps}
    if rk == {1}:
        return eng.alloc(st, Arr(joined(eng, st, ps, 0)))
    if rk and None not in rk and len(rk) > 1:
        eng.raise_exc(st, "ValueError", "dimension mismatch")
    return eng.alloc(st, Arr(joined(eng, st, ps, 1)))


@ext("np.vstack", "np.row_stack")
def np_vstack(eng, st, args, kwargs):
    ps = parts_of(eng, st, args[0])
    if ps is None:
        return eng.alloc(st, Arr(mk("concat*", eng.term(st, args[0]), ZERO,
                                    kind="arr")))
    if not ps:
        eng.raise_exc(st, "ValueError",
                      "need at least one array to concatenate")
    ps = [tm.row(p) if p.shape is not None and len(p.shape) == 1 else p
          for p in ps]
    return eng.alloc(st, Arr(joined(eng, st, ps, 0)))


@ext("np.column_stack")
def np_column_stack(eng, st, args, kwargs):
    ps = parts_of(eng, st, args[0])
    if ps is None:
        return eng.alloc(st, Arr(mk("colstack*", eng.term(st, args[0]),
                                    kind="arr")))
    if not ps:
        eng.raise_exc(st, "ValueError",
                      "need at least one array to concatenate")
    ps = [tm.col(p) if p.shape is not None and len(p.shape) == 1 else p
          for p in ps]
    return eng.alloc(st, Arr(joined(eng, st, ps, 1)))


@ext("np.stack")
def np_stack(eng, st, args, kwargs):
    v, axis, kw = P(eng, st, args, kwargs, "arrays axis=0")
    ps = parts_of(eng, st, v)
    if ps is not None and axis is ZERO:
        return eng.alloc(st, Arr(tm.array(ps)))
    if ps is not None and axis is ONE and all(
            p.shape is not None and len(p.shape) == 1 for p in ps):
        return eng.alloc(st, Arr(tm.concat([tm.col(p) for p in ps], 1)))
    return eng.alloc(st, Arr(opaque("stack", eng.term(st, v), eng.term(
        st, axis), kind="arr")))


@ext("np.split")
def np_split(eng, st, args, kwargs):
    a, ind, axis, kw = P(eng, st, args, kwargs,
                         "ary indices_or_sections axis=0")
    t = arr_term(eng, st, a)
    ax = ct(eng.term(st, axis))
    if t.op == "phi" and t.shape is None:
        return eng.split(st, Phi(t.args[0], t.args[1], t.args[2]),
                         lambda s, x: np_split(eng, s, [eng.alloc(s, Arr(x)),
                                                        ind, axis], {}))
    it = eng.term(st, ind)
    if not isinstance(ax, int):
        return eng.wrap(st, opaque("split", t, it, kind="list"))
    if t.shape is not None:
        ax %= len(t.shape)
    n = t.shape[ax] if t.shape is not None else mk(
        "item", mk("shape", t, kind="tuple"), const(ax), kind="int", shape=())
    pre = (("s", None, None, None),) * ax

    def piece(lo, hi):
        i = pre + (("s", lo, hi, None),)
        if eng.isarr(st, a):
            return eng.view(st, a, ("getitem", i))
        return eng.wrap(st, tm.getitem(t, i))
    if tm.is_num(it):
        k = tm.cval(it)
        d = tm.div(n, it)
        p = tm._aspoly(d)
        integral = all(c.denominator == 1 for c in p.values())
        if tm.is_num(d) and not integral:
            eng.raise_exc(st, "ValueError", "array split does not result in "
                          "an equal division")
        if not integral:
            c = tm.eq(tm.mod(n, it), ZERO)
            if st.known(c) is False:
                eng.raise_exc(st, "ValueError", "unequal division")
            if st.known(c) is None:
                s2 = st.fork(c, False)
                eng.raises(s2, eng.make_exc(s2, "ValueError", []))
                st.learn(c, True)
        return eng.alloc(st, Lst([piece(
            tm.mul(d, const(i)) if i else None,
            tm.mul(d, const(i + 1)) if i < k - 1 else None)
            for i in range(k)]))
    its = eng.iterate(st, ind) if not (isinstance(ind, T) and ind.shape == (
    )) else None
    if not isinstance(its, list):
        return eng.wrap(st, mk("split", t, it, const(ax), kind="list"))
    cuts = [eng.term(st, x) for x in its]
    cuts = [None] + cuts + [None]
    return eng.alloc(st, Lst([piece(cuts[i], cuts[i + 1])
                              for i in range(len(cuts) - 1)]))


@ext("np.kron")
def np_kron(eng, st, args, kwargs):
    a, b = [arr_term(eng, st, x) for x in args[:2]]
    if a is NONE or b is NONE:
        eng.raise_exc(st, "TypeError", "None in a product")
    return eng.wrap(st, kron(a, b))


def kron(a, b):
    sh = None
    if a.shape is not None and b.shape is not None and len(a.shape) == len(
            b.shape):
        sh = tuple(tm.mul(x, y) for x, y in zip(a.shape, b.shape))
    return mk("kron", a, b, shape=sh, kind="arr")


@ext("la.khatri_rao")
def la_khatri_rao(eng, st, args, kwargs):
    a, b = [arr_term(eng, st, x) for x in args[:2]]
    sh = None
    if a.shape is not None and b.shape is not None:
        if len(a.shape) != 2 or len(b.shape) != 2:
            eng.raise_exc(st, "ValueError", "khatri_rao needs 2-d")
        sh = (tm.mul(a.shape[0], b.shape[0]), a.shape[1])
    return eng.wrap(st, mk("khatri_rao", a, b, shape=sh, kind="arr"))


@ext("np.outer")
def np_outer(eng, st, args, kwargs):
    a, b = [arr_term(eng, st, x) for x in args[:2]]
    if a.shape is not None and b.shape is not None and len(a.shape) == len(
            b.shape) == 1:
        return eng.wrap(st, tm.mul(tm.col(a), tm.row(b)))
    return eng.wrap(st, mk("outer", a, b, kind="arr"))


@ext("np.dot", "np.matmul")
def np_dot(eng, st, args, kwargs):
    return eng.wrap(st, matmul_terms(eng, st, arr_term(eng, st, args[0]),
                                     arr_term(eng, st, args[1])))


@ext("np.diag")
def np_diag(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    if t.shape is not None and len(t.shape) == 1:
        return eng.alloc(st, Arr(tm.diag(t)))
    if t.op == "diag":
        return eng.wrap(st, t.args[0])
    if t.shape is not None and len(t.shape) == 2:
        return eng.wrap(st, mk("diagonal", t, shape=(t.shape[0],),
                               kind="arr"))
    return eng.wrap(st, mk("np.diag", t, kind="arr"))


@ext("spint.trapezoid", "np.trapezoid", "np.trapz")
def trapezoid(eng, st, args, kwargs):
    y, x, dx, ax, _ = P(eng, st, args, kwargs, "y x=None dx=1.0 axis=-1")
    y, x, dx = arr_term(eng, st, y), eng.term(st, x), eng.term(st, dx)
    i = ct(eng.term(st, ax))
    if y.shape is None or not isinstance(i, int):
        return eng.wrap(st, opaque("trapezoid", y, x, dx))
    i %= len(y.shape)
    hi = ("s", const(1), None, None)
    lo = ("s", None, const(-1), None)
    pre = (("s", None, None, None),) * i
    mid = tm.div(tm.add(tm.getitem(y, pre + (hi,)), tm.getitem(
        y, pre + (lo,))), const(2))
    if x is not NONE:
        dx = tm.sub(tm.getitem(x, (hi,)), tm.getitem(x, (lo,)))
        if i != len(y.shape) - 1:
            dx = tm.reshape(dx, (dx.shape[0],) + (const(1),) * (
                len(y.shape) - 1 - i))
    return eng.wrap(st, red("sum", tm.mul(mid, dx), const(i), False))


@ext("np.diff")
def np_diff(eng, st, args, kwargs):
    a, n, axis, kw = P(eng, st, args, kwargs, "a n=1 axis=-1")
    t = arr_term(eng, st, a)
    if t.shape is not None and len(t.shape) == 1 and n is ONE:
        L = t.shape[0]
        hi = tm.getitem(t, (("s", ONE, None, None),))
        lo = tm.getitem(t, (("s", None, tm.sub(L, ONE), None),))
        return eng.wrap(st, tm.sub(hi, lo))
    return eng.wrap(st, mk("diff", t, eng.term(st, n), eng.term(st, axis),
                           kind="arr"))


@ext("np.gradient")
def np_gradient(eng, st, args, kwargs):
    f, kw = P(eng, st, args[:1], {k: v for k, v in kwargs.items() if k == "f"},
              "f")
    f = arr_term(eng, st, f)
    axis = kwargs.get("axis")
    axis = NONE if axis is None else eng.term(st, axis)
    edge = eng.term(st, kwargs.get("edge_order", const(1)))
    gaps = [arr_term(eng, st, a) for a in args[1:]] or [const(1)]
    nd = None if f.shape is None else len(f.shape)
    if axis is NONE and nd == 1:
        axis = const(0)
    if nd and tm.is_num(axis) and len(gaps) == 1:
        axis = const(int(tm.cval(axis)) % nd)
        g = gaps[0]
        if g.shape is not None and len(g.shape) == 1:
            if tm.eq(g.shape[0], f.shape[int(tm.cval(axis))]) is FALSE:
                eng.raise_exc(st, "ValueError", "when 1d, distances must "
                              "match the length of the dimension")
        return eng.alloc(st, Arr(mk("gradient", f, g, axis, edge,
                                    shape=f.shape, kind="arr")))
    return eng.wrap(st, mk("np.gradient", f, *gaps, axis, edge, kind="arr"))


@ext("np.allclose", "np.isclose", "np.array_equal")
def np_allclose(eng, st, args, kwargs):
    a, b = arr_term(eng, st, args[0]), arr_term(eng, st, args[1])
    if a is b:
        return TRUE
    if tm.is_num(a) and tm.is_num(b):
        return const(abs(tm.cval(a) - tm.cval(b)) <= 1e-8 + 1e-5 * abs(
            tm.cval(b)))
    if not any(x.op in ("sym", "opaque") or x.opaque for t in (a, b)
               for x in tm.subterms(t)) and len(args) == 2 and not kwargs:
        # both are constants
        from . import rand
        m = rand.Model(1, {})
        v = m.ev(mk("allclose", a, b, kind="bool", shape=()))
        if not m.weak and not m.invalid:
            return const(bool(v))
    x, y = (a, b) if a.uid < b.uid else (b, a)
    return mk("allclose", x, y, kind="bool", shape=())


@ext("np.sort", "np.argsort", "np.unique", "np.vander",
     "np.searchsorted", "np.trace", "np.flip", "np.roll", "np.tile",
     "np.repeat", "np.triu", "np.tril", "np.nan_to_num", "np.triu_indices",
     "np.tril_indices", "np.ix_", "np.flatnonzero", "np.nonzero",
     "np.meshgrid", "np.moveaxis", "np.swapaxes", "np.einsum",
     "np.tensordot", "np.cross", "np.trapezoid", "np.clip", "np.fromiter",
     "np.interp", "np.where", "np.take", "np.delete", "np.insert",
     "np.append", "np.linalg", "np.pad")
def np_generic(eng, st, args, kwargs):
    return Method(None, "unreached")


def _generic(nm):
    def f(eng, st, args, kwargs):
        ts = [arr_term(eng, st, a) for a in args]
        for k in sorted(kwargs):
            ts.append(const("kw:" + k))
            ts.append(arr_term(eng, st, kwargs[k]))
        return eng.wrap(st, mk(nm, *ts, kind="arr",
                               shape=_gshape(nm, ts, kwargs)))
    return f


def _gshape(nm, ts, kwargs):
    """result shapes of the plain numpy functions that have simple ones"""
    sh = [t.shape if isinstance(t, T) else None for t in ts]
    nm = nm.split(".")[-1]
    if not ts or sh[0] is None:
        return None
    if nm in ("sort", "flip", "roll", "triu", "tril", "nan_to_num", "clip",
              "cross", "gradient"):
        return sh[0] if nm != "gradient" or len(sh[0]) == 1 else None
    if nm == "argsort" and ("axis" not in kwargs or len(sh[0]) == 1):
        return sh[0]
    if nm == "searchsorted" and len(ts) > 1:
        return sh[1]
    if nm == "trace":
        return ()
    if nm == "interp":
        return sh[0]
    if nm == "take" and len(ts) == 2 and len(sh[0]) == 1:
        return sh[1]
    if nm == "where" and len(ts) == 3 and None not in sh:
        best = max(sh, key=len)
        if all(x in ((), best) for x in sh):
            return best
    return None


for _n in list(EXT):
    if EXT[_n] is np_generic:
        EXT[_n] = _generic(_n)


@ext("np.squeeze")
def np_squeeze(eng, st, args, kwargs):
    return array_method(eng, st, args[0], arr_term(eng, st, args[0]),
                        "squeeze", [], {})


@ext("np.finfo")
def np_finfo(eng, st, args, kwargs):
    return mk("finfo", *eng.targs(st, args, kwargs), kind="obj")


@ext("np.copyto")
def np_copyto(eng, st, args, kwargs):
    eng.store_arr(st, args[0], eng.term(st, args[1]), "np.copyto")
    return NONE


def matmul_terms(eng, st, x, y):
    for t in (x, y):
        if t is NONE:
            eng.raise_exc(st, "TypeError", "None operand")
        if t.kind in ("int", "float", "bool", "dim"):
            eng.raise_exc(st, "ValueError", "matmul with scalar")
    if x.op == "list":
        x = tm.array(list(x.args))
    if y.op == "list":
        y = tm.array(list(y.args))
    if x.shape is not None and y.shape is not None and x.shape and y.shape:
        a = x.shape[-1]
        b = y.shape[-2] if len(y.shape) > 1 else y.shape[0]
        if a is not b and a.shape == () and b.shape == ():
            e = tm.eq(a, b)
            if st.known(e) is False:
                eng.raise_exc(st, "ValueError", "matmul mismatch")
    return tm.matmul(x, y)


# ----------------------------------------------------------------- linalg
@ext("la.norm")
def la_norm(eng, st, args, kwargs):
    a, o, axis, keep, kw = P(eng, st, args, kwargs,
                             "a ord=None axis=None keepdims=False")
    t = arr_term(eng, st, a)
    ot, ax = eng.term(st, o), eng.term(st, axis)
    k = bool(ct(eng.term(st, keep)))
    two = ot is NONE or (tm.is_const(ot) and tm.cval(ot) == "fro")
    if not two and tm.is_num(ot) and tm.cval(ot) == 2 and (
            ax is not NONE or (t.shape is not None and len(t.shape) == 1)):
        two = True
    if two:
        return eng.wrap(st, tm.power(red("sum", tm.power(t, const(2)), ax, k),
                                     const(Fraction(1, 2))))
    if ax is not NONE or (t.shape is not None and len(t.shape) == 1):
        if tm.is_num(ot) and tm.cval(ot) == 1:
            return eng.wrap(st, red("sum", ew("abs", None, t), ax, k))
        if tm.is_const(ot) and tm.cval(ot) == float("inf"):
            return eng.wrap(st, red("max", ew("abs", None, t), ax, k))
        if tm.is_num(ot) and 0 < tm.cval(ot) < 100:
            return eng.wrap(st, tm.power(red("sum", tm.power(ew(
                "abs", None, t), ot), ax, k), tm.div(const(1), ot)))
    sh = reduce_shape(t.shape, ax, k)
    return eng.wrap(st, mk("norm", t, ot, ax, const(k), shape=sh,
                           kind="float" if sh == () else None))


def opts_term(eng, st, kw):
    ts = []
    for k in sorted(kw):
        if k == "check_finite":
            continue
        ts.append(const(k))
        v = kw[k]
        ts.append(v if isinstance(v, T) else eng.term(st, v))
    return ts


@ext("la.svd")
def la_svd(eng, st, args, kwargs):
    kw = dict(kwargs)
    t = arr_term(eng, st, args[0])
    fm = ct(eng.term(st, kw.pop("full_matrices", TRUE))) if "**" not in kw \
        or True else None
    uv = eng.term(st, kw.pop("compute_uv", TRUE))
    o = opts_term(eng, st, kw)
    n = m = k_ = None
    if t.shape is not None and len(t.shape) == 2:
        n, m = t.shape
        k_ = minmax("min", [n, m])
    U = mk("svdU", t, const(bool(fm)), *o, kind="arr", shape=None if n is None
           else (n, n if fm else k_))
    s = mk("svdS", t, *o, kind="arr", shape=None if n is None else (k_,))
    V = mk("svdVt", t, const(bool(fm)), *o, kind="arr", shape=None if n is
           None else (m if fm else k_, m))
    if uv is FALSE:
        return eng.alloc(st, Arr(s))
    return Tup([eng.alloc(st, Arr(x)) for x in (U, s, V)])


@ext("la.svdvals")
def la_svdvals(eng, st, args, kwargs):
    return la_svd(eng, st, args[:1], {"compute_uv": FALSE})


def randomized_svd(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    nc = kwargs.get("n_components", args[1] if len(args) > 1 else NONE)
    kw = {k: v for k, v in kwargs.items() if k != "n_components"}
    o = [eng.term(st, nc)] + opts_term(eng, st, kw)
    n = m = k_ = None
    if t.shape is not None and len(t.shape) == 2:
        n, m = t.shape
        k_ = eng.term(st, nc)
    U = mk("rsvdU", t, *o, kind="arr", shape=None if n is None else (n, k_))
    s = mk("rsvdS", t, *o, kind="arr", shape=None if n is None else (k_,))
    V = mk("rsvdVt", t, *o, kind="arr", shape=None if n is None else (k_, m))
    return Tup([eng.alloc(st, Arr(x)) for x in (U, s, V)])


EXT["sklearn.utils.extmath.randomized_svd"] = randomized_svd


@ext("la.eigh")
def la_eigh(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    o = opts_term(eng, st, kwargs)
    sh = t.shape
    w = mk("eighW", t, *o, kind="arr", shape=None if sh is None else (sh[0],))
    V = mk("eighV", t, *o, kind="arr", shape=sh)
    return Tup([eng.alloc(st, Arr(w)), eng.alloc(st, Arr(V))])


@ext("la.lstsq")
def la_lstsq(eng, st, args, kwargs):
    a, b, kw = P(eng, st, args, kwargs, "a b")
    A, B = arr_term(eng, st, a), arr_term(eng, st, b)
    o = opts_term(eng, st, kw)
    sh = None
    if A.shape is not None and B.shape is not None:
        sh = (A.shape[1],) + tuple(B.shape[1:])
    x = mk("lstsq", A, B, *o, kind="arr", shape=sh)
    eng.event(st, "lstsq", "la.lstsq", [a, b], kw)
    return Tup([eng.alloc(st, Arr(x)),
                eng.alloc(st, Arr(mk("lstsq.res", A, B, *o, kind="arr"))),
                mk("lstsq.rank", A, kind="int", shape=()),
                eng.alloc(st, Arr(mk("svdS", A, kind="arr")))])


@ext("la.solve")
def la_solve(eng, st, args, kwargs):
    A, B = arr_term(eng, st, args[0]), arr_term(eng, st, args[1])
    eng.maybe_raise(st, "la.solve")
    return eng.wrap(st, tm.matmul(tm.inverse(A), B))


@ext("la.inv")
def la_inv(eng, st, args, kwargs):
    return eng.wrap(st, tm.inverse(arr_term(eng, st, args[0])))


@ext("la.cho_factor", "la.lu_factor")
def la_cho(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    return mk("factored", t, kind="obj")


@ext("la.cho_solve", "la.lu_solve")
def la_cho_solve(eng, st, args, kwargs):
    c = eng.term(st, args[0])
    B = arr_term(eng, st, args[1])
    if c.op == "factored":
        return eng.wrap(st, tm.matmul(tm.inverse(c.args[0]), B))
    return eng.wrap(st, opaque("cho_solve", c, B))


@ext("la.sqrtm")
def la_sqrtm(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    if t.op == "diag":
        return eng.wrap(st, tm.diag(tm.power(t.args[0], const(
            Fraction(1, 2)))))
    return eng.wrap(st, mk("sqrtm", t, shape=t.shape, kind="arr"))


@ext("la.block_diag")
def la_block_diag(eng, st, args, kwargs):
    ts = [arr_term(eng, st, a) for a in args]
    sh = None
    if ts and all(x.shape is not None and len(x.shape) == 2 for x in ts):
        sh = [tm.ZERO, tm.ZERO]
        for x in ts:
            sh = [tm.add(sh[i], x.shape[i]) for i in (0, 1)]
        sh = tuple(sh)
    return eng.wrap(st, mk("block_diag", *ts, shape=sh, kind="arr"))


@ext("la.cond")
def la_cond(eng, st, args, kwargs):
    return mk("cond", arr_term(eng, st, args[0]), kind="float", shape=())


@ext("la.qr")
def la_qr(eng, st, args, kwargs):
    t = arr_term(eng, st, args[0])
    o = opts_term(eng, st, kwargs)
    if kwargs.get("mode") is const("economic") and len(kwargs) == 1 and \
            t.shape is not None and len(t.shape) == 2 and all(
                map(tm.is_num, t.shape)):
        n, k = t.shape
        m = min(t.shape, key=tm.cval)
        return Tup([eng.wrap(st, mk("thinQ", t, kind="arr", shape=(n, m))),
                    eng.wrap(st, mk("thinR", t, kind="arr", shape=(m, k)))])
    return Tup([eng.wrap(st, mk("qrQ", t, *o, kind="arr")),
                eng.wrap(st, mk("qrR", t, *o, kind="arr"))])


# ----------------------------------------------------------------- sparse
@ext("sparse.issparse")
def issparse(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Phi):
        return tm.phi(v.cond, issparse(eng, st, [v.a], {}),
                      issparse(eng, st, [v.b], {}))
    if isinstance(v, Ref) and isinstance(st.get(v), Opq):
        return FALSE
    if isinstance(v, Ref) and not isinstance(st.get(v), Arr):
        return FALSE
    if not isinstance(v, (Ref, T)):
        return FALSE
    t = eng.term(st, v)
    return sp_of(t)


def sp_of(t):
    if t.op == "phi":
        return tm.phi(t.args[0], sp_of(t.args[1]), sp_of(t.args[2]))
    if t.kind == "sparse":
        return TRUE
    if t.kind is not None or t.shape is not None or t.op != "sym":
        return FALSE
    return mk("issparse", t, kind="bool", shape=())


@ext("sparse.dia_array")
def dia_array(eng, st, args, kwargs):
    a, kw = P(eng, st, args, kwargs, "arg")
    shp = kw.get("shape", NONE)
    dims = dims_of(eng, st, shp) if shp is not NONE else None
    its = eng.iterate(st, a)
    if isinstance(its, list) and len(its) == 2:
        d, o = arr_term(eng, st, its[0]), arr_term(eng, st, its[1])
        if d.op == "sp.data" and o.op == "sp.offsets" and d.args[0] is \
                o.args[0]:
            return eng.alloc(st, Arr(d.args[0]))
        return eng.alloc(st, Arr(mk("dia_array", d, o, dims or (),
                                    shape=dims, kind="sparse")))
    return eng.alloc(st, Arr(opaque("dia_array", eng.term(st, a),
                                    kind="sparse")))


@ext("sparse.csr_array", "sparse.csc_array")
def csr_array(eng, st, args, kwargs):
    a = args[0]
    t = arr_term(eng, st, a) if not isinstance(a, Tup) else eng.term(st, a)
    return eng.alloc(st, Arr(mk("csr_array", t, shape=t.shape
                                if t.kind != "tuple" else dims_of(
                                    eng, st, kwargs["shape"])
                                if "shape" in kwargs else None,
                                kind="sparse")))


def _coo(cls):
    def f(eng, st, args, kwargs):
        a = args[0]
        if isinstance(a, Tup) and len(a.items) == 2 and isinstance(
                a.items[1], Tup):
            d = arr_term(eng, st, a.items[0])
            r = arr_term(eng, st, a.items[1].items[0])
            c = arr_term(eng, st, a.items[1].items[1])
            if d.op == "sp.data" and r.op == "sp.row" and c.op == "sp.col" \
                    and d.args[0] is r.args[0] is c.args[0]:
                t = d.args[0]
                shp = kwargs.get("shape", args[1] if len(args) > 1 else NONE)
                dims = eng.term(st, shp)
                want = t.shape
                if want is not None and dims.op in ("array", "tuple",
                                                    "list") and tuple(
                        dims.args) == want:
                    pass
                elif dims.op == "shape":
                    pass
                else:
                    t = mk("coo?", t, dims, kind="sparse")
                if t.op == "tocoo" and False:
                    t = t.args[0]
                if cls == "coo_matrix":
                    t = mk("spmatrix", t, shape=t.shape, kind="sparse")
                return eng.alloc(st, Arr(t))
            return eng.alloc(st, Arr(mk(cls, d, r, c, *eng.targs(
                st, [], kwargs), kind="sparse")))
        return eng.alloc(st, Arr(opaque(cls, *eng.targs(st, args, kwargs),
                                        kind="sparse")))
    return f


EXT["sparse.coo_matrix"] = _coo("coo_matrix")
EXT["sparse.coo_array"] = _coo("coo_array")
EXT["sparse.diags"] = _generic("sparse.diags")


# ----------------------------------------------------------------- special
@ext("special.comb", "math.comb")
def sp_comb(eng, st, args, kwargs):
    n, k, exact, rep, kw = P(eng, st, args, kwargs,
                             "N k exact=False repetition=False")
    n, k = eng.term(st, n), eng.term(st, k)
    if eng.term(st, rep) is TRUE:
        n = tm.sub(tm.add(n, k), ONE)
    return binom(n, k)


def binom(n, k):
    if tm.is_num(k) and k.kind == "int" and 0 <= tm.cval(k) <= 8:
        num, den = ONE, 1
        for i in range(tm.cval(k)):
            num = tm.mul(num, tm.sub(n, const(i)))
            den *= i + 1
        r = tm.div(num, const(den))
        if r.kind is None or r.kind == "float":
            r2 = tm.mk("noop") if False else r
        return r
    return mk("binom", n, k, kind="int", shape=())


@ext("special.binom")
def sp_binom(eng, st, args, kwargs):
    return binom(eng.term(st, args[0]), eng.term(st, args[1]))


# ----------------------------------------------------------------- stdlib
@ext("copy.copy")
def copy_copy(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Arr):
            return eng.alloc(st, Arr(eng.content(st, o)))
        return eng.alloc(st, o.copy())
    return v


@ext("copy.deepcopy")
def copy_deepcopy(eng, st, args, kwargs):
    memo = {}

    def go(v):
        if isinstance(v, Phi):
            return Phi(v.cond, go(v.a), go(v.b))
        if isinstance(v, Tup):
            return Tup([go(x) for x in v.items])
        if not isinstance(v, Ref):
            return v
        if v.addr in memo:
            return memo[v.addr]
        o = st.get(v)
        from .interp import UNSET
        if isinstance(o, Inst):
            dc = eng.class_lookup(o.cls, "__deepcopy__")
            if dc is not None:
                r = eng.call_method(st, v, "__deepcopy__", [NONE])
                memo[v.addr] = r
                return r
            n = Inst(o.cls)
            r = memo[v.addr] = eng.alloc(st, n)
            n.attrs = {k: x if x is UNSET else go(x)
                       for k, x in o.attrs.items()}
            return r
        if isinstance(o, Arr):
            r = memo[v.addr] = eng.alloc(st, Arr(eng.content(st, o)))
            return r
        if isinstance(o, Lst):
            n = Lst([], o.sym)
            r = memo[v.addr] = eng.alloc(st, n)
            n.items = [go(x) for x in o.items]
            return r
        if isinstance(o, SetO):
            n = SetO([], o.sym)
            r = memo[v.addr] = eng.alloc(st, n)
            n.items = [go(x) for x in o.items]
            return r
        if isinstance(o, Dct):
            if o.frozen is True:
                eng.raise_exc(st, "TypeError",
                              "cannot pickle 'mappingproxy' object")
            n = o.copy()
            r = memo[v.addr] = eng.alloc(st, n)
            n.items = {k: (kv, go(x)) for k, (kv, x) in o.items.items()}
            return r
        if isinstance(o, Opq):
            n = o.copy()
            r = memo[v.addr] = eng.alloc(st, n)
            n.attrs = {k: go(x) for k, x in o.attrs.items()}
            return r
        r = memo[v.addr] = eng.alloc(st, o.copy())
        return r
    return go(args[0])


@ext("functools.wraps")
def functools_wraps(eng, st, args, kwargs):
    orig = args[0]

    def deco(e, s, a, k):
        g = a[0]
        if isinstance(g, Func):
            g.attrs["wrapped"] = orig
            if isinstance(orig, Func) and orig.attrs.get("abstract"):
                g.attrs["abstract"] = True
        return g
    return PyFn("wraps", deco)


@ext("abc.abstractmethod")
def abstractmethod(eng, st, args, kwargs):
    f = args[0]
    if isinstance(f, Func):
        f.attrs["abstract"] = True
    return f


@ext("builtins.property")
def b_property(eng, st, args, kwargs):
    fget, fset, fdel, doc, kw = P(eng, st, args, kwargs,
                                  "fget=None fset=None fdel=None doc=None")
    f = lambda x: None if x is NONE else x
    return Prop(f(fget), f(fset), f(fdel))


@ext("builtins.classmethod")
def b_classmethod(eng, st, args, kwargs):
    return ClassMethod(args[0])


@ext("builtins.staticmethod")
def b_staticmethod(eng, st, args, kwargs):
    return StaticMethod(args[0])


class FieldSpec(Val):
    def __init__(self, kw):
        self.kw = kw


@ext("dataclasses.dataclass")
def dataclass(eng, st, args, kwargs):
    frozen = kwargs.get("frozen", FALSE)

    def deco(e, s, a, k):
        c = a[0]
        c.isdataclass = True
        c.ns["__frozen__"] = frozen
        return c
    if args:
        return deco(eng, st, args, {})
    return PyFn("dataclass", deco)


@ext("dataclasses.field")
def dc_field(eng, st, args, kwargs):
    return FieldSpec(kwargs)


def dataclass_init(eng, st, cls, ref, args, kwargs):
    fields = []
    for c in reversed(cls.mro):
        for f in c.ns.get("__annofields__", []):
            if f not in fields:
                fields.append(f)
    args, kwargs = list(args), dict(kwargs)
    for f in fields:
        d = eng.class_lookup(cls, f)
        spec = d.kw if isinstance(d, FieldSpec) else {}
        if spec.get("init", TRUE) is FALSE:
            continue
        if args:
            v = args.pop(0)
        elif f in kwargs:
            v = kwargs.pop(f)
        elif isinstance(d, FieldSpec):
            if "default" in spec:
                v = spec["default"]
            elif "default_factory" in spec:
                v = eng.call(spec["default_factory"], [], {}, st)
            else:
                eng.raise_exc(st, "TypeError", "missing " + f)
        elif d is not None:
            v = d
        else:
            eng.raise_exc(st, "TypeError", "missing " + f)
        st.mut(ref).attrs[f] = v
    if args or kwargs:
        eng.raise_exc(st, "TypeError", "unexpected arguments")
    m = eng.class_lookup(cls, "__post_init__")
    if m is not None:
        eng.call(Bound(m, ref), [], {}, st)


@ext("builtins.object.__setattr__")
def obj_setattr(eng, st, args, kwargs):
    st.mut(args[0]).attrs[ct(args[1])] = args[2]
    return NONE


@ext("builtins.object.__new__")
def obj_new(eng, st, args, kwargs):
    return eng.alloc(st, Inst(args[0]))


@ext("types.MappingProxyType")
def mappingproxy(eng, st, args, kwargs):
    v = args[0]
    o = st.get(v) if isinstance(v, Ref) else None
    if isinstance(o, Dct):
        d = o.copy()
        d.frozen = True
        return eng.alloc(st, d)
    return eng.alloc(st, _frozen(Dct({}, eng.term(st, v))))


def _frozen(d):
    d.frozen = True
    return d


@ext("itertools.permutations", "itertools.combinations", "itertools.product",
     "itertools.chain", "itertools.combinations_with_replacement")
def _itertools(eng, st, args, kwargs):
    return opaque("itertools")


def _itx(name):
    def f(eng, st, args, kwargs):
        pools = []
        for a in args:
            if isinstance(a, T) and tm.is_num(a):
                pools.append(a)
                continue
            its = eng.iterate(st, a)
            if not isinstance(its, list):
                ts = eng.targs(st, args, kwargs)
                return SymIter(mk("itertools." + name, *ts, kind="list"),
                               lambda s: mk("elem", mk(
                                   "itertools." + name, *ts, kind="list"),
                                   kind="tuple"))
            pools.append(its)
        if name == "chain":
            return eng.alloc(st, Lst([x for p in pools for x in p]))
        kw = {k: ct(v) for k, v in kwargs.items()}
        out = [Tup(x) for x in getattr(_it, name)(*[
            tm.cval(p) if isinstance(p, T) else p for p in pools], **kw)]
        return eng.alloc(st, Lst(out))
    return f


for _n in ("permutations", "combinations", "product", "chain",
           "combinations_with_replacement"):
    EXT["itertools." + _n] = _itx(_n)


@ext("collections.OrderedDict")
def ordereddict(eng, st, args, kwargs):
    return eng.alloc(st, Dct())


@ext("collections.defaultdict")
def defaultdict(eng, st, args, kwargs):
    return eng.alloc(st, Dct(factory=args[0] if args else None))


@ext("warnings.warn")
def warn(eng, st, args, kwargs):
    eng.event(st, "warn", "warn", args)
    return NONE


@ext("warnings.simplefilter", "warnings.filterwarnings")
def wfilter(eng, st, args, kwargs):
    eng.event(st, "warnfilter", "filter", args)
    return NONE


@ext("warnings.catch_warnings")
def wcatch(eng, st, args, kwargs):
    return sym("catch_warnings", "obj")


@ext("builtins.print", "logging.info", "logging.error", "logging.warning",
     "logging.debug")
def b_print(eng, st, args, kwargs):
    return NONE


@ext("os.path.abspath")
def abspath(eng, st, args, kwargs):
    return mk("abspath", eng.term(st, args[0]), kind="str")


@ext("os.remove")
def osremove(eng, st, args, kwargs):
    eng.event(st, "removefile", "remove", args)
    t = eng.term(st, args[0])
    f = _files(eng, st)
    st.mut(f).items.pop(("t", t.uid), None)
    return NONE


@ext("signal.signal")
def signal_signal(eng, st, args, kwargs):
    if getattr(eng, "no_signals", False):
        eng.raise_exc(st, "ValueError", "signal only works in main thread of "
                      "the main interpreter")
    old = getglobal(eng, st, "SIGALRM handler")
    setglobal(eng, st, "SIGALRM handler", args[1])
    return old


@ext("signal.alarm", "signal.setitimer")
def signal_alarm(eng, st, args, kwargs):
    setglobal(eng, st, "alarm", args[0] if not isinstance(
        args[0], Ext) else args[1])
    return ZERO


@ext("signal.getsignal")
def signal_get(eng, st, args, kwargs):
    return getglobal(eng, st, "SIGALRM handler")


@ext("time.process_time", "time.time", "time.perf_counter")
def time_(eng, st, args, kwargs):
    return opaque("time", eng.uid("t"), kind="float", shape=())


def fresh_random(eng, st, args, kwargs):
    return eng.wrap(st, opaque("random", eng.uid("rnd"), *eng.targs(
        st, args, kwargs)))


for _n in ("random", "standard_normal", "choice", "rand", "randn", "normal",
           "uniform", "randint", "permutation"):
    EXT["np.random." + _n] = fresh_random


# ----------------------------------------------------------------- builtins
@ext("builtins.len")
def b_len(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Phi):
        return eng.split(st, v, lambda s, a: b_len(eng, s, [a], {}))
    if isinstance(v, Tup):
        return const(len(v.items))
    if isinstance(v, RangeV):
        d = tm.sub(v.hi, v.lo)
        if v.st is ONE:
            return d
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, SetO) and o.sym is None and len(o.items) > 1:
            # the items are a superset: some may coincide
            n = ONE
            for i, x in enumerate(o.items[1:], 1):
                c = FALSE
                for y in o.items[:i]:
                    c = tm.bor(c, eng.truth(st, eng.equal(st, y, x)))
                n = tm.add(n, tm.phi(c, ZERO, ONE))
            return n
        if isinstance(o, (Lst, SetO)):
            if o.sym is None:
                return const(len(o.items))
            return len_t(o.sym)
        if isinstance(o, Dct):
            if o.sym is None:
                return const(len(o.items))
            return len_t(eng.term(st, v))
        if isinstance(o, Inst):
            return eng.call_method(st, v, "__len__", [])
        if isinstance(o, Arr):
            c = eng.content(st, o)
            if c.shape is not None:
                if not c.shape:
                    eng.raise_exc(st, "TypeError", "len of unsized")
                return c.shape[0]
            return len_t(c)
        if isinstance(o, H5):
            return const(len(o.items))
        if isinstance(o, Opq):
            return eng.opaque_call(st, v, "__len__", [], {})
    t = eng.term(st, v)
    if t.kind in ("int", "float", "bool", "none", "dim"):
        eng.raise_exc(st, "TypeError", "no len()")
    if tm.is_const(t) and t.kind == "str":
        return const(len(tm.cval(t)))
    if t.op in ("list", "tuple", "array", "set"):
        return const(len(t.args))
    if t.shape:
        return t.shape[0]
    return len_t(t)


def len_t(t):
    if t.op == "phi":
        return tm.phi(t.args[0], len_t(t.args[1]), len_t(t.args[2]))
    if t.op in ("list", "tuple", "array"):
        return const(len(t.args))
    if t.op == "map" and len(t.args) == 2:
        return len_t(t.args[0])
    return mk("len", t, kind="int", shape=())


@ext("builtins.range")
def b_range(eng, st, args, kwargs):
    ts = [eng.term(st, a) for a in args]
    if any(t is NONE or t.kind in ("float", "str") for t in ts):
        eng.raise_exc(st, "TypeError", "range")
    if len(ts) == 1:
        return RangeV(ZERO, ts[0], ONE)
    if len(ts) == 2:
        return RangeV(ts[0], ts[1], ONE)
    return RangeV(*ts)


@ext("builtins.enumerate")
def b_enumerate(eng, st, args, kwargs):
    its = eng.iterate(st, args[0])
    start = kwargs.get("start", args[1] if len(args) > 1 else ZERO)
    if isinstance(its, Phi):
        return eng.split(st, its, lambda s, a: b_enumerate(
            eng, s, [a] + args[1:], kwargs))
    if isinstance(its, SymIter):
        src = its.source
        return SymIter(src, lambda s: Tup([sym("idx:" + tm.show(src), "int",
                                               ()), its.elem(s)]))
    s0 = eng.term(st, start)
    return eng.alloc(st, Lst([Tup([tm.add(s0, const(i)), x])
                              for i, x in enumerate(its)]))


@ext("builtins.zip")
def b_zip(eng, st, args, kwargs):
    lists = [eng.iterate(st, a) for a in args]
    for i, l in enumerate(lists):
        if isinstance(l, Phi):
            return eng.split(st, l, lambda s, a: b_zip(
                eng, s, args[:i] + [a] + args[i + 1:], kwargs))
    if any(isinstance(l, SymIter) for l in lists):
        if all(isinstance(l, SymIter) for l in lists):
            src = mk("zip", *[l.source for l in lists], kind="list")
            return SymIter(src, lambda s: Tup([l.elem(s) for l in lists]))
        # a sequence of known length zipped with an unknown one
        n = min(len(l) for l in lists if not isinstance(l, SymIter))
        out = []
        for i in range(n):
            out.append(Tup([eng.getel(st, l.source, i) if isinstance(
                l, SymIter) else l[i] for l in lists]))
        return eng.alloc(st, Lst(out))
    if kwargs.get("strict") is TRUE and len({len(l) for l in lists}) > 1:
        eng.raise_exc(st, "ValueError", "zip length")
    return eng.alloc(st, Lst([Tup(x) for x in zip(*lists)]))


@ext("builtins.sum")
def b_sum(eng, st, args, kwargs):
    its = eng.iterate(st, args[0])
    start = kwargs.get("start", args[1] if len(args) > 1 else ZERO)
    if isinstance(its, list):
        import ast
        acc = start
        for i, x in enumerate(its):
            if i == 0 and start is ZERO:
                acc = x if not isinstance(x, Ref) else eng.wrap(
                    st, tm.add(ZERO, eng.term(st, x)))
                continue
            acc = eng.binop(st, ast.Add(), acc, x)
        return acc
    t = eng.term(st, args[0])
    return eng.wrap(st, mk("sum*", t, shape=None))


def b_allany(isall):
    def f(eng, st, args, kwargs):
        its = eng.iterate(st, args[0])
        if isinstance(its, list):
            cs = [eng.truth(st, x) for x in its]
            if not cs:
                return const(isall)
            return (tm.band if isall else tm.bor)(*cs)
        t = eng.term(st, args[0])
        return mk("all*" if isall else "any*", t, kind="bool", shape=())
    return f


EXT["builtins.all"] = b_allany(True)
EXT["builtins.any"] = b_allany(False)


def b_minmax(op):
    def f(eng, st, args, kwargs):
        if len(args) == 1:
            its = eng.iterate(st, args[0])
            if not isinstance(its, list):
                return mk(op + "@", eng.term(st, args[0]), kind=None)
        else:
            its = args
        ts = [eng.term(st, x) for x in its]
        if any(t is NONE for t in ts):
            eng.raise_exc(st, "TypeError", "None in " + op)
        if not ts:
            eng.raise_exc(st, "ValueError", "empty " + op)
        if "key" in kwargs:
            return opaque(op + "key", *ts)
        d = tm._dist(lambda *x: minmax(op, list(x)), *ts)
        if d is not None:
            return d
        return minmax(op, ts)
    return f


def fold_array(t):
    """entries of a one-dimensional array of known numbers, or None"""
    if t.shape is None or len(t.shape) != 1 or not tm.is_num(t.shape[0]):
        return None
    n = int(t.shape[0].args[1])
    if n > 400:
        return None
    if t.op == "array" and all(isinstance(a, T) and tm.is_num(a)
                               for a in t.args):
        return [a.args[1] for a in t.args]
    if t.op == "full" and tm.is_num(t.args[0]):
        return [t.args[0].args[1]] * n
    if t.op == "poly":
        out = [Fraction(0)] * n
        for m, c in t.args:
            cur = [Fraction(c)] * n
            for a, e in m:
                if e.denominator != 1 if isinstance(e, Fraction) else \
                        e != int(e):
                    return None
                f = [a.args[1]] * n if tm.is_num(a) else fold_array(a)
                if f is None or (e < 0 and any(x == 0 for x in f)):
                    return None
                cur = [x * Fraction(y) ** int(e) for x, y in zip(cur, f)]
            out = [x + y for x, y in zip(out, cur)]
        return out
    return None


def mk_float(v):
    return const(v if Fraction(v).denominator != 1 else int(v))


EXT["builtins.min"] = b_minmax("min")
EXT["builtins.max"] = b_minmax("max")


@ext("builtins.round")
def b_round(eng, st, args, kwargs):
    a = [eng.term(st, x) for x in args]
    if all(tm.is_num(x) for x in a) and not kwargs:
        v = round(a[0].args[1], *[int(x.args[1]) for x in a[1:]])
        return const(int(v)) if len(a) == 1 else mk_float(v)
    return mk("round", *eng.targs(st, args, kwargs), kind="float", shape=())


@ext("builtins.sorted")
def b_sorted(eng, st, args, kwargs):
    its = eng.iterate(st, args[0])
    if isinstance(its, list):
        ts = [eng.term(st, x) for x in its]
        if allc(ts) and "key" not in kwargs:
            try:
                return eng.alloc(st, Lst([const(x) for x in sorted(
                    [tm.cval(t) for t in ts],
                    reverse=kwargs.get("reverse") is TRUE)]))
            except TypeError:
                pass
        if len(ts) <= 1:
            return eng.alloc(st, Lst(its))
        if not kwargs and all(t.kind in ("int", "float") or t.shape == ()
                              and t.kind == "arr" for t in ts):
            o = mk("np.sort", tm.array(ts), kind="arr",
                   shape=(const(len(ts)),))
            return eng.alloc(st, Lst([tm.getitem(o, (("i", const(i)),))
                                      for i in range(len(ts))]))
    return eng.alloc(st, Lst([], mk("sorted", eng.term(st, args[0]),
                                    *opts_term(eng, st, kwargs),
                                    kind="list")))


@ext("builtins.reversed")
def b_reversed(eng, st, args, kwargs):
    its = eng.iterate(st, args[0])
    if isinstance(its, list):
        return eng.alloc(st, Lst(list(reversed(its))))
    t = mk("reversed", its.source, kind="list")
    return SymIter(t, its.elem)


@ext("builtins.list")
def b_list(eng, st, args, kwargs):
    if not args:
        return eng.alloc(st, Lst([]))
    its = eng.iterate(st, args[0])
    if isinstance(its, Phi):
        return eng.split(st, its, lambda s, a: b_list(eng, s, [a], {}))
    if isinstance(its, list):
        return eng.alloc(st, Lst(its))
    return eng.alloc(st, Lst([], its.source))


@ext("builtins.tuple")
def b_tuple(eng, st, args, kwargs):
    if not args:
        return Tup([])
    its = eng.iterate(st, args[0])
    if isinstance(its, Phi):
        return eng.split(st, its, lambda s, a: b_tuple(eng, s, [a], {}))
    if isinstance(its, list):
        return Tup(its)
    t = its.source
    return mk("astuple", t, kind="tuple") if t.kind != "tuple" else t


@ext("builtins.set", "builtins.frozenset")
def b_set(eng, st, args, kwargs):
    r = eng.alloc(st, SetO([]))
    if args:
        its = eng.iterate(st, args[0])
        if isinstance(its, list):
            for x in its:
                set_add(eng, st, r, x)
        else:
            st.mut(r).sym = mk("asset", eng.term(st, args[0]), kind="set")
    return r


@ext("builtins.dict")
def b_dict(eng, st, args, kwargs):
    d = eng.alloc(st, Dct())
    if args:
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.get(v), Dct):
            dict_update(eng, st, d, v)
        else:
            its = eng.iterate(st, v)
            if isinstance(its, list):
                for x in its:
                    kv, vv = eng.iterate(st, x)
                    dict_set(eng, st, d, kv, vv)
            else:
                st.mut(d).sym = eng.term(st, v)
    for k, v in kwargs.items():
        if k == "**":
            st.mut(d).sym = v
        else:
            dict_set(eng, st, d, const(k), v)
    return d


def b_num(kind):
    def f(eng, st, args, kwargs):
        if not args:
            return ZERO
        v = args[0]
        if isinstance(v, Phi):
            return eng.split(st, v, lambda s, a: f(eng, s, [a], {}))
        if v is NONE:
            eng.raise_exc(st, "TypeError", kind + "(None)")
        t = eng.term(st, v)
        if t.op == "phi" and (t.args[1] is NONE or t.args[2] is NONE):
            return eng.split(st, Phi(t.args[0], t.args[1], t.args[2]),
                             lambda s, a: f(eng, s, [a], {}))
        if tm.is_const(t):
            try:
                return const({"int": int, "float": float}[kind](tm.cval(t)))
            except Exception:
                eng.raise_exc(st, "ValueError", kind)
        if t.kind == kind or t.kind in ("dim", "int", "bool") and \
                kind == "int":
            return t
        if kind == "float" and t.kind in ("int", "dim", "float", "bool"):
            return t
        if kind == "int" and t.op == "poly" and t.shape == () and \
                tm._always_divisible(*_numden(t)):
            return tm._frompoly(tm._aspoly(t), (), "int")
        if t.shape is not None and all(s is ONE for s in t.shape) and t.shape:
            return f(eng, st, [tm.getitem(t, tuple(
                ("i", ZERO) for _ in t.shape))], {})
        if kind == "float" and t.shape == ():
            return t
        return mk(kind, t, kind=kind, shape=())
    return f


def _numden(t):
    from math import lcm
    p = tm._aspoly(t)
    d = 1
    for c in p.values():
        d = lcm(d, c.denominator)
    q = {m: c * d for m, c in p.items()}
    if any(e < 0 or e != int(e) for m in q for _, e in m):
        return sym("__never", "int", ()), 10 ** 9
    return tm._frompoly(q, ()), d


EXT["builtins.int"] = b_num("int")
EXT["builtins.float"] = b_num("float")
EXT["np.float64"] = EXT["builtins.float"]
EXT["np.int64"] = EXT["builtins.int"]


@ext("builtins.bool")
def b_bool(eng, st, args, kwargs):
    if not args:
        return FALSE
    return eng.truth(st, args[0])


@ext("builtins.str")
def b_str(eng, st, args, kwargs):
    if not args:
        return const("")
    v = args[0]
    if isinstance(v, Phi):
        return eng.split(st, v, lambda s, a: b_str(eng, s, [a], {}))
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            m = eng.class_lookup(o.cls, "__str__") or eng.class_lookup(
                o.cls, "__repr__")
            if m is not None:
                return eng.call_method(st, v, "__str__" if eng.class_lookup(
                    o.cls, "__str__") is not None else "__repr__", [])
            return mk("str", eng.term(st, v), kind="str")
    t = eng.term(st, v)
    return str_t(t)


def str_t(t):
    if t.op == "phi":
        return tm.phi(t.args[0], str_t(t.args[1]), str_t(t.args[2]))
    if t.kind == "str":
        return t
    if tm.is_const(t):
        return const(str(tm.cval(t)))
    return mk("str", t, kind="str")


@ext("builtins.repr")
def b_repr(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v), Inst) and \
            eng.class_lookup(st.get(v).cls, "__repr__") is not None:
        return eng.call_method(st, v, "__repr__", [])
    return mk("repr", eng.term(st, v), kind="str")


@ext("builtins.isinstance")
def b_isinstance(eng, st, args, kwargs):
    return eng.isinstance_(st, args[0], args[1])


@ext("builtins.issubclass")
def b_issubclass(eng, st, args, kwargs):
    return eng.issubclass_(st, args[0], args[1])


@ext("builtins.hasattr")
def b_hasattr(eng, st, args, kwargs):
    n = ct(eng.term(st, args[1]))
    if n is None:
        return mk("hasattr", eng.term(st, args[0]), eng.term(st, args[1]),
                  kind="bool", shape=())
    return eng.hasattr(st, args[0], n)


@ext("builtins.getattr")
def b_getattr(eng, st, args, kwargs):
    nt = eng.term(st, args[1])
    n = ct(nt)
    dflt = args[2] if len(args) > 2 else None
    if n is None:
        if nt.op == "phi":
            return eng.split(st, Phi(nt.args[0], nt.args[1], nt.args[2]),
                             lambda s, a: b_getattr(eng, s, [args[0], a] +
                                                    list(args[2:]), kwargs))
        if nt.op in ("fstr", "strcat") and nt.args[0] is const("to") and len(
                nt.args) == 2:
            src, fmt = args[0], nt.args[1]

            def conv(e, s, a, k):
                A = e.term(s, src)
                isM = A.op == "spmatrix"
                B = A.args[0] if isM else A
                if B.op == "tocoo" and fmt.op == "spfmt" and \
                        B.args[0] is fmt.args[0]:
                    B = B.args[0]
                    t = mk("spmatrix", B, shape=B.shape, kind="sparse") \
                        if isM else B
                    return e.alloc(s, Arr(t))
                f = ct(fmt)
                if isinstance(f, str) and B.op == "tocoo" and \
                        B.args[0].op in ("to" + f, f + "_array"):
                    B = B.args[0]
                    return e.alloc(s, Arr(mk(
                        "spmatrix", B, shape=B.shape, kind="sparse")
                        if isM else B))
                return e.alloc(s, Arr(opaque("asformat", A, fmt,
                                             kind="sparse")))
            return PyFn("asformat", conv)
        return opaque("getattr", eng.term(st, args[0]), nt)
    if dflt is not None:
        h = eng.hasattr(st, args[0], n)
        k = st.known(h)
        if k is False:
            return dflt
        if k is None:
            return eng.split(st, Phi(h, TRUE, FALSE), lambda s, a: eng.getattr(
                s, args[0], n) if a is TRUE else dflt)
    if isinstance(args[0], Ext) and args[0].name == "spinterp":
        return Ext("spinterp." + n)
    return eng.getattr(st, args[0], n)


@ext("builtins.setattr")
def b_setattr(eng, st, args, kwargs):
    n = ct(eng.term(st, args[1]))
    if n is None:
        from .interp import Unsupported
        raise Unsupported("setattr with unknown name")
    eng.setattr(st, args[0], n, args[2])
    return NONE


@ext("builtins.callable")
def b_callable(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Phi):
        return tm.phi(v.cond, b_callable(eng, st, [v.a], {}),
                      b_callable(eng, st, [v.b], {}))
    if isinstance(v, (Func, Bound, PyFn, ClassVal, Ext, Method)):
        return TRUE
    if isinstance(v, T):
        if v.kind == "fn":
            return TRUE
        if v.op == "phi":
            return tm.phi(v.args[0], b_callable(eng, st, [v.args[1]], {}),
                          b_callable(eng, st, [v.args[2]], {}))
        if v.kind is None and v.shape is None:
            return mk("callable", v, kind="bool", shape=())
        return FALSE
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            return const(eng.class_lookup(o.cls, "__call__") is not None)
        if isinstance(o, Opq):
            return eng.hasattr(st, v, "__call__") if o.isa else mk(
                "callable", o.state, kind="bool", shape=())
    return FALSE


@ext("builtins.type")
def b_type(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Phi):
        return eng.split(st, v, lambda s, a: b_type(eng, s, [a], {}))
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, Inst):
            return o.cls
        if isinstance(o, Opq):
            return o.isa[0] if o.isa else mk("attr", o.state,
                                             const("__class__"), kind="obj")
        if isinstance(o, Arr):
            c = eng.content(st, o)
            if c.kind == "sparse":
                return mk("class_of", c, kind="obj")
            return Ext("np.ndarray")
        if isinstance(o, (Lst, Dct, SetO)):
            return Ext("builtins." + {Lst: "list", Dct: "dict",
                                      SetO: "set"}[type(o)])
    if isinstance(v, T) and v.kind in ("int", "float", "str", "bool"):
        return Ext("builtins." + v.kind)
    if isinstance(v, T) and v.kind == "dim":
        return Ext("builtins.int")
    if v is NONE:
        return Ext("builtins.NoneType")
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, ClassVal):
        return Ext("builtins.type")
    return mk("class_of", eng.term(st, v), kind="obj")


@ext("builtins.iter")
def b_iter(eng, st, args, kwargs):
    its = eng.iterate(st, args[0])
    if isinstance(its, list):
        return eng.alloc(st, Lst(its))
    return its


@ext("builtins.next")
def b_next(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v), Lst) and st.get(
            v).sym is None:
        o = st.get(v)
        if o.items:
            x = o.items[0]
            st.mut(v).items.pop(0)
            return x
        if len(args) > 1:
            return args[1]
        eng.raise_exc(st, "StopIteration", "")
    return opaque("next", eng.term(st, v), eng.uid("n"))


@ext("builtins.map")
def b_map(eng, st, args, kwargs):
    its = [eng.iterate(st, a) for a in args[1:]]
    if its and all(isinstance(x, list) for x in its):
        return eng.alloc(st, Lst([eng.call(args[0], list(xs), {}, st)
                                  for xs in zip(*its)]))
    return opaque("map()", *eng.targs(st, args, kwargs))


@ext("builtins.filter")
def b_filter(eng, st, args, kwargs):
    return opaque("filter()", *eng.targs(st, args, kwargs))


@ext("builtins.slice")
def b_slice(eng, st, args, kwargs):
    if len(args) == 1:
        return SliceV(NONE, args[0], NONE)
    if len(args) == 2:
        return SliceV(args[0], args[1], NONE)
    return SliceV(*args)


@ext("builtins.divmod")
def b_divmod(eng, st, args, kwargs):
    a, b = eng.term(st, args[0]), eng.term(st, args[1])
    return Tup([tm.floordiv(a, b), tm.mod(a, b)])


@ext("builtins.pow")
def b_pow(eng, st, args, kwargs):
    return eng.wrap(st, tm.power(eng.term(st, args[0]),
                                 eng.term(st, args[1])))


@ext("builtins.id", "builtins.hash")
def b_id(eng, st, args, kwargs):
    v = args[0]
    return mk("id", getattr(v, "addr", id(v)), kind="int", shape=())


@ext("builtins.hex", "builtins.oct", "builtins.bin", "builtins.chr")
def b_hex(eng, st, args, kwargs):
    return mk("hex", *eng.targs(st, args, kwargs), kind="str")


@ext("builtins.eval")
def b_eval(eng, st, args, kwargs):
    n = ct(eng.term(st, args[0]))
    if n is None:
        return opaque("eval", eng.term(st, args[0]))
    import ast
    node = ast.parse(n, mode="eval").body
    return eng.ev(node, st, eng.callstack[-1].env)


@ext("builtins.vars")
def b_vars(eng, st, args, kwargs):
    return eng.getattr(st, args[0], "__dict__")


@ext("builtins.object")
def b_object(eng, st, args, kwargs):
    return sym(eng.uid("object"), "obj")


@ext("builtins.super")
def b_super(eng, st, args, kwargs):
    return SuperV(args[0], args[1])


# ----------------------------------------------------------------- scipy misc
@ext("spint.solve_ivp")
def solve_ivp(eng, st, args, kwargs):
    names = ("fun", "t_span", "y0", "method", "t_eval", "dense_output",
             "events", "vectorized", "args")
    kwargs = dict(kwargs)
    for n, a in zip(names, args):
        if n in kwargs:
            eng.raise_exc(st, "TypeError", "multiple values for " + n)
        kwargs[n] = a
    ts = eng.targs(st, [], kwargs)
    r = mk("solve_ivp", *ts, kind="obj")
    eng.event(st, "solve_ivp", "solve_ivp", [], kwargs, result=r)
    eng.maybe_raise(st, "solve_ivp")
    return r


def ivp_result(obj, name):
    kw = dict(zip([tm.cval(k) for k in obj.args[::2]], obj.args[1::2]))
    if name == "success":
        return mk("attr", obj, const(name), kind="bool", shape=())
    y0, t = kw.get("kw:y0"), kw.get("kw:t_eval")
    if name == "y" and y0 is not None and t is not None and y0.shape and \
            t.shape and len(t.shape) == 1:
        return mk("attr", obj, const(name), kind="arr",
                  shape=(y0.shape[0], t.shape[0]))
    return mk("attr", obj, const(name))


def optimizer(nm):
    def f(eng, st, args, kwargs):
        fun = args[0] if args else kwargs["fun"]
        ts = eng.targs(st, [a for a in args[1:]], {
            k: v for k, v in kwargs.items() if k != "fun"})
        x = mk("trial", const(nm), *ts, kind="float" if nm ==
               "minimize_scalar" else "arr",
               shape=() if nm == "minimize_scalar" else None)
        val = eng.call(fun, [eng.wrap(st, x)], {}, st)
        vt = eng.term(st, val)
        res = eng.alloc(st, Opq(mk("optresult", const(nm), *ts, kind="obj")))
        eng.event(st, "optimize", nm, args, kwargs, result=(x, vt), extra=res)
        st.get(res).attrs.update({
            "x": eng.wrap(st, mk("optimum", const(nm), vt, *ts,
                                 kind=x.kind, shape=x.shape)),
            "fun": mk("optval", const(nm), *ts, kind="float", shape=()),
            "success": mk("optok", const(nm), *ts, kind="bool", shape=()),
            "message": mk("optmsg", const(nm), kind="str")})
        return res
    return f


EXT["opt.minimize_scalar"] = optimizer("minimize_scalar")
EXT["opt.minimize"] = optimizer("minimize")


@ext("stats.Covariance.from_precision")
def cov_from_prec(eng, st, args, kwargs):
    p = eng.term(st, args[0])
    return eng.alloc(st, Opq(mk("Covariance", p, kind="obj"), attrs={
        "covariance": eng.wrap(st, tm.inverse(p)),
        "shape": eng.wrap(st, mk("shape", p)) if p.shape is None else
        Tup(list(p.shape))}, pure=("whiten", "colorize")))


@ext("stats.multivariate_normal")
def mvn(eng, st, args, kwargs):
    m, c, kw = P(eng, st, args, kwargs, "mean cov=1")
    mt = arr_term(eng, st, m)
    special = isinstance(c, Ref) and isinstance(st.get(c), Opq)
    ct = arr_term(eng, st, st.get(c).attrs["covariance"]) if special and \
        "covariance" in st.get(c).attrs else eng.term(st, c)

    def rvs(e, s, a, k):
        size = a[0] if a else k.get("size", ONE)
        zt = e.term(s, size)
        e.event(s, "random", "rvs", [])
        if zt is ONE:
            draw = mk("mvn_draw", mt, ct, kind="arr", shape=mt.shape)
            # generic covariance objects do not squeeze a single draw
            return e.wrap(s, tm.row(draw) if special else draw)
        return e.wrap(s, mk("mvn_draw", mt, ct, zt, kind="arr"))
    o = Opq(mk("mvn", mt, ct, kind="obj"), attrs={
        "mean": eng.alloc(st, Arr(mt)), "cov": eng.wrap(st, ct),
        "rvs": PyFn("rvs", rvs)}, pure=("pdf", "logpdf", "rvs"))
    return eng.alloc(st, o)


@ext("h5py.Empty", "h5py.string_dtype", "h5py.special_dtype")
def h5misc(eng, st, args, kwargs):
    return mk("h5misc", *eng.targs(st, args, kwargs), kind="obj")


# ------------------------------------------------------ scipy.interpolate
LINEAR1 = {"CubicSpline"}
NONLIN1 = {"PchipInterpolator", "Akima1DInterpolator"}
LINEARN = {"LinearNDInterpolator", "NearestNDInterpolator",
           "CloughTocher2DInterpolator"}


def _increasing(p):
    """whether the entries are certainly in increasing order"""
    if p.op in ("np.sort", "np.arange", "np.linspace",
                "np.unique", "arange", "linspace"):
        return True
    if p.op == "getitem":
        it = p.args[1]
        if len(it) == 1 and it[0][0] == "a" and it[0][1].op == "np.argsort":
            return it[0][1].args[0] is p.args[0]
        if len(it) == 1 and it[0][0] == "s":
            return _increasing(p.args[0]) and ct(it[0][3]) in (None, 1)
    if p.op == "array" and all(tm.is_const(x) for x in p.args):
        v = [tm.cval(x) for x in p.args]
        return all(a < b for a, b in zip(v, v[1:]))
    return False


def _perm(t):
    """(data, permutation) of data reordered along its first axis"""
    if t.op == "getitem":
        it = t.args[1]
        if it and it[0][0] == "a" and it[0][1].op == "np.argsort" and all(
                i[0] == "s" and i[1:] in ((NONE,) * 3, (None,) * 3)
                for i in it[1:]):
            return t.args[0], it[0][1]
    return t, None


def _interpolator(cls):
    one = cls in LINEAR1 or cls in NONLIN1

    def build(eng, st, args, kwargs):
        p, v, kw = P(eng, st, args, kwargs, "p v", cls)
        kw = dict(kw)
        extra = args[2:]
        axis = kw.pop("axis", None)
        if one and axis is None and extra:
            axis, extra = extra[0], extra[1:]
        axis = ct(eng.term(st, axis)) if axis is not None else 0
        p, v = arr_term(eng, st, p), arr_term(eng, st, v)
        opts = [x for k in sorted(kw) for x in (
            const(k), eng.term(st, kw[k]))] + [eng.term(st, x)
                                               for x in extra]

        def make(s):
            nm = mk("interpolator", cls, const(axis), p, v, *opts)
            return PyFn(nm, lambda e, s2, a, k: evaluate(e, s2, a, k))

        def evaluate(e, s2, a, k):
            mu, rest, kw2 = P(e, s2, a[:1], {}, "x")[0], a[1:], dict(k)
            nu = rest[0] if rest else kw2.pop("nu", const(0))
            if len(rest) > 1:
                kw2["extrapolate"] = rest[1]
            o2 = opts + [const("nu"), e.term(s2, nu)] + [
                x for kk in sorted(kw2) for x in (
                    const(kk), e.term(s2, kw2[kk]))]
            return interp_value(e, s2, cls, axis, p, v,
                                arr_term(e, s2, mu), o2)
        if one and p.kind == "arr" and not _increasing(p):
            c = mk("increasing", p, kind="bool", shape=())

            def alt(s, a):
                if a is TRUE:
                    return make(s)
                eng.raise_exc(s, "ValueError",
                              "`x` must be strictly increasing sequence.")
            return eng.split(st, Phi(c, TRUE, FALSE), alt)
        return make(st)
    return build


def interp_value(eng, st, cls, axis, p, v, mu, opts):
    shape, n = None, None
    nd = cls in LINEARN
    if v.shape is not None and isinstance(axis, int) and \
            axis < len(v.shape):
        axis %= len(v.shape)
        if nd:
            if mu.shape is not None:
                lead = mu.shape[:-1] if len(mu.shape) != 1 else (const(1),)
                shape = tuple(lead) + tuple(v.shape[1:])
        elif mu.shape is not None:
            shape = tuple(v.shape[:axis]) + tuple(mu.shape) + tuple(
                v.shape[axis + 1:])
        n = ct(v.shape[axis])
        n = n if isinstance(n, int) else None
    if not nd and axis == 1 and v.shape is not None and len(v.shape) == 2 \
            and mu.shape is not None and len(mu.shape) == 1:
        r = interp_value(eng, st, cls, 0, p, tm.transpose(v), mu, opts)
        return eng.wrap(st, tm.transpose(eng.term(st, r)))
    p0, s0 = _perm(p)
    v0, s1 = _perm(v)
    if axis == 0 and s0 is not None and s0 is s1:
        p, v = p0, v0
    linear = cls in LINEAR1 or cls in LINEARN
    single = mu.shape == () or (nd and mu.shape is not None
                                and len(mu.shape) == 1)
    if linear and n is not None and 0 < n <= 12 and axis == 0 and single \
            and shape is not None:
        out, ws = None, []
        node = None
        if mu.op == "getitem" and mu.args[0] is p and len(
                mu.args[1]) == 1 and mu.args[1][0][0] == "i" and not ct(
                    opts[-1]):
            j = ct(mu.args[1][0][1])
            node = j % n if isinstance(j, int) and -n <= j < n else None
        for i in range(n):
            if node is not None:      # interpolants hit their data points
                ws.append(const(int(i == node)))
                w = ws[-1]
            elif i < n - 1 or ct(opts[-1]) != 0:
                w = mk("interpw", cls, p, mu, const(i), *opts, shape=(),
                       kind="float")
                ws.append(w)
            else:
                w = tm.sub(const(1), tm.add(*ws)) if ws else const(1)
            x = tm.mul(w, tm.getitem(v, (("i", const(i)),)))
            out = x if out is None else tm.add(out, x)
        if nd and len(mu.shape) == 1:
            out = tm.getitem(out, (("new",), ("ell",)))
        return eng.wrap(st, out)
    return eng.wrap(st, mk("interp", cls, const(axis), p, v, mu, *opts,
                           kind="arr", shape=shape))


for _n in sorted(LINEAR1 | NONLIN1 | LINEARN):
    EXT["spinterp." + _n] = _interpolator(_n)
SPINTERP = LINEAR1 | NONLIN1 | LINEARN | {
    "interp1d", "BarycentricInterpolator", "KroghInterpolator", "BSpline",
    "CubicHermiteSpline", "UnivariateSpline", "InterpolatedUnivariateSpline",
    "RegularGridInterpolator", "RBFInterpolator", "Rbf", "PPoly",
    "make_interp_spline", "interpn", "griddata", "BPoly", "NdPPoly",
    "RectBivariateSpline", "interp2d"}
