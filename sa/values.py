"""Abstract run-time values and heap objects."""

from . import terms as tm


class Val:
    __slots__ = ()


class Ref(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "Ref(%d)" % self.addr


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and same_seq(o.items, self.items)

    def __hash__(self):
        return hash(("tup", len(self.items)))

    def __repr__(self):
        return "Tup%r" % (self.items,)


def same_seq(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (Ref, Tup, Bound, SliceV, Ext, RangeV)):
        return a == b
    if isinstance(a, Phi) and isinstance(b, Phi):
        return a.cond is b.cond and same(a.a, b.a) and same(a.b, b.b)
    return False


class Phi(Val):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "Phi(%s, %r, %r)" % (tm.show(self.cond), self.a, self.b)


class Func(Val):
    def __init__(self, node, module, env, cls=None, name=None, defaults=None,
                 kwdefaults=None):
        self.node = node
        self.module = module
        self.env = env            # addr of the enclosing environment
        self.cls = cls            # enclosing class name (for mangling/super)
        self.name = name
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.attrs = {}
        self.isgen = False

    def __repr__(self):
        return "<func %s>" % self.name


class Bound(Val):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return (isinstance(o, Bound) and o.func is self.func and
                same(o.self_, self.self_))

    def __hash__(self):
        return hash(id(self.func))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class ClassVal(Val):
    def __init__(self, name, module, bases, ns):
        self.name, self.module, self.bases, self.ns = name, module, bases, ns
        self.mro = None
        self.node = None
        self.isdataclass = False

    @property
    def qualname(self):
        return self.module + "." + self.name

    def __repr__(self):
        return "<class %s>" % self.name


class Ext(Val):
    """An external (non-repository) name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return "<ext %s>" % self.name


class Mod(Val):
    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return "<module %s>" % self.name


class Method(Val):
    """Bound method of a non-repository object (array, str, list, h5...)."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "<method %s of %r>" % (self.name, self.obj)


class Prop(Val):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class ClassMethod(Val):
    def __init__(self, f):
        self.f = f


class StaticMethod(Val):
    def __init__(self, f):
        self.f = f


class SuperV(Val):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class SliceV(Val):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __eq__(self, o):
        return isinstance(o, SliceV) and all(
            same(x, y) for x, y in ((self.lo, o.lo), (self.hi, o.hi),
                                    (self.st, o.st)))

    def __hash__(self):
        return 7


class RangeV(Val):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def __eq__(self, o):
        return isinstance(o, RangeV) and (self.lo, self.hi, self.st) == (
            o.lo, o.hi, o.st)

    def __hash__(self):
        return 8


class SymIter(Val):
    """Iteration over something whose length is unknown; `elem` builds the
    abstract element."""

    def __init__(self, source, elem):
        self.source, self.elem = source, elem


class PyFn(Val):
    """A function implemented by the analyser itself."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<pyfn %s>" % self.name


# ---------------------------------------------------------------- heap objects
class Inst:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})

    def copy(self):
        return Inst(self.cls, self.attrs)


class Opq:
    """An opaque (user-supplied) object: `state` is the term for its state."""
    __slots__ = ("state", "isa", "attrs", "pure", "hidden")

    def __init__(self, state, isa=(), attrs=None, pure=None, hidden=()):
        self.state, self.isa = state, tuple(isa)
        self.attrs = dict(attrs or {})
        self.pure = pure
        self.hidden = tuple(hidden)

    def copy(self):
        return Opq(self.state, self.isa, self.attrs, self.pure, self.hidden)


class Lst:
    __slots__ = ("items", "sym")

    def __init__(self, items, sym=None):
        self.items = list(items)
        self.sym = sym          # term when the length is unknown

    def copy(self):
        return Lst(self.items, self.sym)


class Dct:
    __slots__ = ("items", "sym", "frozen", "factory")

    def __init__(self, items=None, sym=None, frozen=False, factory=None):
        self.items = dict(items or {})   # key: hashable -> (keyval, val)
        self.factory = factory           # of a defaultdict
        self.sym = sym
        self.frozen = frozen

    def copy(self):
        return Dct(self.items, self.sym, factory=self.factory)


class SetO:
    __slots__ = ("items", "sym")

    def __init__(self, items, sym=None):
        self.items = list(items)
        self.sym = sym

    def copy(self):
        return SetO(self.items, self.sym)


class Arr:
    """Array storage. Either owns `content`, or views `base`."""
    __slots__ = ("content", "base", "view", "label", "dtype")

    def __init__(self, content=None, base=None, view=None, label=None,
                 dtype=None):
        self.content, self.base, self.view = content, base, view
        self.label, self.dtype = label, dtype

    def copy(self):
        return Arr(self.content, self.base, self.view, self.label, self.dtype)


class Env:
    __slots__ = ("vars", "parent", "nonlocals", "globals_")

    def __init__(self, vars=None, parent=None):
        self.vars = dict(vars or {})
        self.parent = parent
        self.nonlocals = ()

    def copy(self):
        e = Env(self.vars, self.parent)
        e.nonlocals = self.nonlocals
        return e


class H5:
    """kind: 'file' | 'group' | 'attrs' ; items: name -> addr/term"""
    __slots__ = ("kind", "items", "attrs", "path", "open", "mode", "sym")

    def __init__(self, kind, path, items=None, attrs=None, open_=True,
                 mode="w", sym=None):
        self.kind, self.path = kind, path
        self.items = dict(items or {})
        self.attrs = dict(attrs or {})
        self.open = open_
        self.mode = mode
        self.sym = sym

    def copy(self):
        return H5(self.kind, self.path, self.items, self.attrs, self.open,
                  self.mode, self.sym)


class DS:
    """HDF5 dataset"""
    __slots__ = ("content", "attrs")

    def __init__(self, content, attrs=None):
        self.content = content
        self.attrs = attrs

    def copy(self):
        return DS(self.content, self.attrs)
