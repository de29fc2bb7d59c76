"""Abstract interpreter over the repository's syntax trees.

Flow-, context- and alias-sensitive.  Unknown branches are analysed on both
sides and joined with gated phi values; loops over sequences of unknown length
are summarised by a havoc of what the body may modify.  Calls to repository
functions are analysed in context; calls to libraries become terms.  No
repository code is executed.
"""

import ast
import os
import builtins as _pybuiltins

from . import terms as tm
from .terms import T, const, mk, opaque, sym, NONE, TRUE, FALSE, ZERO, ONE
from .values import (Val, Ref, Tup, Phi, Func, Bound, ClassVal, Ext, Mod,
                     Method, Prop, ClassMethod, StaticMethod, SuperV, SliceV,
                     RangeV, SymIter, PyFn, Inst, Opq, Lst, Dct, SetO, Arr,
                     Env, H5, DS, same, same_seq)


class Dead(Exception):
    """No execution continues in the current abstract state."""


class Unsupported(Exception):
    """The analyser cannot model a construct."""


class _Unset(Val):
    def __repr__(self):
        return "<unset>"


UNSET = _Unset()
MAXDEPTH = 70
MAXUNROLL = 600


class State:
    __slots__ = ("heap", "pc", "assume", "eng")

    def __init__(self, eng, heap=None, pc=(), assume=None):
        self.eng = eng
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.assume = assume if assume is not None else {}

    def fork(self, cond=None, val=True):
        s = State(self.eng, dict(self.heap), self.pc, dict(self.assume))
        if cond is not None:
            s.learn(cond, val)
        return s

    def learn(self, cond, val):
        self.pc = self.pc + ((cond, val),)
        self._learn(cond, val)

    def _learn(self, cond, val):
        self.assume[cond] = val
        n = tm.bnot(cond)
        self.assume[n] = not val
        if cond.op == "and" and val:
            for x in cond.args:
                self._learn(x, True)
        if cond.op == "not" and cond.args[0].op == "and" and not val:
            for x in cond.args[0].args:
                self._learn(x, True)

    def become(self, other):
        if self is self.eng.base_state:
            # the module-level heap keeps its identity
            if other.heap is not self.heap:
                self.heap.update(other.heap)
        else:
            self.heap = other.heap
        self.pc, self.assume = other.pc, other.assume

    def get(self, ref):
        a = ref.addr if isinstance(ref, Ref) else ref
        o = self.heap.get(a)
        if o is None:
            o = self.eng.base[a]
        return o

    def mut(self, ref):
        a = ref.addr if isinstance(ref, Ref) else ref
        o = self.heap.get(a)
        if o is None:
            o = self.eng.base[a]
        o = o.copy()
        self.heap[a] = o
        return o

    def known(self, cond):
        if cond is TRUE:
            return True
        if cond is FALSE:
            return False
        v = self.assume.get(cond)
        if v is not None:
            return v
        if cond.op == "and":
            vs = [self.known(x) for x in cond.args]
            if all(v is True for v in vs):
                return True
            if any(v is False for v in vs):
                return False
        elif cond.op == "not" and cond.args[0].op == "and":
            v = self.known(cond.args[0])
            return None if v is None else not v
        return None


class Raise:
    def __init__(self, st, exc, site):
        self.st, self.exc, self.site = st, exc, site

    def cname(self):
        c = self.exc
        if isinstance(c, Ref):
            o = self.st.get(c)
            if isinstance(o, Inst):
                return o.cls.name
            return "?"
        return "?"


class Event:
    __slots__ = ("kind", "name", "args", "kwargs", "targs", "result", "site",
                 "pc", "extra", "stack")

    def __init__(self, kind, name, args=(), kwargs=None, targs=None,
                 result=None, site=None, pc=(), extra=None, stack=()):
        self.kind, self.name, self.args = kind, name, args
        self.kwargs = kwargs or {}
        self.targs = targs
        self.result, self.site, self.pc = result, site, pc
        self.extra = extra
        self.stack = stack

    def __repr__(self):
        return "Ev(%s %s @%s)" % (self.kind, self.name, self.site)


class Frame:
    def __init__(self, func, env):
        self.func, self.env = func, env
        self.returns = []
        self.yields = None


class Loop:
    def __init__(self):
        self.breaks, self.conts = [], []


EXC_ROOTS = {n for n in dir(_pybuiltins)
             if isinstance(getattr(_pybuiltins, n), type)
             and issubclass(getattr(_pybuiltins, n), BaseException)}


class Outcome:
    def __init__(self, value, raises, st, dead):
        self.value, self.raises, self.st, self.dead = value, raises, st, dead


def integral(t):
    """Whether an array built from this term may well have integer entries:
    no fractional coefficient or power and only integer leaves."""
    for x in tm.subterms(t):
        if x.op == "sym" and x.kind in ("arr", "float", "sparse") and \
                "int:" not in str(x.args[0]):
            return False
        if tm.is_num(x) and x.args[1].denominator != 1:
            return False
        if x.op == "poly":
            for m, c in x.args:
                if c.denominator != 1 or any(e != int(e) or e < 0
                                             for _, e in m):
                    return False
    return True


def const_index(t):
    """The Python index of a constant integer or slice term, or None."""
    if tm.is_num(t):
        return int(tm.cval(t))
    if t.op == "slice" and all(x is NONE or tm.is_num(x) for x in t.args):
        return slice(*[None if x is NONE else int(tm.cval(x))
                       for x in t.args])
    return None


class Engine:
    def __init__(self, src, pkg="opinf"):
        self.src = src
        self.pkg = pkg
        self.base = {}
        self._next = [1]
        self.modules = {}
        self.events = []
        self.collectors = [[]]
        self.callstack = []
        self.loops = []
        self.depth = 0
        self.sites = set()        # analysed (function) qualnames
        self.calls = 0
        self.excstack = []
        self.try_depth = 0
        self.curnode = None
        self.fresh = 0
        self.unsupported = []
        self.assumptions_used = set()
        self.covered = {}
        self.steps = 0
        self.maxsteps = 3000000
        from . import extern
        self.extern = extern
        self.base_state = State(self, self.base)
        self.mode_loading = False

    # ------------------------------------------------------------ utilities
    def alloc(self, st, obj):
        a = self._next[0]
        self._next[0] += 1
        st.heap[a] = obj
        return Ref(a)

    def new_state(self):
        return State(self)

    def uid(self, tag=""):
        self.fresh += 1
        return "%s%d" % (tag, self.fresh)

    def site(self):
        f = self.callstack[-1] if self.callstack else None
        line = getattr(self.curnode, "lineno", 0)
        if f is None:
            return ("?", "?", line)
        return (f.func.module, f.func.name, line)

    def raise_exc(self, st, name, msg=None):
        """Raise a builtin exception in the abstract program."""
        exc = self.make_exc(st, name, [const(msg)] if msg else [])
        self.raises(st, exc)
        raise Dead()

    def make_exc(self, st, name, args):
        cls = name if isinstance(name, ClassVal) else self.exc_class(name)
        return self.alloc(st, Inst(cls, {"args": Tup(args)}))

    _exc_cache = None

    def exc_class(self, name):
        if self._exc_cache is None:
            self._exc_cache = {}
        short = name.split(".")[-1]
        if short not in self._exc_cache:
            py = getattr(_pybuiltins, short, None)
            bases = []
            if isinstance(py, type) and issubclass(py, BaseException):
                bases = [self.exc_class(b.__name__) for b in py.__bases__
                         if b is not object]
            else:
                bases = [self.exc_class("ValueError" if short == "LinAlgError"
                                        else "Exception")]
            c = ClassVal(short, "builtins", bases, {})
            c.mro = [c]
            for b in bases:
                for x in b.mro:
                    if x not in c.mro:
                        c.mro.append(x)
            self._exc_cache[short] = c
        return self._exc_cache[short]

    def raises(self, st, exc):
        self.collectors[-1].append(Raise(st.fork(), exc, self.site()))

    def event(self, st, kind, name, args=(), kwargs=None, result=None,
              extra=None, targs=None):
        self.events.append(Event(kind, name, tuple(args), dict(kwargs or {}),
                                 targs, result, self.site(), st.pc, extra,
                                 tuple(f.func.name for f in self.callstack)))

    # ------------------------------------------------------------ terms
    def term(self, st, v, depth=0, seen=()):
        """The content of an abstract value as a term."""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Arr):
                return self.content(st, o)
            if isinstance(o, Lst):
                if o.sym is not None:
                    return o.sym
                if v.addr in seen:
                    return mk("cycle")
                return mk("list", *[self.term(st, x, depth + 1,
                                              seen + (v.addr,))
                                    for x in o.items], kind="list")
            if isinstance(o, (SetO,)):
                if o.sym is not None:
                    return o.sym
                return mk("set", *[self.term(st, x, depth + 1)
                                   for x in o.items], kind="set")
            if isinstance(o, Dct):
                items = []
                for k, (kv, val) in o.items.items():
                    items.append(self.term(st, kv, depth + 1))
                    items.append(self.term(st, val, depth + 1,
                                           seen + (v.addr,)))
                if o.sym is not None:
                    items.append(o.sym)
                return mk("dict", *items, kind="dict")
            if isinstance(o, Inst):
                if v.addr in seen or depth > 4:
                    return mk("objref", v.addr, kind="obj")
                parts = []
                for k in sorted(o.attrs):
                    if o.attrs[k] is UNSET:
                        continue
                    parts.append(const(k))
                    parts.append(self.term(st, o.attrs[k], depth + 1,
                                           seen + (v.addr,)))
                return mk("inst", o.cls.qualname, *parts, kind="obj")
            if isinstance(o, Opq):
                parts = []
                for k in sorted(o.attrs):
                    parts.append(const(k))
                    parts.append(self.term(st, o.attrs[k], depth + 1,
                                           seen + (v.addr,)))
                if parts:
                    return mk("opqinst", o.state, *parts, kind="obj")
                return o.state
            if isinstance(o, DS):
                return o.content
            if isinstance(o, H5):
                return mk("h5", v.addr, kind="obj")
            return opaque("heap", type(o).__name__, v.addr)
        if isinstance(v, Tup):
            return mk("tuple", *[self.term(st, x, depth + 1, seen)
                                 for x in v.items], kind="tuple")
        if isinstance(v, Phi):
            k = st.known(v.cond)
            if k is not None:
                return self.term(st, v.a if k else v.b, depth, seen)
            return tm.phi(v.cond, self.term(st, v.a, depth, seen),
                          self.term(st, v.b, depth, seen))
        if isinstance(v, Func):
            caps = []
            if depth < 5:
                for n in sorted(freevars(v.node)):
                    val = self.lookup_env(st, v.env, n, modlevel=False)
                    if val is not None and val is not v:
                        if isinstance(val, Func) and depth > 2:
                            continue
                        caps.append(const(n))
                        caps.append(self.term(st, val, depth + 1, seen))
            return mk("fn", v.module + ":" + (v.name or "<lambda>"), *caps,
                      kind="fn")
        if isinstance(v, Bound):
            return mk("bound", const(v.func.name if isinstance(v.func, Func)
                                     else str(v.func)),
                      self.term(st, v.self_, depth + 1, seen), kind="fn")
        if isinstance(v, Method):
            return mk("method", const(v.name),
                      self.term(st, v.obj, depth + 1, seen), kind="fn")
        if isinstance(v, ClassVal):
            return mk("class", v.qualname, kind="obj")
        if isinstance(v, Ext):
            return mk("ext", v.name)
        if isinstance(v, Mod):
            return mk("mod", v.name)
        if isinstance(v, PyFn):
            return mk("fn", v.name, kind="fn")
        if isinstance(v, SliceV):
            return mk("slice", *[self.term(st, x) for x in
                                 (v.lo, v.hi, v.st)], kind="slice")
        if isinstance(v, RangeV):
            return mk("range", v.lo, v.hi, v.st, kind="list")
        if isinstance(v, SymIter):
            return v.source
        if v is UNSET:
            return mk("unset")
        return opaque("val", type(v).__name__)

    def content(self, st, o):
        if o.base is not None:
            b = self.content(st, st.get(o.base))
            return apply_view(b, o.view)
        c = o.content
        if c.op == "phi":
            k = st.known(c.args[0])
            if k is not None:
                c = c.args[1] if k else c.args[2]
        return c

    def wrap(self, st, t, label=None):
        """A term as a fresh run-time value."""
        if not isinstance(t, T):
            return t
        if t.shape == () or t.kind in ("int", "float", "bool", "str", "none",
                                       "obj", "fn", "dim", "list", "dict",
                                       "tuple", "set", "slice", "scalar"):
            return t
        return self.alloc(st, Arr(t, label=label))

    def view(self, st, ref, view):
        o = st.get(ref)
        if isinstance(o, Arr):
            t = apply_view(self.content(st, o), view)
            if t.shape == ():
                return t
            return self.alloc(st, Arr(base=ref.addr, view=view))
        return self.wrap(st, apply_view(self.term(st, ref), view))

    def isarr(self, st, v):
        return isinstance(v, Ref) and isinstance(st.get(v), Arr)

    def root(self, st, ref):
        o = st.get(ref)
        a = ref.addr
        while isinstance(o, Arr) and o.base is not None:
            a = o.base
            o = st.get(a)
        return a

    def dtype(self, st, v):
        if self.isarr(st, v):
            return st.get(Ref(self.root(st, v))).dtype
        return None

    def store_arr(self, st, ref, newterm, how):
        """In-place overwrite of the whole (view of an) array."""
        o = st.get(ref)
        root = self.root(st, ref)
        self.event(st, "mutate", how, [ref], extra=root)
        if st.get(root).dtype == "int" and not integral(newterm):
            newterm = mk("trunc", newterm, shape=newterm.shape, kind="arr")
        if o.base is None:
            m = st.mut(ref)
            m.content = newterm
            return
        self._store_view(st, o, newterm)

    def _store_view(self, st, o, newterm):
        base = st.get(o.base)
        old = self.content(st, base)
        nb = unview(old, o.view, newterm)
        if base.base is None:
            st.mut(o.base).content = nb
        else:
            self._store_view(st, base, nb)

    # ------------------------------------------------------------ modules
    def path_of(self, name):
        parts = name.split(".")
        p = os.path.join(self.src, *parts)
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path_of(name)
        if path is None:
            return None
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        with open(path) as fh:
            src = fh.read()
        mod = self.load_text(name, src, path, ispkg)
        if "." in name:
            parent, leaf = name.rsplit(".", 1)
            pm = self.modules.get(parent)
            if pm is not None:
                e = self.base_state.get(pm.env)
                if leaf not in e.vars:
                    e.vars[leaf] = mod
        return mod

    def load_text(self, name, src, path="<scenario>", ispkg=False):
        """A module given by its text (of the package, or of a user)."""
        tree = ast.parse(src, path)
        st = self.base_state
        env = self.alloc(st, Env({"__name__": const(name),
                                  "__file__": const(path)}))
        mod = Mod(name, env)
        mod.tree, mod.path, mod.ispkg = tree, path, ispkg
        self.modules[name] = mod
        f = Func(tree, name, env.addr, name="<module>")
        frame = Frame(f, env)
        self.callstack.append(frame)
        saved = self.loops
        self.loops = []
        try:
            self.exec_block(tree.body, st, env)
        finally:
            self.loops = saved
            self.callstack.pop()
        return mod

    def lookup(self, dotted):
        """Public object by dotted path, e.g. 'opinf.pre.ScaleTransformer'."""
        parts = dotted.split(".")
        cur = self.load(parts[0])
        if cur is None:
            raise KeyError(dotted)
        for i, p in enumerate(parts[1:]):
            if isinstance(cur, Mod):
                v = self.base_state.get(cur.env).vars.get(p)
                if v is None:
                    v = self.load(cur.name + "." + p)
                if v is None:
                    raise KeyError(dotted)
                cur = v
            elif isinstance(cur, ClassVal):
                v = self.class_lookup(cur, p)
                if v is None:
                    raise KeyError(dotted)
                if isinstance(v, ClassMethod):
                    v = Bound(v.f, cur)
                elif isinstance(v, StaticMethod):
                    v = v.f
                cur = v
            else:
                raise KeyError(dotted)
        return cur

    def resolve_from(self, modname, level, target, ispkg):
        if level == 0:
            return target
        parts = modname.split(".")
        if not ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        if target:
            parts = parts + target.split(".")
        return ".".join(parts)

    def do_import(self, node, st, env):
        modname = self.callstack[-1].func.module
        m = self.modules.get(modname)
        ispkg = m.ispkg if m else False
        e = st.mut(env)
        if isinstance(node, ast.Import):
            for al in node.names:
                root = al.name.split(".")[0]
                if root == self.pkg:
                    mod = self.load(al.name if al.asname else root)
                    if not al.asname:
                        self.load(al.name)
                    v = mod
                else:
                    v = Ext(self.extern.canon(al.name if al.asname else root))
                st.mut(env).vars[al.asname or root] = v
            return
        target = self.resolve_from(modname, node.level, node.module, ispkg)
        for al in node.names:
            if target.split(".")[0] != self.pkg:
                v = Ext(self.extern.canon(target + "." + al.name))
                st.mut(env).vars[al.asname or al.name] = v
                continue
            mod = self.load(target)
            if mod is None:
                raise Unsupported("import " + target)
            if al.name == "*":
                me = self.base_state.get(mod.env)
                allv = me.vars.get("__all__")
                if isinstance(allv, Ref):
                    names = [tm.cval(x) for x in
                             self.base_state.get(allv).items]
                else:
                    names = [n for n in me.vars if not n.startswith("_")]
                for n in names:
                    v = me.vars.get(n)
                    if v is None:
                        v = self.load(target + "." + n)
                    if v is None:
                        raise Unsupported("no %s in %s" % (n, target))
                    st.mut(env).vars[n] = v
                continue
            v = self.base_state.get(mod.env).vars.get(al.name)
            if v is None:
                v = self.load(target + "." + al.name)
            if v is None:
                raise Unsupported("no %s in %s" % (al.name, target))
            st.mut(env).vars[al.asname or al.name] = v

    # ------------------------------------------------------------ merging
    def mergeval(self, c, a, b):
        if same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.phi(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(
                b.items):
            return Tup([self.mergeval(c, x, y)
                        for x, y in zip(a.items, b.items)])
        if isinstance(a, Phi) and a.cond is c:
            a = a.a
        if isinstance(b, Phi) and b.cond is c:
            b = b.b
        if same(a, b):
            return a
        return Phi(c, a, b)

    def merge(self, s1, s2, c, pc):
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for a in h1.keys() | h2.keys():
            o1, o2 = h1.get(a), h2.get(a)
            if o1 is o2:
                heap[a] = o1
                continue
            if o1 is None:
                o1 = self.base.get(a)
            if o2 is None:
                o2 = self.base.get(a)
            if o1 is None:
                heap[a] = o2
            elif o2 is None:
                heap[a] = o1
            else:
                heap[a] = self.mergeobj(c, o1, o2, s1, s2)
        assume = {k: v for k, v in s1.assume.items()
                  if s2.assume.get(k) == v}
        return State(self, heap, pc, assume)

    def mergeattrs(self, c, d1, d2):
        out = {}
        for k in list(d1) + [k for k in d2 if k not in d1]:
            a = d1.get(k, UNSET)
            b = d2.get(k, UNSET)
            out[k] = self.mergeval(c, a, b)
        return out

    def mergeobj(self, c, o1, o2, s1, s2):
        if type(o1) is not type(o2):
            return o1
        if isinstance(o1, Env):
            e = Env(parent=o1.parent)
            e.nonlocals = o1.nonlocals
            e.vars = self.mergeattrs(c, o1.vars, o2.vars)
            return e
        if isinstance(o1, Inst):
            if o1.cls is not o2.cls:
                return o1
            return Inst(o1.cls, self.mergeattrs(c, o1.attrs, o2.attrs))
        if isinstance(o1, Opq):
            return Opq(tm.phi(c, o1.state, o2.state), o1.isa,
                       self.mergeattrs(c, o1.attrs, o2.attrs), o1.pure,
                       o1.hidden)
        if isinstance(o1, Arr):
            if o1.base is not None and o1.base == o2.base:
                return o1
            return Arr(tm.phi(c, self.content(s1, o1), self.content(s2, o2)),
                       label=o1.label,
                       dtype=o1.dtype if o1.dtype == o2.dtype else None)
        if isinstance(o1, Lst):
            if o1.sym is None and o2.sym is None and len(o1.items) == len(
                    o2.items):
                return Lst([self.mergeval(c, x, y)
                            for x, y in zip(o1.items, o2.items)])
            t1, t2 = [o.sym if o.sym is not None else mk(
                "list", *[self.term(s, x) for x in o.items], kind="list")
                for s, o in ((s1, o1), (s2, o2))]
            return Lst([], tm.phi(c, t1, t2))
        if isinstance(o1, SetO):
            if same_seq(o1.items, o2.items):
                return o1
            t1 = mk("set", *[self.term(s1, x) for x in o1.items], kind="set")
            t2 = mk("set", *[self.term(s2, x) for x in o2.items], kind="set")
            return SetO([], tm.phi(c, t1, t2))
        if isinstance(o1, Dct):
            out = {}
            for k in list(o1.items) + [k for k in o2.items
                                       if k not in o1.items]:
                kv1, v1 = o1.items.get(k, (None, UNSET))
                kv2, v2 = o2.items.get(k, (None, UNSET))
                out[k] = (kv1 if kv1 is not None else kv2,
                          self.mergeval(c, v1, v2))
            return Dct(out, o1.sym if o1.sym is o2.sym else
                       tm.phi(c, *[NONE if o.sym is None else o.sym
                                  for o in (o1, o2)]), factory=o1.factory)
        if isinstance(o1, H5):
            out = {}
            for k in list(o1.items) + [k for k in o2.items
                                       if k not in o1.items]:
                a, b = o1.items.get(k, UNSET), o2.items.get(k, UNSET)
                out[k] = self.mergeval(c, a, b)
            return H5(o1.kind, o1.path, out,
                      self.mergeattrs(c, o1.attrs, o2.attrs),
                      o1.open if o1.open == o2.open else None, o1.mode,
                      o1.sym)
        if isinstance(o1, DS):
            return DS(tm.phi(c, o1.content, o2.content), o1.attrs)
        return o1

    def merge_tree(self, items, d):
        """items: [(state, value)], states diverging from a common prefix of
        length d of the path condition."""
        if len(items) == 1:
            return items[0]
        conds = []
        for s, v in items:
            c = s.pc[d] if len(s.pc) > d else None
            conds.append(c)
        if all(c is not None for c in conds) and all(
                c[0] is conds[0][0] for c in conds):
            pos = [it for it, c in zip(items, conds) if c[1]]
            neg = [it for it, c in zip(items, conds) if not c[1]]
            if not neg or not pos:
                return self.merge_tree(items, d + 1)
            a = self.merge_tree(pos, d + 1)
            b = self.merge_tree(neg, d + 1)
            cond = conds[0][0]
        else:
            a = items[0]
            b = self.merge_tree(items[1:], d)
            cond = opaque("choice", self.uid("c"), kind="bool", shape=())
        st = self.merge(a[0], b[0], cond, a[0].pc[:d])
        v = self.mergeval(cond, a[1], b[1]) if a[1] is not None and \
            b[1] is not None else a[1]
        return (st, v)

    def split(self, st, v, fn):
        """Apply fn(state, alternative) to each side of a Phi and join."""
        k = st.known(v.cond)
        if k is not None:
            return fn(st, v.a if k else v.b)
        s1, s2 = st.fork(v.cond, True), st.fork(v.cond, False)
        r = []
        for s, alt in ((s1, v.a), (s2, v.b)):
            try:
                r.append((s, fn(s, alt)))
            except Dead:
                pass
        if not r:
            raise Dead()
        if len(r) == 1:
            st.become(r[0][0])
            return r[0][1]
        m = self.merge(r[0][0], r[1][0], v.cond, st.pc)
        val = self.mergeval(v.cond, r[0][1], r[1][1])
        st.become(m)
        return val

    def phival(self, st, v):
        """Resolve a Phi under the current assumptions."""
        while isinstance(v, Phi):
            k = st.known(v.cond)
            if k is None:
                return v
            v = v.a if k else v.b
        if isinstance(v, T) and v.op == "phi":
            k = st.known(v.args[0])
            if k is not None:
                return self.phival(st, v.args[1] if k else v.args[2])
        return v

    # ------------------------------------------------------------ environment
    def lookup_env(self, st, addr, name, modlevel=True):
        while addr is not None:
            e = st.get(addr)
            if name in e.vars:
                if not modlevel and "__name__" in e.vars and e.parent is None:
                    return None
                v = e.vars[name]
                if v is UNSET:
                    return None
                return v
            addr = e.parent
        return None

    def load_name(self, st, env, name):
        v = self.lookup_env(st, env.addr, name)
        if v is None:
            v = self.extern.builtin(name)
        if v is None:
            self.raise_exc(st, "NameError", name)
        if isinstance(v, Phi):
            v = self.phival(st, v)
            if isinstance(v, Phi) and (v.a is UNSET or v.b is UNSET):
                def pick(s, alt):
                    if alt is UNSET:
                        self.raise_exc(s, "UnboundLocalError", name)
                    return alt
                v = self.split(st, v, pick)
        elif isinstance(v, T):
            v = self.phival(st, v)
        return v

    def store_name(self, st, env, name, val):
        e = st.get(env)
        if name in e.nonlocals:
            a = e.parent
            while a is not None:
                pe = st.get(a)
                if name in pe.vars:
                    st.mut(a).vars[name] = val
                    return
                a = pe.parent
        st.mut(env).vars[name] = val

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st, env):
        for s in body:
            self.exec_stmt(s, st, env)

    def exec_stmt(self, n, st, env):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("analysis budget exceeded")
        self.curnode = n
        m = getattr(self, "x_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__)
        m(n, st, env)

    def x_Pass(self, n, st, env):
        pass

    def x_Expr(self, n, st, env):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, st, env)

    def x_Import(self, n, st, env):
        self.do_import(n, st, env)

    x_ImportFrom = x_Import

    def x_Global(self, n, st, env):
        pass

    def x_Nonlocal(self, n, st, env):
        e = st.mut(env)
        e.nonlocals = tuple(e.nonlocals) + tuple(n.names)

    def x_Assert(self, n, st, env):
        c = self.truth(st, self.ev(n.test, st, env))
        k = st.known(c)
        if k is True:
            return
        if k is False:
            self.raise_exc(st, "AssertionError")
        s2 = st.fork(c, False)
        self.raises(s2, self.make_exc(s2, "AssertionError", []))
        st.learn(c, True)

    def x_Assign(self, n, st, env):
        v = self.ev(n.value, st, env)
        for t in n.targets:
            self.assign(t, v, st, env)

    def x_AnnAssign(self, n, st, env):
        if isinstance(n.target, ast.Name):
            e = st.get(env)
            if "__annofields__" in e.vars:
                lst = e.vars["__annofields__"]
                st.mut(env).vars["__annofields__"] = lst + [n.target.id]
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, env), st, env)

    def x_AugAssign(self, n, st, env):
        if isinstance(n.target, ast.Name):
            cur = self.load_name(st, env, n.target.id)
            rhs = self.ev(n.value, st, env)
            self.assign(n.target, self.augop(st, n.op, cur, rhs), st, env)
        elif isinstance(n.target, ast.Attribute):
            obj = self.ev(n.target.value, st, env)
            cur = self.getattr(st, obj, self.mangle(n.target.attr))
            rhs = self.ev(n.value, st, env)
            self.setattr(st, obj, self.mangle(n.target.attr),
                         self.augop(st, n.op, cur, rhs))
        else:
            obj = self.ev(n.target.value, st, env)
            idx = self.ev_index(n.target.slice, st, env)
            cur = self.subscript(st, obj, idx)
            rhs = self.ev(n.value, st, env)
            new = self.binop(st, n.op, cur, rhs)
            self.setsubscript(st, obj, idx, new)

    def augop(self, st, op, cur, rhs):
        if isinstance(cur, Phi):
            return self.split(st, cur,
                              lambda s, a: self.augop(s, op, a, rhs))
        if self.isarr(st, cur):
            new = self.binop_terms(st, op, self.term(st, cur),
                                   self.term(st, rhs))
            self.store_arr(st, cur, new, "augmented assignment")
            return cur
        if isinstance(cur, Ref) and isinstance(st.get(cur), Lst) and \
                isinstance(op, ast.Add):
            self.extern.list_extend(self, st, cur, rhs)
            return cur
        if isinstance(cur, T) and cur.shape is None and cur.kind is None and \
                cur.op == "sym":
            self.event(st, "mutate", "augmented assignment", [cur], extra=cur)
        return self.binop(st, op, cur, rhs)

    def x_Delete(self, n, st, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.mut(env).vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                obj = self.ev(t.value, st, env)
                self.delattr(st, obj, self.mangle(t.attr))
            else:
                obj = self.ev(t.value, st, env)
                idx = self.ev_index(t.slice, st, env)
                self.extern.delitem(self, st, obj, idx)

    def x_Return(self, n, st, env):
        v = NONE if n.value is None else self.ev(n.value, st, env)
        self.callstack[-1].returns.append((st.fork(), v))
        raise Dead()

    def x_Raise(self, n, st, env):
        if n.exc is None:
            if self.excstack:
                exc = self.excstack[-1]
                if isinstance(exc, Ref):
                    self.raises(st, exc)
                    raise Dead()
            self.raise_exc(st, "RuntimeError", "reraise")
        v = self.ev(n.exc, st, env)
        if n.cause is not None:
            self.ev(n.cause, st, env)
        if isinstance(v, (ClassVal, Ext)):
            v = self.call(v, [], {}, st, n)
        self.raises(st, v)
        raise Dead()

    def x_FunctionDef(self, n, st, env):
        f = self.make_func(n, st, env)
        v = f
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, env)
            v = self.call(dv, [v], {}, st, n)
        self.store_name(st, env, n.name, v)

    def make_func(self, n, st, env):
        defaults = [self.ev(d, st, env) for d in n.args.defaults]
        kwd = {a.arg: self.ev(d, st, env)
               for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults)
               if d is not None}
        e = st.get(env)
        cls = e.vars.get("__classname__")
        encl = self.callstack[-1].func
        clsname = cls if isinstance(cls, str) else encl.cls
        addr = env.addr
        if isinstance(cls, str):
            addr = e.parent          # class scope is not enclosing
        name = getattr(n, "name", "<lambda>")
        f = Func(n, encl.module, addr, clsname,
                 (cls + "." + name) if isinstance(cls, str) else (
                     name if encl.name in ("<module>", None)
                     else encl.name + "." + name),
                 defaults, kwd)
        if isinstance(cls, str):
            f.clsbox = e.vars["__classbox__"]
        else:
            f.clsbox = getattr(encl, "clsbox", None)
        if isinstance(n, ast.FunctionDef):
            f.isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                          for x in walk_own(n))
        return f

    def x_ClassDef(self, n, st, env):
        bases = [self.ev(b, st, env) for b in n.bases]
        box = []
        cenv = self.alloc(st, Env({"__classname__": n.name,
                                   "__classbox__": box,
                                   "__annofields__": []}, env.addr))
        modname = self.callstack[-1].func.module
        self.exec_block(n.body, st, cenv)
        ns = dict(st.get(cenv).vars)
        for k in ("__classname__", "__classbox__"):
            ns.pop(k)
        for k in list(ns):
            if k.startswith("__") and not k.endswith("__"):
                ns["_" + n.name.lstrip("_") + k] = ns.pop(k)
        c = ClassVal(n.name, modname, bases, ns)
        c.node = n
        doc = ast.get_docstring(n)
        c.ns.setdefault("__doc__", const(doc))
        c.mro = self.c3(c)
        box.append(c)
        v = c
        for d in reversed(n.decorator_list):
            v = self.call(self.ev(d, st, env), [v], {}, st, n)
        self.store_name(st, env, n.name, v)

    def c3(self, c):
        seqs = []
        for b in c.bases:
            if isinstance(b, ClassVal):
                seqs.append(list(b.mro))
            elif isinstance(b, Ext) and b.name.split(".")[-1] in EXC_ROOTS:
                seqs.append(list(self.exc_class(b.name).mro))
        seqs.append([b for b in c.bases if isinstance(b, ClassVal)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("MRO of " + c.name)
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def cond(self, test, st, env):
        return self.truth(st, self.ev(test, st, env))

    def x_If(self, n, st, env):
        c = self.cond(n.test, st, env)
        k = st.known(c)
        if k is not None:
            self.exec_block(n.body if k else n.orelse, st, env)
            return
        s1, s2 = st.fork(c, True), st.fork(c, False)
        alive = []
        for s, b in ((s1, n.body), (s2, n.orelse)):
            try:
                self.exec_block(b, s, env)
                alive.append(s)
            except Dead:
                pass
        if not alive:
            raise Dead()
        if len(alive) == 1:
            st.become(alive[0])
        else:
            st.become(self.merge(s1, s2, c, st.pc))

    def x_Match(self, n, st, env):
        raise Unsupported("match statement")

    def x_Break(self, n, st, env):
        self.loops[-1].breaks.append((st.fork(), NONE))
        raise Dead()

    def x_Continue(self, n, st, env):
        self.loops[-1].conts.append((st.fork(), NONE))
        raise Dead()

    def x_For(self, n, st, env):
        it = self.ev(n.iter, st, env)
        self.run_for(st, it, lambda s, v: (self.assign(n.target, v, s, env),
                                           self.exec_block(n.body, s, env)),
                     (lambda s: self.exec_block(n.orelse, s, env))
                     if n.orelse else None, env)

    def run_for(self, st, it, body, orelse, env):
        items = self.iterate(st, it)
        if isinstance(items, Phi):
            def go(s, alt):
                self.run_for(s, alt, body, orelse, env)
                return NONE
            self.split(st, items, go)
            return
        if isinstance(items, SymIter):
            self.sym_for(st, items, body, orelse, env)
            return
        if len(items) > MAXUNROLL:
            raise Unsupported("loop too long")
        depth0 = len(st.pc)
        breaks = []
        alive = True
        for v in items:
            loop = Loop()
            self.loops.append(loop)
            nxt = []
            try:
                body(st, v)
                nxt.append((st.fork(), NONE))
            except Dead:
                pass
            finally:
                self.loops.pop()
            nxt = loop.conts + nxt
            breaks.extend(loop.breaks)
            if not nxt:
                alive = False
                break
            st.become(self.merge_tree(nxt, self.common(nxt, depth0))[0])
        outs = []
        if alive:
            try:
                if orelse:
                    orelse(st)
                outs.append((st.fork(), NONE))
            except Dead:
                pass
        outs = breaks + outs
        if not outs:
            raise Dead()
        st.become(self.merge_tree(outs, self.common(outs, depth0))[0])

    def common(self, items, d):
        return d

    def snapshot_changes(self, pre, post):
        """Addresses whose object differs between two states."""
        out = []
        for a, o in post.heap.items():
            p = pre.heap.get(a)
            if p is None:
                p = self.base.get(a)
            if p is None:
                continue
            if o is not p:
                out.append((a, p, o))
        return out

    def sym_for(self, st, it, body, orelse, env):
        src = it.source
        pre = st.fork()
        c = mk("nonempty", src, kind="bool", shape=())
        s1 = st.fork(c, True)
        loop = Loop()
        self.loops.append(loop)
        frame = self.callstack[-1]
        nret = len(frame.returns)
        ends = []
        try:
            body(s1, it.elem(s1))
            ends.append((s1.fork(), NONE))
        except Dead:
            pass
        finally:
            self.loops.pop()
        ends = loop.conts + ends + loop.breaks
        if not ends:
            # every iteration leaves: continue only if the iterable is empty
            st.learn(c, False)
            if orelse:
                orelse(st)
            return
        s1 = self.merge_tree(ends, len(st.pc))[0]
        changes = self.snapshot_changes(pre, s1)
        tag = self.uid("loop")
        st.become(pre)
        for a, p, o in changes:
            st.heap[a] = self.havoc(pre, s1, p, o, src, tag)
        for a, o in s1.heap.items():
            st.heap.setdefault(a, o)
        if orelse:
            orelse(st)

    def havoc(self, s0, s1, p, o, src, tag):
        def hv(name, x, y):
            if same(x, y):
                return x
            tx = self.term(s0, x) if x is not UNSET else NONE
            ty = self.term(s1, y) if y is not UNSET else NONE
            if x is UNSET:
                return Phi(mk("nonempty", src, kind="bool", shape=()),
                           y, UNSET)
            return self.wrap(s1, opaque("loopvar", name, src, tx, ty, kind=(
                tx.kind if tx.kind == ty.kind else None)))
        if isinstance(o, Env):
            e = o.copy()
            for k in list(o.vars):
                e.vars[k] = hv(k, p.vars.get(k, UNSET), o.vars[k])
                if isinstance(e.vars[k], Ref) and e.vars[k].addr in s1.heap:
                    s0.heap.setdefault(e.vars[k].addr,
                                       s1.heap[e.vars[k].addr])
            return e
        if isinstance(o, Inst):
            i = o.copy()
            for k in list(o.attrs):
                i.attrs[k] = hv(k, p.attrs.get(k, UNSET), o.attrs[k])
            return i
        if isinstance(o, Arr):
            return Arr(opaque("loopvar", tag, src, self.content(s0, p),
                              self.content(s1, o),
                              shape=self.content(s0, p).shape),
                       label=o.label)
        if isinstance(o, Lst):
            if p.sym is None and o.sym is None and len(o.items) == len(
                    p.items) + 1 and same_seq(p.items, o.items[:-1]):
                t = mk("map", src, self.term(s1, o.items[-1]),
                       *[self.term(s0, x) for x in p.items], kind="list")
                return Lst([], t)
            return Lst([], opaque("looplist", tag, src, kind="list"))
        if isinstance(o, Dct):
            return Dct({}, opaque("loopdict", tag, src, kind="dict"))
        if isinstance(o, SetO):
            return SetO([], opaque("loopset", tag, src, kind="set"))
        if isinstance(o, Opq):
            q = o.copy()
            q.state = opaque("loopstate", tag, src, p.state, o.state,
                             kind="obj")
            return q
        return o

    def x_While(self, n, st, env):
        depth0 = len(st.pc)
        breaks = []
        for _ in range(200):
            c = self.cond(n.test, st, env)
            k = st.known(c)
            if k is None:
                break
            if k is False:
                outs = breaks + [(st.fork(), NONE)]
                st.become(self.merge_tree(outs, depth0)[0])
                if n.orelse:
                    self.exec_block(n.orelse, st, env)
                return
            loop = Loop()
            self.loops.append(loop)
            nxt = []
            try:
                self.exec_block(n.body, st, env)
                nxt.append((st.fork(), NONE))
            except Dead:
                pass
            finally:
                self.loops.pop()
            breaks.extend(loop.breaks)
            nxt = loop.conts + nxt
            if not nxt:
                if not breaks:
                    raise Dead()
                st.become(self.merge_tree(breaks, depth0)[0])
                return
            st.become(self.merge_tree(nxt, depth0)[0])
        else:
            raise Unsupported("while loop too long")
        # unknown condition: havoc
        src = opaque("while", self.uid("w"))
        sym_it = SymIter(src, lambda s: NONE)
        self.sym_for(st, sym_it,
                     lambda s, v: self.exec_block(n.body, s, env),
                     None, env)

    def x_With(self, n, st, env):
        self._with(list(n.items), n.body, st, env, n)

    x_AsyncWith = x_With

    def _with(self, items, body, st, env, n):
        if not items:
            self.exec_block(body, st, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, st, env)
        isrepo = isinstance(cm, Ref) and isinstance(st.get(cm), Inst) and \
            self.class_lookup(st.get(cm).cls, "__enter__") is not None
        if not isrepo:
            val = cm
            self.event(st, "with", "enter", [cm])
            if it.optional_vars is not None:
                if isinstance(cm, Ref) and isinstance(st.get(cm), H5):
                    val = cm
                elif isinstance(cm, T):
                    val = mk("entered", cm)
                self.assign(it.optional_vars, val, st, env)
            if isinstance(cm, Ref) and isinstance(st.get(cm), H5):
                self._protected(
                    lambda s: self._with(items[1:], body, s, env, n), st,
                    lambda s, exc: self.extern.h5_close(self, s, cm))
                return
            self._protected(
                lambda s: self._with(items[1:], body, s, env, n), st,
                lambda s, exc: self.event(s, "with", "exit", [cm]))
            return
        val = self.call_method(st, cm, "__enter__", [])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, st, env)

        def leave(s, exc):
            if exc is None:
                self.call_method(s, cm, "__exit__", [NONE, NONE, NONE])
                return False
            self.excstack.append(exc)
            try:
                o = s.get(exc) if isinstance(exc, Ref) else None
                cls = o.cls if isinstance(o, Inst) else Ext("exc")
                r = self.call_method(s, cm, "__exit__",
                                     [cls, exc, opaque("tb", kind="obj")])
            finally:
                self.excstack.pop()
            return st.known(self.truth(s, r)) is True
        self._protected(lambda s: self._with(items[1:], body, s, env, n), st,
                        leave)

    def _protected(self, run, st, leave):
        """Run `run(st)`, calling leave(state, exc|None) on every exit.
        leave returns True to swallow the exception."""
        frame = self.callstack[-1]
        nret = len(frame.returns)
        nb = len(self.loops[-1].breaks) if self.loops else 0
        nc = len(self.loops[-1].conts) if self.loops else 0
        self.collectors.append([])
        self.try_depth += 1
        depth0 = len(st.pc)
        alive = False
        try:
            try:
                run(st)
                alive = True
            except Dead:
                pass
        finally:
            self.try_depth -= 1
            raised = self.collectors.pop()
        outs = []

        def redo(lst, k):
            for i in range(k, len(lst)):
                s, v = lst[i]
                try:
                    leave(s, None)
                    yield (s, v)
                except Dead:
                    pass
        tail = list(redo(frame.returns, nret))
        frame.returns[nret:] = tail
        if self.loops:
            lb = self.loops[-1]
            lb.breaks[nb:] = list(redo(lb.breaks, nb))
            lb.conts[nc:] = list(redo(lb.conts, nc))
        if alive:
            try:
                leave(st, None)
                outs.append((st.fork(), NONE))
            except Dead:
                pass
        for r in raised:
            try:
                swallowed = leave(r.st, r.exc)
            except Dead:
                continue
            if swallowed:
                outs.append((r.st, NONE))
            else:
                self.collectors[-1].append(r)
        if not outs:
            raise Dead()
        st.become(self.merge_tree(outs, depth0)[0])

    def x_Try(self, n, st, env):
        if n.finalbody:
            inner = ast.Try(body=n.body, handlers=n.handlers,
                            orelse=n.orelse, finalbody=[])
            ast.copy_location(inner, n)

            def run(s):
                if n.handlers:
                    self.x_Try(inner, s, env)
                else:
                    self.exec_block(n.body, s, env)
                    self.exec_block(n.orelse, s, env)

            def leave(s, exc):
                self.exec_block(n.finalbody, s, env)
                return False
            self._protected(run, st, leave)
            return
        depth0 = len(st.pc)
        self.collectors.append([])
        self.try_depth += 1
        alive = False
        try:
            try:
                self.exec_block(n.body, st, env)
                alive = True
            except Dead:
                pass
        finally:
            self.try_depth -= 1
            raised = self.collectors.pop()
        outs = []
        if alive:
            try:
                self.exec_block(n.orelse, st, env)
                outs.append((st.fork(), NONE))
            except Dead:
                pass
        for r in raised:
            handled = False
            for h in n.handlers:
                m = self.handler_match(r, h, env)
                if m is False:
                    continue
                s = r.st.fork() if m is None else r.st
                if h.name:
                    self.store_name(s, env, h.name, r.exc)
                self.excstack.append(r.exc)
                try:
                    self.exec_block(h.body, s, env)
                    outs.append((s, NONE))
                except Dead:
                    pass
                finally:
                    self.excstack.pop()
                if m is True:
                    handled = True
                    break
            if not handled:
                self.collectors[-1].append(r)
        if not outs:
            raise Dead()
        st.become(self.merge_tree(outs, depth0)[0])

    x_TryStar = x_Try

    def handler_match(self, r, h, env):
        if h.type is None:
            return True
        types = self.ev(h.type, r.st, env)
        types = types.items if isinstance(types, Tup) else [types]
        o = r.st.get(r.exc) if isinstance(r.exc, Ref) else None
        if not isinstance(o, Inst) or o.cls.name == "AnyException":
            return None
        for t in types:
            if isinstance(t, Ext):
                t = self.exc_class(t.name)
            if t in o.cls.mro:
                return True
        return False

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.store_name(st, env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, env)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st, env)
            self.setattr(st, obj, self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, env)
            idx = self.ev_index(t.slice, st, env)
            self.setsubscript(st, obj, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, env)
        else:
            raise Unsupported("assign to " + type(t).__name__)

    def unpack(self, elts, v, st, env):
        if isinstance(v, Phi):
            v = self.phival(st, v)
        if isinstance(v, Phi):
            def go(s, alt):
                self.unpack(elts, alt, s, env)
                return NONE
            self.split(st, v, go)
            return
        items = self.iterate(st, v, n=len(elts))
        if isinstance(items, Phi):
            def go2(s, alt):
                its = self.iterate(s, alt, n=len(elts))
                for e, x in zip(elts, its):
                    self.assign(e, x, s, env)
                return NONE
            self.split(st, items, go2)
            return
        if isinstance(items, SymIter):
            src = items.source
            if any(isinstance(e, ast.Starred) for e in elts):
                for i, e in enumerate(elts):
                    self.assign(e, opaque("unpack", src, const(i)), st, env)
                return
            for i, e in enumerate(elts):
                self.assign(e, self.getel(st, src, i), st, env)
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            after = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_exc(st, "ValueError", "not enough to unpack")
            mid = items[k:len(items) - after]
            vals = list(items[:k]) + [self.alloc(st, Lst(mid))] + list(
                items[len(items) - after:] if after else [])
        else:
            if len(items) != len(elts):
                self.raise_exc(st, "ValueError", "unpack length")
            vals = items
        for e, x in zip(elts, vals):
            self.assign(e, x, st, env)

    def getel(self, st, src, i):
        t = tm.getitem(src, (("i", const(i)),)) if src.kind in (
            "arr", None) else mk("item", src, const(i))
        return self.wrap(st, t)

    # ------------------------------------------------------------ iteration
    def altlist(self, st, v):
        """the lists a conditional list stands for: a Ref, a Phi of such, or
        None"""
        o = st.get(v)
        if not isinstance(o, Lst) or o.sym is None:
            return None
        n = [0]

        def shape(t):
            if t.op == "phi":
                return shape(t.args[1]) and shape(t.args[2])
            n[0] += 1
            return n[0] <= 4 and t.op == "list" and all(
                x.kind not in ("obj", "fn", "dict", "set", "str", "tuple")
                for x in t.args)

        def make(t):
            if t.op == "phi":
                k = st.known(t.args[0])
                if k is not None:
                    return make(t.args[1 if k else 2])
                return Phi(t.args[0], make(t.args[1]), make(t.args[2]))
            return self.alloc(st, Lst([self.wrap(st, x) for x in t.args]))
        return make(o.sym) if o.sym.op == "phi" and shape(o.sym) else None

    def listcat(self, a, b):
        """concatenation of two list terms"""
        if a.op == "phi" and b.op == "list" and not any(
                x.kind in ("str", "tuple") for x in b.args):
            x, y = self.listcat(a.args[1], b), self.listcat(a.args[2], b)
            if "listcat" not in (x.op, y.op):
                return tm.phi(a.args[0], x, y)
        if a.op == "list" and b.op == "list":
            return mk("list", *(a.args + b.args), kind="list")
        return mk("listcat", a, b, kind="list")

    def iterate(self, st, v, n=None):
        """list of element values, or SymIter/Phi."""
        if isinstance(v, Phi):
            v = self.phival(st, v)
            if isinstance(v, Phi):
                return v
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, RangeV):
            if all(tm.is_num(x) for x in (v.lo, v.hi, v.st)):
                r = range(tm.cval(v.lo), tm.cval(v.hi), tm.cval(v.st))
                if len(r) > MAXUNROLL:
                    raise Unsupported("range too long")
                return [const(i) for i in r]
            src = self.term(st, v)
            return SymIter(src, lambda s: sym("idx:" + tm.show(src), "int",
                                              ()))
        if isinstance(v, SymIter):
            return v
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, Lst):
                if o.sym is None:
                    return list(o.items)
                alt = self.altlist(st, v)
                if isinstance(alt, Phi):
                    return alt
                if alt is not None:
                    return list(st.get(alt).items)
                return SymIter(o.sym, lambda s: self.symelem(s, o.sym))
            if isinstance(o, SetO):
                if o.sym is None:
                    return list(o.items)
                return SymIter(o.sym, lambda s: opaque("elem", o.sym))
            if isinstance(o, Dct):
                if o.sym is None:
                    return [kv for kv, _ in o.items.values()]
                if o.items:
                    return SymIter(self.term(st, v),
                                   lambda s: mk("elem", o.sym))
                return SymIter(o.sym, lambda s: mk("elem", o.sym))
            if isinstance(o, Arr):
                t = self.content(st, o)
                if t.op == "array" and all(x.shape is not None
                                           for x in t.args):
                    return [self.view(st, v, ("getitem",
                                              (("i", const(i)),)))
                            for i in range(len(t.args))]
                if t.shape is not None and len(t.shape) and tm.is_num(
                        t.shape[0]):
                    return [self.view(st, v, ("getitem",
                                              (("i", const(i)),)))
                            for i in range(tm.cval(t.shape[0]))]
                if n is not None:
                    return SymIter(t, None)
                return SymIter(t, lambda s: self.view(
                    s, v, ("getitem", (("i", sym("idx:" + tm.show(t), "int",
                                                 ())),))))
            if isinstance(o, H5):
                return [const(k) for k in sorted(o.items)]
            if isinstance(o, Inst):
                m = self.class_lookup(o.cls, "__iter__")
                if m is not None:
                    return self.iterate(st, self.call_method(
                        st, v, "__iter__", []))
                m = self.class_lookup(o.cls, "__getitem__")
                if m is not None and self.class_lookup(o.cls, "__len__"):
                    ln = self.call_method(st, v, "__len__", [])
                    if isinstance(ln, T) and tm.is_num(ln):
                        return [self.call_method(st, v, "__getitem__",
                                                 [const(i)])
                                for i in range(tm.cval(ln))]
                self.raise_exc(st, "TypeError", "not iterable")
            if isinstance(o, DS):
                return SymIter(o.content, lambda s: opaque("elem", o.content))
        if isinstance(v, T):
            if v.op == "phi":
                v = self.phival(st, v)
            if v.op == "phi":
                a, b = v.args[1], v.args[2]
                if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
                    return Phi(v.args[0], a, b)
            if v.op in ("tuple", "list"):
                return [self.wrap(st, x) for x in v.args]
            if v.kind in ("int", "float", "bool", "none", "dim"):
                self.raise_exc(st, "TypeError", "not iterable")
            if v.op == "const" and v.kind == "str":
                return [const(c) for c in tm.cval(v)]
            if v.op == "array":
                return [self.wrap(st, x) for x in v.args]
            return SymIter(v, lambda s: self.symelem(s, v))
        if isinstance(v, ClassVal):
            raise Unsupported("iterate class")
        return SymIter(self.term(st, v), lambda s: opaque("elem",
                                                          self.term(s, v)))

    def symelem(self, st, src):
        if src.op == "map":
            return self.wrap(st, src.args[1])
        return self.wrap(st, mk("elem", src))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, env):
        self.steps += 1
        self.curnode = n
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, st, env)

    def e_Constant(self, n, st, env):
        if n.value is Ellipsis:
            return Ext("Ellipsis")
        if isinstance(n.value, complex):
            return mk("complex", repr(n.value), shape=())
        return const(n.value)

    def e_Name(self, n, st, env):
        return self.load_name(st, env, n.id)

    def e_NamedExpr(self, n, st, env):
        v = self.ev(n.value, st, env)
        e = env
        while "__comp__" in st.get(e).vars:
            e = Ref(st.get(e).parent)
        self.store_name(st, e, n.target.id, v)
        return v

    def e_Tuple(self, n, st, env):
        return Tup(self.ev_elts(n.elts, st, env))

    def ev_elts(self, elts, st, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, env)
                items = self.iterate(st, v)
                if isinstance(items, (SymIter, Phi)):
                    raise Unsupported("starred of unknown length")
                out.extend(items)
            else:
                out.append(self.ev(e, st, env))
        return out

    def e_List(self, n, st, env):
        return self.alloc(st, Lst(self.ev_elts(n.elts, st, env)))

    def e_Set(self, n, st, env):
        s = self.alloc(st, SetO([]))
        for x in self.ev_elts(n.elts, st, env):
            self.extern.set_add(self, st, s, x)
        return s

    def e_Dict(self, n, st, env):
        d = self.alloc(st, Dct())
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.extern.dict_update(self, st, d,
                                        self.ev(v, st, env))
            else:
                kv = self.ev(k, st, env)
                vv = self.ev(v, st, env)
                self.extern.dict_set(self, st, d, kv, vv)
        return d

    def e_JoinedStr(self, n, st, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, env)
                spec = None
                if v.format_spec is not None:
                    spec = self.term(st, self.ev(v.format_spec, st, env))
                if v.conversion == ord("r"):
                    parts.append(mk("repr", self.strterm(st, x), kind="str"))
                    continue
                t = self.strterm(st, x)
                if spec is not None and not (tm.is_const(t) and tm.is_const(
                        spec)):
                    t = mk("format", t, spec, kind="str")
                elif spec is not None:
                    try:
                        t = const(format(tm.cval(t), tm.cval(spec)))
                    except Exception:
                        t = opaque("format", t, spec, kind="str")
                parts.append(t)
        if all(tm.is_const(p) for p in parts):
            return const("".join(str(tm.cval(p)) for p in parts))
        return mk("fstr", *parts, kind="str")

    def strterm(self, st, x):
        return self.term(st, x)

    def e_FormattedValue(self, n, st, env):
        return self.ev(n.value, st, env)

    def e_Attribute(self, n, st, env):
        obj = self.ev(n.value, st, env)
        self.curnode = n
        return self.getattr(st, obj, self.mangle(n.attr))

    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            cls = self.callstack[-1].func.cls if self.callstack else None
            if cls is None and self.callstack:
                pass
            if cls:
                return "_" + cls.lstrip("_") + name
        return name

    def e_Subscript(self, n, st, env):
        obj = self.ev(n.value, st, env)
        idx = self.ev_index(n.slice, st, env)
        self.curnode = n
        return self.subscript(st, obj, idx)

    def ev_index(self, n, st, env):
        return self.ev(n, st, env)

    def e_Slice(self, n, st, env):
        f = lambda x: NONE if x is None else self.ev(x, st, env)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, n, st, env):
        raise Unsupported("starred")

    def e_UnaryOp(self, n, st, env):
        v = self.ev(n.operand, st, env)
        if isinstance(n.op, ast.Not):
            return tm.bnot(self.truth(st, v))
        if isinstance(v, Phi):
            v = self.phival(st, v)
        if isinstance(v, Ref) and isinstance(st.get(v), Inst):
            return self.call_method(st, v, "__neg__", [])
        t = self.term(st, v)
        if isinstance(n.op, ast.USub):
            return self.wrap(st, tm.neg(t))
        if isinstance(n.op, ast.UAdd):
            return v
        if t.kind == "bool" and t.shape == ():
            return tm.neg(tm.add(t, ONE))
        return self.wrap(st, mk("invert", t, shape=t.shape, kind=t.kind))

    def e_BinOp(self, n, st, env):
        a = self.ev(n.left, st, env)
        b = self.ev(n.right, st, env)
        self.curnode = n
        return self.binop(st, n.op, a, b)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
              "MatMult": "matmul", "Pow": "pow", "FloorDiv": "floordiv",
              "Mod": "mod", "BitOr": "or", "BitAnd": "and"}

    def binop(self, st, op, a, b):
        if isinstance(a, Phi):
            a = self.phival(st, a)
        if isinstance(b, Phi):
            b = self.phival(st, b)
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Ref) and isinstance(st.get(x), Inst):
                nm = pre + self.DUNDER.get(type(op).__name__, "?") + "__"
                if self.class_lookup(st.get(x).cls, nm) is not None:
                    return self.call_method(st, x, nm, [y])
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            la_ = st.get(a) if isinstance(a, Ref) else None
            lb = st.get(b) if isinstance(b, Ref) else None
            if isinstance(la_, Lst) and isinstance(lb, Lst):
                if la_.sym is None and lb.sym is None:
                    return self.alloc(st, Lst(la_.items + lb.items))
                return self.alloc(st, Lst([], mk(
                    "listcat", self.term(st, a), self.term(st, b),
                    kind="list")))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, T) and tm.is_num(y) and y.kind == "int":
                    if isinstance(x, Tup):
                        return Tup(x.items * tm.cval(y))
                    if isinstance(x, Ref) and isinstance(st.get(x), Lst) and \
                            st.get(x).sym is None:
                        return self.alloc(st, Lst(st.get(x).items *
                                                  tm.cval(y)))
                elif isinstance(x, Ref) and isinstance(st.get(x), Lst):
                    return self.alloc(st, Lst([], mk(
                        "listrep", self.term(st, x), self.term(st, y),
                        kind="list")))
        so = [st.get(x) if isinstance(x, Ref) else None for x in (a, b)]
        if isinstance(so[0], SetO) or isinstance(so[1], SetO):
            return self.extern.setop(self, st, type(op).__name__, a, b)
        if isinstance(so[0], Dct) and isinstance(op, ast.BitOr):
            d = self.alloc(st, so[0].copy())
            self.extern.dict_update(self, st, d, b)
            return d
        if isinstance(op, ast.Mod) and isinstance(a, T) and a.kind == "str":
            return mk("strmod", a, self.term(st, b), kind="str")
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x is NONE:
                if not (isinstance(op, ast.BitOr)):
                    self.raise_exc(st, "TypeError", "None operand")
        return self.wrap(st, self.binop_terms(st, op, self.term(st, a),
                                              self.term(st, b)))

    def binop_terms(self, st, op, x, y):
        k = type(op).__name__
        if k != "MatMult" and x.shape and y.shape and "sparse" not in (
                x.kind, y.kind):
            for a, b in zip(x.shape[::-1], y.shape[::-1]):
                if a is not b and tm.is_num(a) and tm.is_num(b) and \
                        1 not in (tm.cval(a), tm.cval(b)):
                    self.raise_exc(st, "ValueError", "shapes do not match")
        if k == "Add":
            return tm.add(x, y)
        if k == "Sub":
            return tm.sub(x, y)
        if k == "Mult":
            if x.kind == "str" and tm.is_const(x) and tm.is_num(y):
                return const(tm.cval(x) * tm.cval(y))
            if x.kind == "str":
                return mk("strrep", x, y, kind="str")
            if y.kind == "str":
                return mk("strrep", y, x, kind="str")
            return tm.mul(x, y)
        if k == "Div":
            return tm.div(x, y)
        if k == "Pow":
            return tm.power(x, y)
        if k == "FloorDiv":
            return tm.floordiv(x, y)
        if k == "Mod":
            return tm.mod(x, y)
        if k == "MatMult":
            return self.extern.matmul_terms(self, st, x, y)
        if k in ("BitOr", "BitAnd"):
            if x.kind == "bool" and y.kind == "bool" and x.shape == () == \
                    y.shape:
                return (tm.bor if k == "BitOr" else tm.band)(x, y)
            if y.uid < x.uid:
                x, y = y, x
            return mk(k.lower(), x, y, shape=tm.broadcast(x.shape, y.shape),
                      kind=x.kind)
        return opaque("binop:" + k, x, y)

    def e_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.ev(n.values[i], s, env)
            if i == len(n.values) - 1:
                return v
            c = self.truth(s, v)
            k = s.known(c)
            if k is not None:
                if k != isand:
                    return v
                return go(i + 1, s)
            s1, s2 = s.fork(c, True), s.fork(c, False)
            cont, stop = (s1, s2) if isand else (s2, s1)
            try:
                r = go(i + 1, cont)
            except Dead:
                s.become(stop)
                return v
            m = self.merge(s1, s2, c, s.pc)
            s.become(m)
            if tm.isbool(c) and isinstance(r, T) and tm.isbool(r) and \
                    isinstance(v, T) and v is c:
                return tm.band(c, r) if isand else tm.bor(c, r)
            return self.mergeval(c, r, v) if isand else \
                self.mergeval(c, v, r)
        return go(0, st)

    def e_IfExp(self, n, st, env):
        c = self.cond(n.test, st, env)
        k = st.known(c)
        if k is not None:
            return self.ev(n.body if k else n.orelse, st, env)
        s1, s2 = st.fork(c, True), st.fork(c, False)
        r = []
        for s, b in ((s1, n.body), (s2, n.orelse)):
            try:
                r.append((s, self.ev(b, s, env)))
            except Dead:
                pass
        if not r:
            raise Dead()
        if len(r) == 1:
            st.become(r[0][0])
            return r[0][1]
        st.become(self.merge(s1, s2, c, st.pc))
        return self.mergeval(c, r[0][1], r[1][1])

    def e_Compare(self, n, st, env):
        left = self.ev(n.left, st, env)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, env)
            res.append(self.compare(st, op, left, right))
            left = right
        if len(res) == 1:
            x = res[0]
            return self.wrap(st, x) if isinstance(x, T) else x
        return tm.band(*[self.truth(st, x) for x in res])

    def compare(self, st, op, a, b):
        a, b = self.phival(st, a), self.phival(st, b)
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            c = self.is_(st, a, b)
            return c if k == "Is" else tm.bnot(c)
        if k in ("In", "NotIn"):
            c = self.contains(st, a, b)
            return c if k == "In" else tm.bnot(c)
        if k in ("Eq", "NotEq"):
            c = self.equal(st, a, b)
            if k == "NotEq":
                if isinstance(c, T) and c.shape == ():
                    return tm.bnot(c)
                return mk("invert", c, shape=c.shape, kind="bool")
            return c
        so = [st.get(x) if isinstance(x, Ref) else None for x in (a, b)]
        if isinstance(so[0], SetO) and isinstance(so[1], SetO) and \
                so[0].sym is None is so[1].sym:
            return self.extern.setcmp(self, st, k, so[0], so[1])
        x, y = self.term(st, a), self.term(st, b)
        if x is NONE or y is NONE:
            self.raise_exc(st, "TypeError", "ordering with None")
        if k == "Lt":
            return tm.lt(x, y)
        if k == "Gt":
            return tm.lt(y, x)
        if k == "LtE":
            return tm.le(x, y)
        if k == "GtE":
            return tm.le(y, x)
        raise Unsupported(k)

    def is_(self, st, a, b):
        if isinstance(a, Phi):
            return tm.phi(a.cond, self.is_(st, a.a, b), self.is_(st, a.b, b))
        if isinstance(b, Phi):
            return tm.phi(b.cond, self.is_(st, a, b.a), self.is_(st, a, b.b))
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            return self.isnone(st, x)
        if same(a, b):
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ClassVal) and isinstance(y, Ext) and \
                    y.name == "builtins." + x.name and any(
                        c is x for c in (self._exc_cache or {}).values()):
                return TRUE
        if isinstance(a, T) and isinstance(b, T):
            if a.kind == "bool" and b.kind == "bool":
                return tm.eq(a, b)
            if tm.is_const(a) and tm.is_const(b):
                return FALSE
            return mk("is", *sorted((a, b), key=lambda t: t.uid), kind="bool",
                      shape=())
        return FALSE

    def isnone(self, st, x):
        if not isinstance(x, T):
            return FALSE
        if x is NONE:
            return TRUE
        if x.op == "phi":
            return tm.phi(x.args[0], self.isnone(st, x.args[1]),
                          self.isnone(st, x.args[2]))
        if x.kind is not None or x.shape is not None or x.op != "sym":
            return FALSE
        return mk("isnone", x, kind="bool", shape=())

    def contains(self, st, a, b):
        if isinstance(b, Phi):
            return tm.phi(b.cond, self.contains(st, a, b.a),
                          self.contains(st, a, b.b))
        if isinstance(b, Tup):
            return tm.bor(*[self.truth(st, self.equal(st, a, x))
                            for x in b.items]) if b.items else FALSE
        if isinstance(b, RangeV):
            x = self.term(st, a)
            return tm.band(tm.le(b.lo, x), tm.lt(x, b.hi))
        if isinstance(b, Ref):
            o = st.get(b)
            if isinstance(o, (Lst, SetO)) and o.sym is None:
                return tm.bor(*[self.truth(st, self.equal(st, a, x))
                                for x in o.items]) if o.items else FALSE
            if isinstance(o, Dct) and o.sym is None:
                out = []
                for kv, v in o.items.values():
                    c = self.truth(st, self.equal(st, a, kv))
                    if isinstance(v, Phi):
                        if v.a is UNSET:
                            c = tm.band(c, tm.bnot(v.cond))
                        elif v.b is UNSET:
                            c = tm.band(c, v.cond)
                    out.append(c)
                return tm.bor(*out) if out else FALSE
            if isinstance(o, H5):
                return self.extern.h5_contains(self, st, b, a)
            if isinstance(o, Inst):
                if self.class_lookup(o.cls, "__contains__") is not None:
                    return self.truth(st, self.call_method(
                        st, b, "__contains__", [a]))
        x, y = self.term(st, a), self.term(st, b)
        if tm.is_const(x) and tm.is_const(y) and x.kind == y.kind == "str":
            return const(tm.cval(x) in tm.cval(y))
        return mk("in", x, y, kind="bool", shape=())

    def equal(self, st, a, b):
        if isinstance(a, Phi):
            def f(s, alt):
                return self.equal(s, alt, b)
            return self.split(st, a, f)
        if isinstance(b, Phi):
            return self.split(st, b, lambda s, alt: self.equal(s, a, alt))
        if isinstance(a, T) and a.op == "tuple":
            a = Tup(a.args)
        if isinstance(b, T) and b.op == "tuple":
            b = Tup(b.args)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return tm.band(*[self.truth(st, self.equal(st, x, y))
                             for x, y in zip(a.items, b.items)]) \
                if a.items else TRUE
        if isinstance(a, Ref) and isinstance(st.get(a), Inst):
            o = st.get(a)
            if self.class_lookup(o.cls, "__eq__") is not None:
                return self.call_method(st, a, "__eq__", [b])
            if isinstance(b, Ref):
                if a == b:
                    return TRUE
                ob = st.get(b)
                if isinstance(ob, Inst) and self.class_lookup(
                        ob.cls, "__eq__") is not None:
                    return self.call_method(st, b, "__eq__", [a])
                return FALSE
            return FALSE
        if isinstance(b, Ref) and isinstance(st.get(b), Inst):
            return self.equal(st, b, a)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.get(a), st.get(b)
            if isinstance(oa, Lst) and isinstance(ob, Lst) and \
                    oa.sym is None is ob.sym:
                return self.equal(st, Tup(oa.items), Tup(ob.items))
            if isinstance(oa, Opq) or isinstance(ob, Opq):
                return TRUE if a == b else mk(
                    "objeq", *sorted((self.term(st, a), self.term(st, b)),
                                     key=lambda t: t.uid), kind="bool",
                    shape=())
            if isinstance(oa, SetO) and isinstance(ob, SetO) and \
                    oa.sym is None is ob.sym:
                return self.extern.setcmp(self, st, "Eq", oa, ob)
            if isinstance(oa, Dct) and isinstance(ob, Dct) and \
                    oa.sym is None is ob.sym:
                if set(oa.items) != set(ob.items):
                    return FALSE
                return tm.band(*[self.truth(st, self.equal(
                    st, oa.items[k][1], ob.items[k][1]))
                    for k in oa.items]) if oa.items else TRUE
        if isinstance(a, (ClassVal, Func, Mod, Ext, Bound)) or isinstance(
                b, (ClassVal, Func, Mod, Ext, Bound)):
            if isinstance(a, (ClassVal, Func, Mod, Ext, Bound)) and \
                    isinstance(b, (ClassVal, Func, Mod, Ext, Bound)):
                return const(bool(same(a, b)))
            return FALSE
        if isinstance(a, RangeV) or isinstance(b, RangeV):
            return const(bool(same(a, b))) if type(a) is type(b) else FALSE
        # list vs other kinds
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(st.get(x), (Lst, Dct, SetO)) \
                    and isinstance(y, T) and y.kind in (
                        "int", "float", "str", "none", "bool"):
                return FALSE
            if isinstance(x, Tup) and isinstance(y, T) and y.kind in (
                    "int", "float", "str", "none", "bool"):
                return FALSE
        x, y = self.term(st, a), self.term(st, b)
        return tm.eq(x, y)

    def truth(self, st, v):
        if isinstance(v, Phi):
            v = self.phival(st, v)
        if isinstance(v, Phi):
            return tm.phi(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, T):
            if tm.is_const(v):
                return const(bool(tm.cval(v)))
            if v.op == "phi" and v.kind != "bool":
                return tm.phi(v.args[0], self.truth(st, v.args[1]),
                              self.truth(st, v.args[2]))
            if v.kind == "bool":
                return v
            if v.kind in ("int", "float", "dim") and v.shape == ():
                return tm.bnot(tm.eq(v, ZERO))
            if v.op in ("list", "tuple", "set"):
                return const(len(v.args) > 0)
            if v.kind in ("obj", "fn"):
                return TRUE
            if v.kind == "str":
                return tm.bnot(tm.eq(v, const("")))
            return mk("truth", v, kind="bool", shape=())
        if isinstance(v, Tup):
            return const(len(v.items) > 0)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (Lst, SetO, Dct)):
                if o.sym is None or o.items:
                    return const(len(o.items) > 0)
                return mk("truth", o.sym, kind="bool", shape=())
            if isinstance(o, Inst):
                for m in ("__bool__", "__len__"):
                    if self.class_lookup(o.cls, m) is not None:
                        return self.truth(st, self.call_method(st, v, m, []))
                return TRUE
            if isinstance(o, Arr):
                return mk("truth", self.content(st, o), kind="bool", shape=())
            return TRUE
        return TRUE

    def e_Lambda(self, n, st, env):
        return self.make_func(n, st, env)

    def comp(self, n, st, env, emit):
        cenv = self.alloc(st, Env({"__comp__": TRUE}, env.addr))

        def go(i, s):
            if i == len(n.generators):
                emit(s, cenv)
                return
            g = n.generators[i]
            it = self.ev(g.iter, s, cenv if i else env)

            def body(s2, v):
                self.assign(g.target, v, s2, cenv)

                def conds(j, s3):
                    if j == len(g.ifs):
                        go(i + 1, s3)
                        return
                    c = self.cond(g.ifs[j], s3, cenv)
                    k = s3.known(c)
                    if k is False:
                        return
                    if k is True:
                        conds(j + 1, s3)
                        return
                    sa, sb = s3.fork(c, True), s3.fork(c, False)
                    try:
                        conds(j + 1, sa)
                    except Dead:
                        s3.become(sb)
                        return
                    s3.become(self.merge(sa, sb, c, s3.pc))
                conds(0, s2)
            self.run_for(s, it, body, None, cenv)
        go(0, st)

    def e_ListComp(self, n, st, env):
        out = self.alloc(st, Lst([]))

        def emit(s, cenv):
            v = self.ev(n.elt, s, cenv)
            o = s.mut(out)
            if o.sym is not None:
                o.sym = self.listcat(o.sym, mk("list", self.term(s, v),
                                               kind="list"))
            else:
                o.items.append(v)
        self.comp(n, st, env, emit)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, env):
        out = self.alloc(st, SetO([]))

        def emit(s, cenv):
            self.extern.set_add(self, s, out, self.ev(n.elt, s, cenv))
        self.comp(n, st, env, emit)
        return out

    def e_DictComp(self, n, st, env):
        out = self.alloc(st, Dct())

        def emit(s, cenv):
            self.extern.dict_set(self, s, out, self.ev(n.key, s, cenv),
                                 self.ev(n.value, s, cenv))
        self.comp(n, st, env, emit)
        return out

    def e_Yield(self, n, st, env):
        v = NONE if n.value is None else self.ev(n.value, st, env)
        f = self.callstack[-1]
        if f.yields is None:
            raise Unsupported("yield")
        st.mut(f.yields).items.append(v)
        return NONE

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, env):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and \
                not n.args and self.lookup_env(st, env.addr, "super") is None:
            f = self.callstack[-1].func
            box = getattr(f, "clsbox", None)
            if not box:
                raise Unsupported("super() outside class")
            fn = self.callstack[-1]
            slf = fn.selfval
            return SuperV(box[0], slf)
        f = self.ev(n.func, st, env)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, env)
                items = self.iterate(st, v)
                if isinstance(items, Phi):
                    raise Unsupported("star-arg phi")
                if isinstance(items, SymIter):
                    args.append(Method(items.source, "*"))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st, env))
        for k in n.keywords:
            v = self.ev(k.value, st, env)
            if k.arg is not None:
                kwargs[k.arg] = v
            else:
                v = self.phival(st, v)
                o = st.get(v) if isinstance(v, Ref) else None
                if isinstance(o, Dct):
                    for kv, val in o.items.values():
                        if isinstance(kv, T) and tm.is_const(kv):
                            kwargs[tm.cval(kv)] = val
                    if o.sym is not None:
                        kwargs["**"] = o.sym
                else:
                    kwargs["**"] = self.term(st, v)
        self.curnode = n
        r = self.call(f, args, kwargs, st, n)
        self.curnode = n
        return r

    def call(self, f, args, kwargs, st, n=None):
        if isinstance(f, Phi):
            return self.split(st, f, lambda s, alt: self.call(
                alt, args, kwargs, s, n))
        self.calls += 1
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs, st, n)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs, st)
        if isinstance(f, PyFn):
            return f.fn(self, st, args, kwargs)
        if isinstance(f, Ext):
            return self.extern.call_ext(self, st, f.name, args, kwargs)
        if isinstance(f, Method):
            return self.extern.call_method(self, st, f.obj, f.name, args,
                                           kwargs)
        if isinstance(f, (ClassMethod, StaticMethod)):
            return self.call(f.f, args, kwargs, st, n)
        if isinstance(f, Ref):
            o = st.get(f)
            if isinstance(o, Inst):
                m = self.class_lookup(o.cls, "__call__")
                if m is not None:
                    return self.call_method(st, f, "__call__", args, kwargs)
                self.raise_exc(st, "TypeError", "not callable")
            if isinstance(o, Opq):
                return self.opaque_call(st, f, "__call__", args, kwargs)
        if isinstance(f, T):
            if f is NONE or f.kind in ("int", "float", "str", "bool"):
                self.raise_exc(st, "TypeError", "not callable")
            return self.apply_term(st, f, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def targs(self, st, args, kwargs):
        out = [self.term(st, a) for a in args]
        for k in sorted(kwargs):
            out.append(const("kw:" + k))
            v = kwargs[k]
            out.append(self.term(st, v))
        return out

    def maybe_raise(self, st, what):
        """Inside a try block an opaque call may raise anything."""
        if self.try_depth and len(self.collectors[-1]) < 12:
            c = opaque("raises", what, self.uid("r"), kind="bool", shape=())
            s = st.fork(c, True)
            exc = self.make_exc(s, self.exc_class("AnyException"),
                                [opaque("excarg", self.uid("e"))])
            self.raises(s, exc)
            st.learn(c, False)

    def apply_term(self, st, f, args, kwargs):
        ts = self.targs(st, args, kwargs)
        t = mk("apply", f, *ts)
        self.event(st, "apply", f, args, kwargs, result=t, targs=ts)
        self.maybe_raise(st, "apply")
        return t

    def opaque_call(self, st, ref, name, args, kwargs):
        """Method call on a user-supplied object."""
        o = st.get(ref)
        ts = self.targs(st, args, kwargs)
        before = self.term(st, ref)
        pure = o.pure is None and name not in MUTATORS or (
            o.pure is not None and name in o.pure)
        sig = None
        for c in o.isa:
            sig = self.class_lookup(c, name)
            if sig is not None:
                break
        nargs, nkw = self.normalise_args(sig, args, kwargs)
        ts = self.targs(st, nargs, nkw)
        res = mk("mcall", before, const(name), *ts)
        self.event(st, "mcall", name, nargs, nkw, result=res,
                   extra=(ref, before), targs=ts)
        self.maybe_raise(st, name)
        if not pure:
            m = st.mut(ref)
            m.state = mk("after", before, const(name), *ts, kind="obj")
            if name in ("fit", "reset", "refit") and name != "fit_transform":
                if name in ("fit",):
                    return ref
        nin = nkw.get("inplace")
        if isinstance(nin, T) and nin is not FALSE and args:
            # in-place contract of the interface: argument overwritten
            if self.isarr(st, args[0]):
                if st.known(self.truth(st, nin)) is True:
                    self.store_arr(st, args[0], res, "inplace=True")
                    return args[0]
                old = self.term(st, args[0])
                self.store_arr(st, args[0], tm.phi(self.truth(st, nin), res,
                                                   old), "inplace=?")
        if res.kind is None and res.shape is None:
            return self.alloc(st, Arr(res))
        return self.wrap(st, res)

    def normalise_args(self, sig, args, kwargs):
        """Convert positional to keyword arguments using a repo signature so
        that call spelling does not matter; drop explicit defaults."""
        f = sig
        while f is not None and not isinstance(f, Func):
            f = getattr(f, "f", None) or getattr(f, "fget", None)
        while f is not None and isinstance(f.attrs.get("wrapped"), Func):
            f = f.attrs["wrapped"]
        if f is None or isinstance(f.node, ast.Lambda):
            return list(args), dict(kwargs)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        out, kw = [], dict(kwargs)
        for i, v in enumerate(args):
            if i < len(names):
                kw[names[i]] = v
            else:
                out.append(v)
        # defaults
        defs = dict(zip(names[len(names) - len(f.defaults):]
                        if f.defaults else [], f.defaults))
        defs.update(f.kwdefaults)
        for k, d in defs.items():
            if k in kw and isinstance(d, T) and kw[k] is d:
                del kw[k]
        if names and names[0] in kw:
            out = [kw.pop(names[0])] + out
        return out, kw

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        env = {}
        args = list(args)
        if any(isinstance(x, Method) and x.name == "*" for x in args):
            i = [isinstance(x, Method) and x.name == "*" for x in args].index(
                True)
            src = args[i].obj
            rest = args[i + 1:]
            need = len(pos) - i - len(rest)
            if a.vararg is not None:
                raise Unsupported("unknown star args")
            args = args[:i] + [mk("item", src, const(j))
                               for j in range(max(need, 0))] + rest
        for name, v in zip(pos, args):
            env[name] = v
        extra = args[len(pos):]
        if extra and a.vararg is None:
            self.raise_exc(st, "TypeError", "too many arguments to %s"
                           % f.name)
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(extra)
        kw = dict(kwargs)
        symkw = kw.pop("**", None)
        rest = {}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if k in pos and k not in posonly or k in kwonly:
                if k in env:
                    self.raise_exc(st, "TypeError", "multiple values for "
                                   + k)
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            d = Dct({(("str"), k): (const(k), v) for k, v in rest.items()},
                    symkw)
            env[a.kwarg.arg] = self.alloc(st, d)
        elif rest:
            self.raise_exc(st, "TypeError", "unexpected keyword %s for %s"
                           % (sorted(rest)[0], f.name))
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[name] = f.defaults[j]
                else:
                    self.raise_exc(st, "TypeError", "missing argument %s for "
                                   "%s" % (name, f.name))
        for name in kwonly:
            if name not in env:
                if name in f.kwdefaults:
                    env[name] = f.kwdefaults[name]
                else:
                    self.raise_exc(st, "TypeError", "missing argument %s"
                                   % name)
        return env

    def call_func(self, f, args, kwargs, st):
        if f.attrs.get("pymodel"):
            return f.attrs["pymodel"](self, st, args, kwargs)
        rec = sum(1 for fr in self.callstack if fr.func.node is f.node)
        if rec > 6 or len(self.callstack) > MAXDEPTH:
            ts = self.targs(st, args, kwargs)
            return opaque("recursion", f.name, *ts)
        vars_ = self.bind(f, args, kwargs, st)
        env = self.alloc(st, Env(vars_, f.env))
        self.sites.add((f.module, f.name))
        frame = Frame(f, env)
        frame.selfval = args[0] if args else None
        if isinstance(f.node, ast.FunctionDef) and (
                f.node.args.posonlyargs or f.node.args.args):
            frame.selfval = vars_.get((f.node.args.posonlyargs +
                                       f.node.args.args)[0].arg)
        elif self.callstack and getattr(self.callstack[-1], "selfval",
                                        None) is not None:
            pass
        if f.isgen:
            frame.yields = self.alloc(st, Lst([]))
        depth0 = len(st.pc)
        savedloops, self.loops = self.loops, []
        saved = self.curnode
        self.callstack.append(frame)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, env)
                frame.returns.append((st.fork(), v))
            else:
                try:
                    self.exec_block(f.node.body, st, env)
                    frame.returns.append((st.fork(), NONE))
                except Dead:
                    pass
        finally:
            self.callstack.pop()
            self.loops = savedloops
            self.curnode = saved
        if not frame.returns:
            raise Dead()
        s, v = self.merge_tree(frame.returns, depth0)
        st.become(s)
        if f.isgen:
            return frame.yields
        return v

    def call_method(self, st, obj, name, args, kwargs=None):
        f = self.getattr(st, obj, name)
        return self.call(f, list(args), dict(kwargs or {}), st)

    def instantiate(self, cls, args, kwargs, st):
        if any(c.name in EXC_ROOTS or c.module == "builtins"
               for c in cls.mro if c.module == "builtins") and \
                self.class_lookup(cls, "__init__") is None:
            return self.alloc(st, Inst(cls, {"args": Tup(args)}))
        new = self.class_lookup(cls, "__new__")
        ref = self.alloc(st, Inst(cls))
        if cls.isdataclass and "__init__" not in cls.ns:
            self.extern.dataclass_init(self, st, cls, ref, args, kwargs)
            return ref
        # abstract classes cannot be instantiated
        abst = self.abstract_methods(cls)
        if abst:
            self.raise_exc(st, "TypeError", "abstract class " + cls.name)
        init = self.class_lookup(cls, "__init__")
        if init is not None:
            self.call(self.bind_desc(st, init, ref, cls), args, kwargs, st)
        elif args or kwargs:
            self.raise_exc(st, "TypeError", cls.name + "() takes no args")
        return ref

    def abstract_methods(self, cls):
        if not any(isinstance(b, Ext) and b.name in ("abc.ABC",)
                   for c in cls.mro for b in c.bases):
            return []
        seen, out = set(), []
        for c in cls.mro:
            for k, v in c.ns.items():
                if k in seen:
                    continue
                seen.add(k)
                f = v
                while isinstance(f, (Prop, ClassMethod, StaticMethod)):
                    f = getattr(f, "f", None) or getattr(f, "fget", None)
                if isinstance(f, Func) and f.attrs.get("abstract"):
                    out.append(k)
        return out

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        for c in cls.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def bind_desc(self, st, v, obj, cls):
        """Descriptor protocol for a class attribute accessed on an instance."""
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, ClassMethod):
            return Bound(v.f, cls)
        if isinstance(v, StaticMethod):
            return v.f
        if isinstance(v, PyFn):
            return Bound(v, obj)
        return v

    def getattr(self, st, obj, name, default=None):
        if isinstance(obj, Phi):
            obj = self.phival(st, obj)
        if isinstance(obj, Phi):
            return self.split(st, obj, lambda s, a: self.getattr(
                s, a, name, default))
        if isinstance(obj, Ref):
            o = st.get(obj)
            if isinstance(o, Inst):
                return self.inst_getattr(st, obj, o, name, default)
            if isinstance(o, Opq):
                if name in o.attrs:
                    return o.attrs[name]
                if name in o.hidden:
                    self.raise_exc(st, "AttributeError", name)
                if name == "__class__":
                    return o.isa[0] if o.isa else mk(
                        "attr", o.state, const(name))
                for c in o.isa:
                    v = self.class_lookup(c, name)
                    if isinstance(v, Prop):
                        return self.wrap_opq(st, mk(
                            "attr", o.state, const(name)))
                    if isinstance(v, (Func, ClassMethod, StaticMethod)):
                        return Bound(PyFn(name, lambda e, s, a, k, nm=name:
                                          e.opaque_call(s, a[0], nm, a[1:],
                                                        k)), obj)
                if not o.isa or o.pure is not None:
                    return Bound(PyFn(name, lambda e, s, a, k, nm=name:
                                      e.opaque_call(s, a[0], nm, a[1:], k)),
                                 obj)
                return self.wrap_opq(st, mk("attr", o.state, const(name)))
            return self.extern.getattr_heap(self, st, obj, o, name, default)
        if isinstance(obj, SuperV):
            return self.super_getattr(st, obj, name)
        if isinstance(obj, ClassVal):
            return self.class_getattr(st, obj, name, default)
        if isinstance(obj, Mod):
            v = st.get(obj.env).vars.get(name)
            if v is None:
                v = self.load(obj.name + "." + name)
            if v is None:
                if default is not None:
                    return default
                self.raise_exc(st, "AttributeError", name)
            return v
        if isinstance(obj, Ext):
            return self.extern.ext_attr(self, st, obj, name)
        if isinstance(obj, Prop):
            if name in ("fget", "fset", "fdel"):
                return getattr(obj, name) or NONE
            if name in ("setter", "getter", "deleter"):
                slot = {"setter": "fset", "getter": "fget",
                        "deleter": "fdel"}[name]

                def deco(e, s, a, k, p=obj, slot=slot):
                    q = Prop(p.fget, p.fset, p.fdel)
                    setattr(q, slot, a[0])
                    return q
                return PyFn(name, deco)
        if isinstance(obj, Func):
            if name == "__name__":
                return const(obj.name.split(".")[-1])
            if name == "__doc__":
                return const(ast.get_docstring(obj.node)
                             if isinstance(obj.node, ast.FunctionDef)
                             else None)
            if name in obj.attrs:
                return obj.attrs[name]
            if default is not None:
                return default
            return opaque("fattr", const(name))
        if isinstance(obj, Bound):
            if name == "__self__":
                return obj.self_
            if name == "__func__":
                return obj.func
            return self.getattr(st, obj.func, name, default)
        return self.extern.getattr_misc(self, st, obj, name, default)

    def wrap_opq(self, st, t):
        return t

    def inst_getattr(self, st, ref, o, name, default=None):
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return self.alloc(st, Dct({("str", k): (const(k), v)
                                       for k, v in o.attrs.items()}))
        v = self.class_lookup(o.cls, name)
        if isinstance(v, Prop):
            if v.fget is None:
                self.raise_exc(st, "AttributeError", name)
            return self.call(v.fget, [ref], {}, st)
        if name in o.attrs and o.attrs[name] is not UNSET:
            a = self.phival(st, o.attrs[name])
            if isinstance(a, Phi) and (a.a is UNSET or a.b is UNSET):
                def pick(s, alt):
                    if alt is UNSET:
                        if default is not None:
                            return default
                        self.raise_exc(s, "AttributeError", name)
                    return alt
                return self.split(st, a, pick)
            return a
        if v is not None:
            return self.bind_desc(st, v, ref, o.cls)
        ga = self.class_lookup(o.cls, "__getattr__")
        if ga is not None:
            return self.call(ga, [ref, const(name)], {}, st)
        if default is not None:
            return default
        if name == "__init__":
            return PyFn("object.__init__", lambda e, s, a, k: NONE)
        if name == "__str__" or name == "__repr__":
            return PyFn(name, lambda e, s, a, k: opaque(
                "objstr", o.cls.name, kind="str"))
        if name == "__eq__":
            return PyFn(name, lambda e, s, a, k: const(same(a[0], ref)))
        if name == "with_traceback":
            return PyFn(name, lambda e, s, a, k: ref)
        self.raise_exc(st, "AttributeError", "%s.%s" % (o.cls.name, name))

    def super_getattr(self, st, sv, name):
        slf = sv.self_
        iscls = isinstance(slf, ClassVal)
        cls = slf if iscls else st.get(slf).cls
        mro = cls.mro
        i = mro.index(sv.cls) if sv.cls in mro else 0
        for c in mro[i + 1:]:
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, Prop):
                    if iscls:
                        return v
                    return self.call(v.fget, [slf], {}, st)
                if isinstance(v, ClassMethod):
                    return Bound(v.f, cls)
                if isinstance(v, StaticMethod):
                    return v.f
                if isinstance(v, Func):
                    return v if iscls else Bound(v, slf)
                return v
        if name == "__init__":
            return PyFn("object.__init__", lambda e, s, a, k: NONE)
        if name == "__setattr__":
            return PyFn(name, lambda e, s, a, k: e.setattr(
                s, slf, tm.cval(a[0]), a[1]) or NONE)
        if name in ("__str__", "__repr__"):
            return PyFn(name, lambda e, s, a, k: opaque("objstr", cls.name,
                                                        kind="str"))
        self.raise_exc(st, "AttributeError", "super." + name)

    def class_getattr(self, st, c, name, default=None):
        if name == "__name__" or name == "__qualname__":
            return const(c.name)
        if name == "__module__":
            return const(c.module)
        if name == "__mro__":
            return Tup(c.mro)
        if name == "__bases__":
            return Tup(c.bases)
        if name == "__dict__":
            return self.alloc(st, Dct({("str", k): (const(k), v)
                                       for k, v in c.ns.items()}))
        v = self.class_lookup(c, name)
        if v is None:
            if name == "__class__":
                return Ext("builtins.type")
            if default is not None:
                return default
            if name == "__init__":
                return PyFn("object.__init__", lambda e, s, a, k: NONE)
            if any(x.module == "builtins" for x in c.mro) and name in (
                    "__init__", "__str__"):
                return PyFn(name, lambda e, s, a, k: NONE)
            self.raise_exc(st, "AttributeError", "%s.%s" % (c.name, name))
        if isinstance(v, ClassMethod):
            return Bound(v.f, c)
        if isinstance(v, StaticMethod):
            return v.f
        return v

    def hasattr(self, st, obj, name):
        """TRUE/FALSE/condition term"""
        obj = self.phival(st, obj)
        if isinstance(obj, (Ext, Mod)) and obj.name in (
                "spinterp", "scipy.interpolate"):
            return const(name in self.extern.SPINTERP)
        if isinstance(obj, Phi):
            return tm.phi(obj.cond, self.hasattr(st, obj.a, name),
                          self.hasattr(st, obj.b, name))
        if isinstance(obj, Ref):
            o = st.get(obj)
            if isinstance(o, Inst):
                v = self.class_lookup(o.cls, name)
                if isinstance(v, Prop):
                    s = st.fork()
                    self.collectors.append([])
                    nev = len(self.events)
                    try:
                        self.call(v.fget, [obj], {}, s)
                        ok = True
                    except Dead:
                        ok = False
                    finally:
                        rs = self.collectors.pop()
                        del self.events[nev:]
                    return const(ok)
                if v is not None:
                    return TRUE
                if name in o.attrs:
                    a = self.phival(st, o.attrs[name])
                    if a is UNSET:
                        return FALSE
                    if isinstance(a, Phi):
                        if a.a is UNSET:
                            return tm.bnot(a.cond)
                        if a.b is UNSET:
                            return a.cond
                    return TRUE
                return FALSE
            if isinstance(o, Opq):
                if name in o.attrs:
                    return TRUE
                if name in o.hidden:
                    return FALSE
                if any(self.class_lookup(c, name) is not None
                       for c in o.isa):
                    return TRUE
                return mk("hasattr", o.state, const(name), kind="bool",
                          shape=())
            if isinstance(o, Arr):
                return const(name in self.extern.ARRAY_ATTRS)
            if isinstance(o, (Lst, Dct, SetO)):
                return const(hasattr({Lst: list, Dct: dict, SetO: set}[
                    type(o)], name))
        if isinstance(obj, ClassVal):
            return const(self.class_lookup(obj, name) is not None)
        if isinstance(obj, Mod):
            return const(name in st.get(obj.env).vars)
        if isinstance(obj, T):
            if obj.kind in ("int", "float", "str", "none", "bool"):
                py = {"int": 1, "float": 1.0, "str": "", "none": None,
                      "bool": True}[obj.kind]
                return const(hasattr(py, name))
            return mk("hasattr", obj, const(name), kind="bool", shape=())
        if isinstance(obj, Tup):
            return const(hasattr((), name))
        return mk("hasattr", self.term(st, obj), const(name), kind="bool",
                  shape=())

    def setattr(self, st, obj, name, v):
        if isinstance(obj, Phi):
            def go(s, a):
                self.setattr(s, a, name, v)
                return NONE
            self.split(st, obj, go)
            return
        if isinstance(obj, Ref):
            o = st.get(obj)
            if isinstance(o, Inst):
                p = self.class_lookup(o.cls, name)
                if isinstance(p, Prop):
                    if p.fset is None:
                        self.raise_exc(st, "AttributeError",
                                       "can't set " + name)
                    self.call(p.fset, [obj, v], {}, st)
                    return
                if o.cls.isdataclass and o.cls.ns.get("__frozen__") is TRUE:
                    self.raise_exc(st, "FrozenInstanceError", name)
                self.event(st, "setattr", name, [obj, v],
                           extra=obj.addr)
                st.mut(obj).attrs[name] = v
                return
            if isinstance(o, Opq):
                self.event(st, "opqset", name, [obj, v], extra=obj.addr)
                st.mut(obj).attrs[name] = v
                return
            self.event(st, "setattr?", name, [obj, v])
            if isinstance(o, Arr) and name == "shape":
                st.mut(obj)
            return
        if isinstance(obj, ClassVal):
            self.event(st, "setclassattr", name, [obj, v])
            if st is self.base_state:
                obj.ns[name] = v
            return
        if isinstance(obj, Func):
            obj.attrs[name] = v
            return
        if isinstance(obj, Ext) and obj.name == "sys":
            self.extern.setglobal(self, st, "sys." + name, v)
            return
        self.event(st, "setattr?", name, [obj, v])

    def delattr(self, st, obj, name):
        if isinstance(obj, Ref) and isinstance(st.get(obj), Inst):
            o = st.get(obj)
            p = self.class_lookup(o.cls, name)
            if isinstance(p, Prop) and p.fdel is not None:
                self.call(p.fdel, [obj], {}, st)
                return
            if name not in o.attrs:
                self.raise_exc(st, "AttributeError", name)
            self.event(st, "setattr", name, [obj, NONE], extra=obj.addr)
            st.mut(obj).attrs.pop(name)
            return
        self.event(st, "delattr?", name, [obj])

    # ------------------------------------------------------------ subscripts
    def idxterm(self, st, idx):
        """Index value -> tuple of index items for terms.getitem"""
        items = idx.items if isinstance(idx, Tup) else (idx,)
        if isinstance(idx, T) and idx.op == "tuple":
            items = idx.args
        out = []
        for it in items:
            it = self.phival(st, it)
            if isinstance(it, SliceV):
                f = lambda x: None if x is NONE else self.term(st, x)
                out.append(("s", f(it.lo), f(it.hi), f(it.st)))
            elif it is NONE or (isinstance(it, Ext) and it.name ==
                                "np.newaxis"):
                out.append(("new",))
            elif isinstance(it, Ext) and it.name == "Ellipsis":
                out.append(("ell",))
            elif isinstance(it, T) and it.op == "slice":
                f = lambda x: None if x is NONE else x
                out.append(("s", f(it.args[0]), f(it.args[1]),
                            f(it.args[2])))
            else:
                t = self.term(st, it)
                if t.op == "slice":
                    f = lambda x: None if x is NONE else x
                    out.append(("s", f(t.args[0]), f(t.args[1]),
                                f(t.args[2])))
                elif t.shape == () and t.kind in ("int", "dim", "bool") or (
                        t.kind == "int"):
                    out.append(("i", t))
                else:
                    out.append(("a", t))
        return tuple(out)

    def subscript(self, st, obj, idx):
        if isinstance(obj, Phi):
            return self.split(st, obj, lambda s, a: self.subscript(s, a, idx))
        if isinstance(idx, Phi):
            return self.split(st, idx, lambda s, i: self.subscript(s, obj, i))
        if isinstance(obj, T):
            obj = self.phival(st, obj)
        if isinstance(obj, Tup):
            return self.seq_get(st, obj.items, idx, Tup)
        if isinstance(obj, RangeV):
            items = self.iterate(st, obj)
            if isinstance(items, list):
                return self.seq_get(st, items, idx, Tup)
        if isinstance(obj, Ref):
            o = st.get(obj)
            if isinstance(o, Lst):
                if o.sym is None:
                    return self.seq_get(st, o.items, idx,
                                        lambda x: self.alloc(st, Lst(x)))
                if isinstance(idx, SliceV):
                    return self.alloc(st, Lst([], mk(
                        "lslice", o.sym, self.term(st, idx), kind="list")))
                return self.wrap(st, mk("item", o.sym, self.term(st, idx)))
            if isinstance(o, Dct):
                return self.extern.dict_get(self, st, obj, idx)
            if isinstance(o, Arr):
                it = self.idxterm(st, idx)
                if all(i[0] in ("s", "i", "new", "ell") for i in it):
                    return self.view(st, obj, ("getitem", it))
                return self.wrap(st, tm.getitem(self.content(st, o), it))
            if isinstance(o, (H5, DS)):
                return self.extern.h5_get(self, st, obj, idx)
            if isinstance(o, Inst):
                if self.class_lookup(o.cls, "__getitem__") is None:
                    self.raise_exc(st, "TypeError", "not subscriptable")
                return self.call_method(st, obj, "__getitem__", [idx])
            if isinstance(o, Opq):
                return self.opaque_call(st, obj, "__getitem__", [idx], {})
            if isinstance(o, SetO):
                self.raise_exc(st, "TypeError", "set index")
        if isinstance(obj, T):
            if obj is NONE or obj.kind in ("int", "float", "bool") and \
                    obj.shape == ():
                self.raise_exc(st, "TypeError", "not subscriptable")
            if obj.op in ("tuple", "list") and isinstance(idx, T) and \
                    tm.is_num(idx):
                return self.seq_get(st, [self.wrap(st, x) for x in obj.args],
                                    idx, Tup)
            if obj.op == "clsname" and obj.args[0].kind == "sparse" and \
                    isinstance(idx, SliceV) and self.term(st, idx) is \
                    mk("slice", NONE, const(3), NONE, kind="slice"):
                return sparse_format(obj.args[0])
            if obj.kind == "str":
                if tm.is_const(obj):
                    k = const_index(self.term(st, idx))
                    if k is not None:
                        try:
                            return const(tm.cval(obj)[k])
                        except IndexError:
                            self.raise_exc(st, "IndexError",
                                           "string index out of range")
                return mk("stridx", obj, self.term(st, idx), kind="str")
            if obj.kind in (None, "arr"):
                return self.wrap(st, tm.getitem(obj, self.idxterm(st, idx)))
            return self.wrap(st, mk("item", obj, self.term(st, idx)))
        if isinstance(obj, (ClassVal, Ext)):
            return obj          # typing generics
        return self.wrap(st, opaque("subscript", self.term(st, obj),
                                    self.term(st, idx)))

    def seq_get(self, st, items, idx, make):
        if isinstance(idx, SliceV):
            parts = [self.term(st, x) for x in (idx.lo, idx.hi, idx.st)]
            if all(tm.is_const(p) for p in parts):
                s = slice(*[tm.cval(p) for p in parts])
                return make(list(items)[s])
            raise Unsupported("symbolic slice of sequence")
        t = self.term(st, idx)
        if tm.is_num(t):
            k = tm.cval(t)
            if not isinstance(k, int):
                self.raise_exc(st, "TypeError", "index")
            if -len(items) <= k < len(items):
                return self.phival(st, items[k])
            self.raise_exc(st, "IndexError", "index out of range")
        if t.kind == "bool" and len(items) == 2:
            return self.mergeval(t, items[1], items[0])
        out = mk("item", mk("tuple", *[self.term(st, x) for x in items]), t)
        return self.wrap(st, out)

    def setsubscript(self, st, obj, idx, v):
        if isinstance(obj, Phi):
            def go(s, a):
                self.setsubscript(s, a, idx, v)
                return NONE
            self.split(st, obj, go)
            return
        if isinstance(obj, Ref):
            o = st.get(obj)
            if isinstance(o, Arr):
                it = self.idxterm(st, idx)
                from . import extern
                w = extern.arr_term(self, st, v) if isinstance(
                    v, Tup) or (isinstance(v, Ref) and isinstance(
                        st.get(v), Lst)) else self.term(st, v)
                new = tm.setitem(self.content(st, o), it, w)
                self.store_arr(st, obj, new, "item assignment")
                return
            if isinstance(o, Lst):
                t = self.term(st, idx)
                self.event(st, "mutate", "list item", [obj], extra=obj.addr)
                if o.sym is None and tm.is_num(t):
                    k = tm.cval(t)
                    if not -len(o.items) <= k < len(o.items):
                        self.raise_exc(st, "IndexError", "assignment")
                    st.mut(obj).items[k] = v
                    return
                base = self.term(st, obj)
                m = st.mut(obj)
                m.sym = opaque("lset", base, t, self.term(st, v),
                               kind="list")
                m.items = []
                return
            if isinstance(o, Dct):
                self.extern.dict_set(self, st, obj, idx, v)
                return
            if isinstance(o, H5):
                self.extern.h5_set(self, st, obj, idx, v)
                return
            if isinstance(o, DS):
                self.event(st, "dswrite", "dataset", [obj, idx, v])
                return
            if isinstance(o, Inst):
                self.call_method(st, obj, "__setitem__", [idx, v])
                return
        if isinstance(obj, T):
            self.event(st, "mutate", "item assignment", [obj], extra=obj)
            return
        if isinstance(obj, Tup):
            self.raise_exc(st, "TypeError", "tuple assignment")
        raise Unsupported("item assignment on %r" % (obj,))

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, st, v, c):
        """TRUE/FALSE/term"""
        v = self.phival(st, v)
        c = self.phival(st, c)
        if isinstance(v, Phi):
            return tm.phi(v.cond, self.isinstance_(st, v.a, c),
                          self.isinstance_(st, v.b, c))
        if isinstance(c, Tup):
            return tm.bor(*[self.isinstance_(st, v, x) for x in c.items])
        if isinstance(c, T) and c.op == "bitor":
            raise Unsupported("union type")
        if isinstance(v, T) and v.op == "phi":
            return tm.phi(v.args[0], self.isinstance_(st, v.args[1], c),
                          self.isinstance_(st, v.args[2], c))
        o = st.get(v) if isinstance(v, Ref) else None
        if isinstance(c, ClassVal):
            if isinstance(o, Inst):
                return const(c in o.cls.mro)
            if isinstance(o, Opq):
                if any(c in x.mro for x in o.isa):
                    return TRUE
                if o.isa:
                    return FALSE
                return mk("isinstance", o.state, const(c.qualname),
                          kind="bool", shape=())
            if isinstance(v, T) and v.op in ("sym", "mcall", "apply", "attr",
                                             "elem", "item") \
                    and v.kind is None and v.shape is None:
                return mk("isinstance", v, const(c.qualname), kind="bool",
                          shape=())
            return FALSE
        if isinstance(c, Ext):
            return self.extern.isinstance_ext(self, st, v, o, c.name)
        return mk("isinstance", self.term(st, v), self.term(st, c),
                  kind="bool", shape=())

    def issubclass_(self, st, a, b):
        if isinstance(b, Tup):
            return tm.bor(*[self.issubclass_(st, a, x) for x in b.items])
        if isinstance(a, ClassVal) and isinstance(b, ClassVal):
            return const(b in a.mro)
        if isinstance(a, ClassVal) and isinstance(b, Ext):
            return const(any(x == b for c in a.mro for x in c.bases) or
                         self.exc_class(b.name) in a.mro
                         if b.name.split(".")[-1] in EXC_ROOTS else any(
                             x == b for c in a.mro for x in c.bases))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return const(a == b)
        if isinstance(a, Ext) and isinstance(b, ClassVal):
            return FALSE
        return mk("issubclass", self.term(st, a), self.term(st, b),
                  kind="bool", shape=())

    # ------------------------------------------------------------ query API
    def run(self, st, f, args=(), kwargs=None):
        """Analyse a call; returns an Outcome and leaves `st` at the join of
        the normally-returning paths."""
        self.collectors.append([])
        cs, self.callstack = self.callstack, []
        ls, self.loops = self.loops, []
        f0 = Func(ast.parse("0"), "<query>", None, name="<query>")
        fr = Frame(f0, None)
        fr.selfval = None
        self.callstack.append(fr)
        td, self.try_depth = self.try_depth, 0
        try:
            try:
                v = self.call(f, list(args), dict(kwargs or {}), st)
                dead = False
            except Dead:
                v, dead = None, True
        finally:
            self.try_depth = td
            self.callstack = cs
            self.loops = ls
            rs = self.collectors.pop()
        return Outcome(v, rs, st, dead)

    def get(self, st, obj, name):
        """Analyse an attribute read."""
        return self.run(st, PyFn("getattr", lambda e, s, a, k: e.getattr(
            s, obj, name)))

    def set(self, st, obj, name, v):
        def go(e, s, a, k):
            e.setattr(s, obj, name, v)
            return NONE
        return self.run(st, PyFn("setattr", go))

    def meth(self, st, obj, name, args=(), kwargs=None):
        def go(e, s, a, k):
            return e.call(e.getattr(s, obj, name), a, k, s)
        return self.run(st, PyFn("call:" + name, go), args, kwargs)


MUTATORS = {"fit", "fit_transform", "fit_compress", "refit", "reset",
            "set_entries", "set_interpolator", "set_training_parameters",
            "_fit_solver", "_extract_operators", "set_dimension", "load_state",
            "append", "extend", "update", "_clear"}


def apply_view(t, view):
    k = view[0]
    if k == "getitem":
        return tm.getitem(t, view[1])
    if k == "T":
        return tm.transpose(t)
    if k == "reshape":
        return tm.reshape(t, view[1])
    if k == "flat":
        return tm.flat(t)
    if k == "whole":
        return t
    if k == "atleast_2d":
        return atleast_2d(t)
    if k == "atleast_1d":
        return t if t.shape is None or len(t.shape) else mk(
            "array", t, shape=(ONE,), kind="arr")
    if k == "attr":
        return mk("attr", t, const(view[1]), shape=view[2] if len(view) > 2
                  else None, kind="arr")
    raise AssertionError(view)


def atleast_2d(t):
    if t.shape is None:
        return mk("atleast_2d", t, kind="arr")
    if len(t.shape) >= 2:
        return t
    if len(t.shape) == 1:
        return tm.row(t)
    return mk("array", mk("array", t, shape=(ONE,), kind="arr"),
              shape=(ONE, ONE), kind="arr")


def unview(old, view, new):
    k = view[0]
    if k == "getitem":
        return tm.setitem(old, view[1], new)
    if k == "T":
        return tm.transpose(new)
    if k in ("reshape", "flat", "atleast_2d", "atleast_1d"):
        if old.shape is not None:
            if len(old.shape) == 1 and new.op == "row":
                return new.args[0]
            return tm.reshape(new, old.shape) if len(old.shape) else new
        return opaque("unreshape", old, new)
    if k == "whole":
        return new
    return opaque("unview", old, const(view[1]), new)


_FREE = {}


def freevars(node):
    r = _FREE.get(node)
    if r is None:
        bound = set()
        used = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name):
                if isinstance(x.ctx, ast.Load):
                    used.add(x.id)
                else:
                    bound.add(x.id)
            elif isinstance(x, ast.arg):
                bound.add(x.arg)
        r = frozenset(used - bound)
        _FREE[node] = r
    return r


def walk_own(fn):
    """Walk a function body without entering nested functions."""
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))


def sparse_format(t):
    """first letters of the name of a sparse array's class"""
    for f in ("csr", "csc", "coo", "dia"):
        if t.op in ("to" + f, f + "_array"):
            return const(f)
    return mk("spfmt", t, kind="str")
