"""Which mutable storage an abstract value reaches."""
from ..values import (Ref, Tup, Phi, Inst, Opq, Lst, Dct, SetO, Arr, Bound,
                      Env, Func)
from ..terms import T


def reach(st, v, arrays_only=False):
    """{address: (path, kind)} of the mutable storage reachable from v"""
    out = {}
    todo = [(v, "")]
    seen = set()
    while todo:
        x, path = todo.pop()
        if isinstance(x, Phi):
            todo += [(x.a, path), (x.b, path)]
            continue
        if isinstance(x, Tup):
            todo += [(y, "%s[%d]" % (path, i)) for i, y in
                     enumerate(x.items)]
            continue
        if isinstance(x, Bound):
            todo.append((x.self_, path + ".__self__"))
            continue
        if not isinstance(x, Ref):
            continue
        a = x.addr
        if a in seen:
            continue
        seen.add(a)
        o = st.get(x)
        if isinstance(o, Arr):
            b, a0 = o, a
            while b.base is not None:
                a0 = b.base if not isinstance(b.base, Ref) else b.base.addr
                b = st.get(Ref(a0)) if not isinstance(b.base, Ref) else \
                    st.get(b.base)
                if not isinstance(b, Arr):
                    break
            out[a0] = (path, "array")
        elif isinstance(o, Inst):
            if path:
                out[a] = (path, o.cls.name)
            todo += [(y, path + "." + k) for k, y in o.attrs.items()]
        elif isinstance(o, Opq):
            todo += [(y, path + "." + k) for k, y in o.attrs.items()]
        elif isinstance(o, Lst):
            out[a] = (path, "list")
            todo += [(y, "%s[%d]" % (path, i)) for i, y in
                     enumerate(o.items)]
        elif isinstance(o, Dct):
            if not o.frozen:
                out[a] = (path, "dict")
            todo += [(y, "%s[%s]" % (path, k[1])) for k, (_, y) in
                     o.items.items()]
        elif isinstance(o, SetO):
            out[a] = (path, "set")
    return out


def shared(st, a, b):
    """[(address, path in a, path in b, kind)]"""
    ra, rb = reach(st, a), reach(st, b)
    return sorted((k, ra[k][0], rb[k][0], ra[k][1]) for k in ra if k in rb)
