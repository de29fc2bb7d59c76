"""Query layer: abstract scenarios, obligations, verdicts and evidence."""

import json
import os
import sys
import time
import traceback

from . import interp, terms as tm
from .interp import Dead, Unsupported
from .terms import T, const, mk, sym, NONE, TRUE, FALSE
from .values import (Val, Ref, Tup, Phi, Func, Bound, ClassVal, Ext, Mod,
                     Method, PyFn, Inst, Opq, Lst, Dct, SetO, Arr, H5, DS,
                     SliceV)

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("OPINF_SRC", "/repo/src")


class Fail(Exception):
    """The scenario cannot continue: a call never returns normally."""

    def __init__(self, what, where, excs):
        Exception.__init__(self, what)
        self.what, self.where, self.excs = what, where, excs


class Skip(Exception):
    """The rest of the scenario is not decided."""


class Ctx:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.eng = interp.Engine(SRC)
        self.eng.load("opinf")
        self.n_ok = 0
        self.rules = {}
        self.undecided = []
        self.bads = []
        self.cases = 0
        self.okcases = []
        self.assumptions = set()
        self.label = ""
        self.errors = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------ verdicts
    def ok(self, rule, where="", how=""):
        self.n_ok += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if len(self.okcases) < 6 or (self.n_ok % 97 == 0 and
                                     len(self.okcases) < 12):
            self.okcases.append("%s: %s at %s%s" % (
                rule, self.label, where, " (" + how + ")" if how else ""))

    def undec(self, rule, where, why):
        self.undecided.append((rule, self.label, where, why))

    def bad(self, rule, where, detail):
        self.bads.append(dict(rule=rule, case=self.label, where=where,
                              detail=detail))

    def locate(self, cls, name=None):
        """'file:line (Class.method)' of a public construct."""
        try:
            f = cls
            if isinstance(cls, str):
                f = self.eng.lookup(cls)
            if isinstance(f, ClassVal) and name:
                g = self.eng.class_lookup(f, name)
                f = g if g is not None else f
            for a in ("f", "fget", "func"):
                if hasattr(f, a) and not isinstance(f, Func):
                    f = getattr(f, a)
            if isinstance(f, Bound):
                f = f.func
            while isinstance(f, Func) and isinstance(
                    f.attrs.get("wrapped"), Func):
                f = f.attrs["wrapped"]
            if isinstance(f, Func):
                return "%s:%d (%s)" % (
                    relfile(self.eng, f.module), f.node.lineno,
                    (cls.name + "." if isinstance(cls, ClassVal) else "")
                    + (name or f.name or ""))
            if isinstance(f, ClassVal):
                return "%s (%s)" % (relfile(self.eng, f.module),
                                    f.name + ("." + name if name else ""))
        except Exception:
            pass
        return str(cls) + ("." + name if name else "")

    def case(self, label, rule="total"):
        return Case(self, label, rule)

    # ------------------------------------------------------------ comparison
    def same(self, rule, where, got, want, st=None, dims=None, facts=None,
             note="", force=None):
        """Obligation: two terms denote the same value."""
        if st is not None:
            f = dict(st.assume)
            if facts:
                f.update(facts)
            if got is not want:
                got, want = tm.assume_term(got, f), tm.assume_term(want, f)
        if got is want:
            self.ok(rule, where)
            return True
        from . import rand
        for t in (got, want):
            if t.op == "unset":
                self.bad(rule, where, note + " an attribute is missing")
                return False
        holds = None
        if st is not None and dims is None and not force:
            holds = list(st.assume.items())
        r = rand.compare(got, want, dims=dims, force=force, holds=holds)
        if r.verdict == "eq":
            self.ok(rule, where, "random interpretation")
            return True
        if r.verdict == "unknown":
            self.undec(rule, where, "%s%s: %s / %s" % (
                note, r.detail, short(got), short(want)))
            return None
        self.bad(rule, where, "%s%s; found %s, required %s" % (
            note and note + ": ", r.detail, short(got), short(want)))
        return False

    # ------------------------------------------------------------ finish
    def finish(self):
        known = load_known(self.pid)
        viol, seen = [], set()
        for b in self.bads:
            hit = None
            for k in known:
                if matches(k, b):
                    hit = k
                    break
            if hit is not None:
                if id(hit) not in seen:
                    seen.add(id(hit))
                    print("KNOWN-FINDING: property=%s %s" % (
                        self.pid, hit["what"]))
            else:
                viol.append(b)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        rep = os.path.join(ROOT, "evidence", "%s.violations.json" % self.pid)
        if os.path.exists(rep):
            os.unlink(rep)
        if viol:
            with open(rep, "w") as fh:
                json.dump(viol, fh, indent=1)
            for b in viol[:12]:
                print("  [%s] %s: %s -- %s" % (b["rule"], b["where"],
                                              b["case"], b["detail"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
        funcs = sorted("%s.%s" % s for s in self.eng.sites)
        cov = {
            "explanation":
                "Abstract interpretation of the current source of /repo/src "
                "(trace-partitioned over configurations; heap, alias, file "
                "and exception state tracked; library calls as terms). "
                "%d scenarios, %d obligations decided, %d undecided, "
                "%d functions analysed, %d abstract calls, %d evaluation "
                "steps." % (self.cases, self.n_ok + len(self.bads),
                            len(self.undecided), len(funcs),
                            self.eng.calls,
                            getattr(self, 'steps', 0) + self.eng.steps),
            "scenarios": self.cases,
            "obligations": self.n_ok + len(self.bads) + len(self.undecided),
            "discharged": self.n_ok,
            "undecided": len(self.undecided),
            "obligations_by_rule": self.rules,
            "undecided_samples": ["%s | %s | %s | %s" % u
                                  for u in self.undecided[:25]],
            "functions_analysed": len(funcs),
            "functions_sample": funcs[:: max(1, len(funcs) // 40)],
            "abstract_calls": self.eng.calls,
            "rule": sorted(self.rules),
            "samples": self.okcases,
            "trusted_base": [
                "sa/interp.py (semantics of the Python subset)",
                "sa/extern.py (models of numpy/scipy/h5py/stdlib calls)",
                "sa/terms.py, sa/rand.py (term normal forms and random "
                "interpretation)"],
            "known_findings": len(seen),
        }
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level="other", coverage=cov,
                  assumptions=sorted(self.assumptions) + [
                      "library calls behave as their documented models in "
                      "sa/extern.py; unmodelled calls are opaque functions "
                      "of their arguments",
                      "symbolic slices and dimensions lie in range"],
                  wall_s=round(time.time() - self.t0, 3),
                  violations=len(viol))
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"),
                  "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        print("%s: %d scenarios, %d obligations discharged, %d undecided, "
              "%d violations, %d known, %.1fs" % (
                  self.pid, self.cases, self.n_ok, len(self.undecided),
                  len(viol), len(seen), time.time() - self.t0))
        if self.n_ok == 0 and not viol:
            print("no obligation could be decided")
            return 2
        return 1 if viol else 0


def matches(k, b):
    m = k.get("match", {})
    return all(str(m[f]) in str(b.get(f, "")) for f in m) and bool(m)


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh).get("findings", [])
                if k["property"] == pid]


def relfile(eng, module):
    p = eng.path_of(module)[0]
    return os.path.relpath(p, os.path.dirname(SRC)) if p else module


def short(t, n=150):
    s = tm.show(t, 5) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"


class Budget(BaseException):
    """a scenario takes too long to decide"""


def watch(thread, holder):
    """Interrupts a scenario that exceeds its time, so that the others are
    still decided."""
    import ctypes
    while thread.is_alive():
        thread.join(0.25)
        c = holder[0] if holder else None
        d = getattr(c, "deadline", None)
        if d is not None and time.time() > d and thread.is_alive():
            c.deadline = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(
                ctypes.c_ulong(thread.ident), ctypes.py_object(Budget))


class Case:
    """One abstract scenario."""

    def __init__(self, ctx, label, rule):
        self.ctx, self.lab, self.rule = ctx, label, rule

    def __enter__(self):
        c = self.ctx
        c.label = self.lab
        c.cases += 1
        c.steps = getattr(c, 'steps', 0) + c.eng.steps
        c.eng.steps = 0
        self.ev0 = len(c.eng.events)
        s = S(c)
        s.rule = self.rule
        c.eng.steps_case = c.eng.steps
        each, total = (300, 6000) if c.thorough else (100, 600)
        c.deadline = min(time.time() + each,
                         max(c.t0 + total, time.time() + 0.3))
        return s

    def __exit__(self, et, ex, tb):
        c = self.ctx
        c.deadline = None
        eng = c.eng
        # the engine must be reusable whatever happened
        eng.collectors[:] = [[]]
        eng.callstack[:] = []
        eng.loops = []
        eng.excstack[:] = []
        eng.try_depth = 0
        eng.depth = 0
        eng.h5_faults = False
        del eng.events[:]
        if et is None:
            return False
        if issubclass(et, Fail):
            if ex.excs is None:
                c.undec(self.rule, ex.where, ex.what)
            else:
                c.bad(self.rule, ex.where, ex.what)
            return True
        if issubclass(et, Budget):
            c.undec(self.rule, "", "not decided within the time allowed")
            return True
        if issubclass(et, Skip):
            c.undec(self.rule, "", str(ex))
            return True
        if issubclass(et, (Unsupported, RecursionError, Dead)):
            c.undec(self.rule, "", "%s: %s" % (et.__name__, ex))
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        # an internal failure of the analyser decides nothing
        last = traceback.extract_tb(tb)[-1]
        c.undec(self.rule, "", "analyser %s: %s (%s:%s)" % (
            et.__name__, ex, os.path.basename(last.filename), last.lineno))
        c.errors.append("".join(traceback.format_exception(et, ex, tb)))
        return True


class S:
    """State of one scenario with Python-friendly accessors."""

    def __init__(self, ctx, st=None):
        self.ctx, self.eng = ctx, ctx.eng
        self.st = st if st is not None else ctx.eng.new_state()
        self.rule = "total"
        self.raised = []

    def fork(self):
        s = S(self.ctx, self.st.fork())
        s.rule, s.sizes = self.rule, self.sizes
        return s

    # ------------------------------------------------------------ values
    def val(self, x):
        if isinstance(x, (Val, T)):
            return x
        if isinstance(x, list):
            return self.eng.alloc(self.st, Lst([self.val(i) for i in x]))
        if isinstance(x, tuple):
            return Tup([self.val(i) for i in x])
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                kv = const(k)
                d[("str" if isinstance(k, str) else "k", k)] = (
                    kv, self.val(v))
            return self.eng.alloc(self.st, Dct(d))
        return const(x)

    sizes = {}

    def dim(self, n):
        if n in self.sizes:
            return const(self.sizes[n])
        return sym(n, "dim", ())

    def dims(self, names):
        return [self.dim(n) for n in names.split()]

    def shp(self, shape):
        return tuple(const(d) if isinstance(d, int) else d for d in shape)

    def arr(self, name, *shape):
        return self.eng.alloc(self.st, Arr(sym(name, "arr",
                                               self.shp(shape))))

    def iarr(self, name, *shape):
        """An array of integers."""
        return self.eng.alloc(self.st, Arr(sym("int:" + name, "arr",
                                               self.shp(shape)), dtype="int"))

    def new_dia(self, name, n, offsets=(0,)):
        """a diagonal (or banded) scipy.sparse array"""
        n = self.dim(n)
        rows = [self.arr(name + "ujk"[i] * bool(i), n)
                for i in range(len(offsets))]
        return self.eng.call(Ext("sparse.dia_array"), [
            Tup([self.val(rows), self.val(list(offsets))])],
            {"shape": Tup([n, n])}, self.st)

    def arrt(self, t):
        return self.eng.alloc(self.st, Arr(t))

    def flt(self, n):
        return sym(n, "float", ())

    def int(self, n):
        return sym(n, "int", ())

    def bool(self, n):
        return sym(n, "bool", ())

    def fn(self, n):
        return sym(n, "fn")

    def opq(self, name, isa=(), attrs=None, pure=None):
        return self.eng.alloc(self.st, Opq(
            sym(name, "obj"), tuple(self.cls(c) if isinstance(c, str) else c
                                    for c in isa),
            {k: self.val(v) for k, v in (attrs or {}).items()}, pure))

    def cls(self, dotted):
        if not dotted.startswith("opinf"):
            dotted = "opinf." + dotted
        return self.eng.lookup(dotted)

    def term(self, v):
        return self.eng.term(self.st, v)

    # ------------------------------------------------------------ calls
    def _done(self, o, what, where):
        self.raised = o.raises
        if o.dead:
            ex = sorted({"%s at %s:%s" % (r.cname(), r.site[0], r.site[2])
                         for r in o.raises})
            unc = [r for r in o.raises if r.cname() in ("?", "AnyException")]
            hard = ex if o.raises and not unc else None
            raise Fail("%s never returns normally: %s" % (
                what, "; ".join(ex) or "no path"), where, hard)
        return o.value

    done = _done

    def run(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.cls(f)
        a = [self.val(x) for x in args]
        k = {n: self.val(x) for n, x in kw.items()}
        return self.eng.run(self.st, f, a, k)

    def new(self, f, *args, **kw):
        o = self.run(f, *args, **kw)
        return self._done(o, "%s()" % (f if isinstance(f, str) else "call"),
                          self.ctx.locate(self.cls(f) if isinstance(f, str)
                                          else f))

    call_fn = new

    def outcome(self, obj, name, *args, **kw):
        a = [self.val(x) for x in args]
        k = {n: self.val(x) for n, x in kw.items()}
        return self.eng.meth(self.st, obj, name, a, k)

    def clsof(self, obj):
        if isinstance(obj, Phi):
            return self.clsof(obj.a)
        if isinstance(obj, Ref):
            o = self.st.get(obj)
            if isinstance(o, Inst):
                return o.cls
        return None

    def where(self, obj, name):
        c = self.clsof(obj)
        return self.ctx.locate(c, name) if c is not None else name

    def call(self, obj, name, *args, **kw):
        o = self.outcome(obj, name, *args, **kw)
        return self._done(o, "%s()" % name, self.where(obj, name))

    def get(self, obj, name):
        o = self.eng.get(self.st, obj, name)
        return self._done(o, "." + name, self.where(obj, name))

    def tget(self, obj, name):
        return self.term(self.get(obj, name))

    def set(self, obj, name, v):
        o = self.eng.set(self.st, obj, name, self.val(v))
        return self._done(o, "." + name + " =", self.where(obj, name))

    def tcall(self, obj, name, *a, **k):
        return self.term(self.call(obj, name, *a, **k))

    def item(self, obj, i):
        """obj[i]"""
        o = self.run(PyFn("item", lambda e, st, a, k: e.subscript(
            st, a[0], a[1])), obj, i)
        return self._done(o, "[%s]" % i, "")

    def has(self, obj, name):
        return self.eng.hasattr(self.st, obj, name) is TRUE

    def len(self, obj):
        return self.term(self._done(self.run(Ext("builtins.len"), obj),
                                    "len()", ""))

    def same(self, rule, where, got, want, **kw):
        if not isinstance(got, T):
            got = self.term(got)
        if not isinstance(want, T):
            want = self.term(want)
        return self.ctx.same(rule, where, got, want, st=self.st, **kw)

    def never_raises(self, rule, where, raises, what, allow=(), pc=(),
                     about=None):
        """Obligation: no path of the analysed call whose conditions are all
        in the modelled vocabulary ends in an exception."""
        for r in raises:
            n = r.cname()
            if n in ("?", "AnyException") or isa_exc(r, allow):
                continue
            cs = [c for c in r.st.pc if c not in pc]
            if about is not None and not any(
                    x.op in about for c, _ in cs for x in tm.subterms(c)):
                continue
            if any(c.opaque for c, _ in cs):
                self.ctx.undec(rule, where, "%s may raise %s at %s:%s" % (
                    what, n, r.site[0], r.site[2]))
                return
            self.ctx.bad(rule, where, "%s raises %s (at %s:%s)%s" % (
                what, n, r.site[0], r.site[2], " when " + " and ".join(
                    ("" if v else "not ") + short(c) for c, v in cs)
                if cs else ""))
            return
        self.ctx.ok(rule, where)

    def must_raise(self, rule, where, o, excs, what):
        """Obligation: the analysed call raises on every path, with one of
        the given exception classes."""
        if o.dead:
            names = {r.cname() for r in o.raises}
            wrong = [r for r in o.raises if not isa_exc(r, excs)]
            if wrong and "?" not in names:
                r = wrong[0]
                self.ctx.bad(rule, where, "%s raises %s (at %s:%s) instead of"
                             " %s" % (what, r.cname(), r.site[0], r.site[2],
                                      "/".join(excs)))
                return False
            self.ctx.ok(rule, where)
            return True
        self.ctx.bad(rule, where, "%s returns %s instead of raising %s" % (
            what, short(self.term(o.value)), "/".join(excs)))
        return False


def isa_exc(r, excs):
    c = r.exc
    if not isinstance(c, Ref):
        return False
    o = r.st.get(c)
    if not isinstance(o, Inst):
        return False
    names = [x.name for x in o.cls.mro]
    return any(e in names for e in excs)


def main(argv):
    import importlib
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    pid = argv[1]
    if pid == "--selftest":
        return selftest()
    tier = "thorough" if "--thorough" in argv else os.environ.get(
        "VERIF_TIER", "quick")
    verbose = "-v" in argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out, holder = [], []

    def go():
        try:
            ctx = Ctx(pid, tier, seed)
            mod = importlib.import_module("sa.props." + pid.lower())
            holder.append(ctx)
            try:
                mod.check(ctx)
            except Budget:
                ctx.undec("total", "", "stopped: out of time")
            ctx.deadline = None
            if verbose:
                for u in ctx.undecided:
                    print("  undecided:", *u)
                for e in ctx.errors[:8]:
                    print(e)
            out.append(ctx.finish())
        except BaseException:
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=go)
    t.start()
    watch(t, holder)
    return out[0] if out else 3


def selftest():
    """The analyser runs on this interpreter and parses the sources."""
    ctx = Ctx("selftest")
    s = S(ctx)
    o = s.new("pre.ShiftTransformer", s.arr("ref", s.dim("n")))
    t = s.tcall(o, "transform", s.arr("X", s.dim("n"), s.dim("k")))
    print("analysed %d functions: transform(X) = %s" % (
        len(ctx.eng.sites), short(t)))
    return 0
