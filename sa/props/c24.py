"""Process-wide state is restored on every exit.

Two analyses.  (1) Effects: over the syntax trees of all modules, every call
or assignment that changes process-wide state (resolved through the imports)
must be undone where it is made: inside a context manager or a try/finally
that restores it, or in a function only ever called there.  (2) Typestate:
TimedBlock, whose purpose is such a change, is interpreted on a model of the
process (standard output, signal handler, alarm) for every option and every
way of leaving the block."""
import ast
import os
from .common import const, NONE
from ..values import Ref, Ext, Tup
from ..terms import sym, opaque, ZERO
from .. import extern

R1 = "no-lasting-effect"
R2 = "state-restored"

# canonical name -> what it changes
CALLS = {
    "numpy.seterr": "floating-point error handling",
    "numpy.seterrcall": "floating-point error handling",
    "numpy.setbufsize": "floating-point error handling",
    "numpy.set_printoptions": "print options",
    "numpy.random.seed": "the random seed",
    "numpy.random.set_state": "the random seed",
    "random.seed": "the random seed", "random.setstate": "the random seed",
    "scipy.special.seterr": "floating-point error handling",
    "warnings.filterwarnings": "warning filters",
    "warnings.simplefilter": "warning filters",
    "warnings.resetwarnings": "warning filters",
    "os.chdir": "the working directory", "os.umask": "the umask",
    "os.putenv": "the environment", "os.unsetenv": "the environment",
    "os.environ.update": "the environment",
    "os.environ.setdefault": "the environment",
    "os.environ.pop": "the environment",
    "os.environ.clear": "the environment",
    "sys.setrecursionlimit": "the recursion limit",
    "sys.settrace": "tracing", "sys.setswitchinterval": "scheduling",
    "sys.path.append": "the module path", "sys.path.insert":
        "the module path",
    "signal.signal": "signal handlers", "signal.alarm": "the alarm",
    "signal.setitimer": "the alarm",
    "logging.basicConfig": "logging", "logging.disable": "logging",
    "logging.captureWarnings": "logging",
    "locale.setlocale": "the locale", "gc.disable": "garbage collection",
    "gc.enable": "garbage collection",
    "matplotlib.pyplot.rc": "matplotlib settings",
    "matplotlib.rc": "matplotlib settings",
    "matplotlib.use": "matplotlib settings",
    "matplotlib.pyplot.rcParams.update": "matplotlib settings",
    "matplotlib.rcParams.update": "matplotlib settings",
    "matplotlib.pyplot.style.use": "matplotlib settings",
    "faulthandler.enable": "fault handling", "atexit.register":
        "exit handlers", "socket.setdefaulttimeout": "sockets",
    "decimal.setcontext": "decimal arithmetic",
}
STORES = {
    "sys.stdout": "standard output", "sys.stderr": "standard error",
    "sys.stdin": "standard input", "sys.excepthook": "exception handling",
    "sys.displayhook": "output", "warnings.showwarning": "warning display",
    "warnings.formatwarning": "warning display",
    "warnings.filters": "warning filters",
    "os.environ": "the environment", "numpy.random": "the random state",
    "matplotlib.pyplot.rcParams": "matplotlib settings",
    "matplotlib.rcParams": "matplotlib settings",
}
# context managers that put back what is changed inside them
SCOPES = {
    "warnings.catch_warnings": ("warning",),
    "numpy.errstate": ("floating-point",),
    "scipy.special.errstate": ("floating-point",),
    "numpy.printoptions": ("print options",),
    "contextlib.redirect_stdout": ("standard output",),
    "contextlib.redirect_stderr": ("standard error",),
    "matplotlib.pyplot.rc_context": ("matplotlib",),
    "matplotlib.rc_context": ("matplotlib",),
}
# whose documented purpose is the change; (2) decides the first
PURPOSE = {
    os.path.join("utils", "_timer.py"): (
        "standard output", "signal handlers", "the alarm", "logging"),
    os.path.join("utils", "_mpl_config.py"): ("matplotlib settings",),
}


class Module:
    def __init__(self, path, rel, tree):
        self.path, self.rel, self.tree = path, rel, tree
        self.alias = {}
        self.parent = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        top = a.name.split(".")[0]
                        self.alias[top] = top
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    self.alias[a.asname or a.name] = "%s.%s" % (
                        n.module, a.name)

    def name(self, e):
        """canonical dotted name of an expression, or None"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name) or e.id not in self.alias:
            return None
        return ".".join([self.alias[e.id]] + parts[::-1])

    def up(self, n):
        while n in self.parent:
            c, n = n, self.parent[n]
            yield c, n

    def function(self, n):
        for _, p in self.up(n):
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return p
        return None


def effects(m):
    """(node, what it changes)"""
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            what = CALLS.get(m.name(n.func))
            if what:
                yield n, what
        targets = []
        if isinstance(n, ast.Assign):
            targets = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target]
        elif isinstance(n, ast.Delete):
            targets = n.targets
        while targets:
            t = targets.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                targets += t.elts
                continue
            if isinstance(t, ast.Subscript):
                t = t.value
            what = STORES.get(m.name(t)) if isinstance(
                t, ast.Attribute) else None
            if what:
                yield n, what


def scoped(m, n, what):
    """is the effect undone by an enclosing construct of its function?"""
    fn = m.function(n)
    for c, p in m.up(n):
        if p is fn:
            break
        if isinstance(p, (ast.With, ast.AsyncWith)) and c in p.body:
            for it in p.items:
                if isinstance(it.context_expr, ast.Call):
                    s = SCOPES.get(m.name(it.context_expr.func), ())
                    if any(what.startswith(x) for x in s):
                        return True
        if isinstance(p, ast.Try) and p.finalbody and any(
                w == what for x in p.finalbody for q in ast.walk(x)
                for k, w in EFFECTS[m.path] if k is q):
            return True
    # `old = set(...)` directly before the try that puts it back
    for c, p in m.up(n):
        body = next((b for b in (getattr(p, f, None) for f in (
            "body", "orelse", "finalbody")) if isinstance(b, list)
            and c in b), None)
        if body is not None:
            rest = body[body.index(c) + 1:]
            return bool(rest) and isinstance(rest[0], ast.Try) and any(
                w == what for x in rest[0].finalbody for q in ast.walk(x)
                for k, w in EFFECTS[m.path] if k is q)
    return False


EFFECTS = {}


def calls_of(mods, fn):
    """every use of a function's name: (module, node, is it a call)"""
    for m in mods:
        for n in ast.walk(m.tree):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(
                n, ast.Attribute) else None
            if nm == fn.name and isinstance(n.ctx, ast.Load):
                p = m.parent.get(n)
                yield m, p if isinstance(p, ast.Call) and p.func is n \
                    else n, isinstance(p, ast.Call) and p.func is n


def undone(mods, m, n, what, depth=0):
    if scoped(m, n, what):
        return True
    fn = m.function(n)
    if fn is None or depth > 4 or not fn.name.startswith("_") or \
            fn.name.startswith("__"):
        return False
    uses = list(calls_of(mods, fn))
    return bool(uses) and all(
        call and undone(mods, m2, k, what, depth + 1)
        for m2, k, call in uses)


def check(ctx):
    static(ctx)
    timed(ctx)


def static(ctx):
    root = os.path.join(ctx.eng.src, "opinf")
    mods = []
    for d, ds, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p) as fh:
                    mods.append(Module(p, os.path.relpath(p, root),
                                       ast.parse(fh.read())))
    EFFECTS.clear()
    for m in mods:
        EFFECTS[m.path] = list(effects(m))
    for m in mods:
        with ctx.case("module %s" % m.rel, R1):
            nf = sum(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))
                     for n in ast.walk(m.tree))
            good = True
            for n, what in EFFECTS[m.path]:
                fn = m.function(n)
                if fn is not None and any(
                        what == w for w in PURPOSE.get(m.rel, ())):
                    continue
                w = "src/opinf/%s:%d (%s)" % (
                    m.rel, n.lineno, fn.name if fn else "at import")
                if undone(mods, m, n, what):
                    ctx.ok(R1, w)
                    continue
                good = False
                ctx.bad(R1, w, "changes %s and does not put it back on "
                        "every exit" % what)
            if good:
                ctx.ok(R1, "src/opinf/" + m.rel, "%d functions" % nf)


CELLS = (("sys.stdout", "standard output"),
         ("SIGALRM handler", "the signal handler"), ("alarm", "the alarm"))


def state_of(eng, st):
    return {k: extern.getglobal(eng, st, k) for k, _ in CELLS}


def compare(ctx, w, before, ways, note):
    """every way out leaves the process as it was"""
    for st, what in ways:
        now = state_of(ctx.eng, st)
        for k, nm in CELLS:
            a, b = ctx.eng.phival(st, before[k]), ctx.eng.phival(st, now[k])
            if a is b or same_obj(a, b):
                ctx.ok(R2, w)
            else:
                ctx.bad(R2, w, "%s, %s: %s is not restored" % (
                    note, what, nm))


def same_obj(a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    return False


ENDS = (("normally", None), ("with a ValueError", "ValueError"),
        ("with a TimeoutError", "TimeoutError"),
        ("with an interrupt", "KeyboardInterrupt"))


def timed(ctx):
    eng = ctx.eng
    C = eng.lookup("opinf.utils.TimedBlock")
    for rebuffer in (False, True):
        for verbose in (True, False):
            for limit in (None, 5, "symbolic"):
                for moved in (False, True):
                    for end, exc in ENDS:
                        lab = ("TimedBlock(timelimit=%s), rebuffer=%s, "
                               "verbose=%s%s, left %s" % (
                                   limit, rebuffer, verbose,
                                   ", output redirected after construction"
                                   if moved else "", end))
                        with ctx.case(lab, R2) as s:
                            one(ctx, s, C, rebuffer, verbose, limit, moved,
                                exc)
    # a signal handler cannot be installed outside the main thread
    for rebuffer in (False, True):
        with ctx.case("TimedBlock(timelimit=5), rebuffer=%s, outside the "
                      "main thread" % rebuffer, R2) as s:
            tb = block(s, rebuffer, True, 5)
            extern.setglobal(eng, s.st, "alarm", ZERO)
            before = state_of(eng, s.st)
            eng.no_signals = True
            try:
                out = s.outcome(tb, "__enter__")
            finally:
                eng.no_signals = False
            compare(ctx, ctx.locate(C, "__enter__"), before,
                    [(r.st, "raising " + r.cname()) for r in out.raises],
                    "entering")


def block(s, rebuffer, verbose, limit):
    a = {"None": NONE, "5": const(5)}.get(str(limit))
    tb = s.new("utils.TimedBlock", "message",
               timelimit=s.int("limit") if a is None else a)
    s.set(tb, "rebuffer", const(rebuffer))
    s.set(tb, "verbose", const(verbose))
    return tb


def one(ctx, s, C, rebuffer, verbose, limit, moved, exc):
    eng = ctx.eng
    tb = block(s, rebuffer, verbose, limit)
    if moved:
        extern.setglobal(eng, s.st, "sys.stdout", sym("redirected", "obj"))
    extern.setglobal(eng, s.st, "alarm", ZERO)
    before = state_of(eng, s.st)
    for again in ("", "used again, "):
        out = s.outcome(tb, "__enter__")
        compare(ctx, ctx.locate(C, "__enter__"), before,
                [(r.st, "raising " + r.cname()) for r in out.raises],
                "entering")
        s.done(out, "__enter__()", ctx.locate(C, "__enter__"))
        if exc is None:
            args = [NONE, NONE, NONE]
            out = s.outcome(tb, "__exit__", *args)
        else:
            c = eng.exc_class(exc)
            e = eng.make_exc(s.st, c, [const("stopped")])
            eng.excstack.append(e)
            try:
                out = eng.meth(s.st, tb, "__exit__",
                               [c, e, opaque("tb", kind="obj")])
            finally:
                eng.excstack.pop()
        ways = [(r.st, "raising " + r.cname()) for r in out.raises]
        if not out.dead:
            ways.append((s.st, "returning"))
        compare(ctx, ctx.locate(C, "__exit__"), before, ways,
                again + "leaving")
        if exc is not None or out.dead:
            return
