"""Saving never clobbers a file, and every file the library opens is closed.

Typestate of file handles on the abstract heap: open/closed per file and per
state, on every normal and exceptional exit, where every access to the file
may fail."""
from . import models
from .common import (transformers, composites, bases, basis_composites,
                     solvers, load_any, const)
from .c04 import nonparam_fams, param_op_fams
from ..values import Ext
from .. import extern


class Posterior:
    cls = "roms.OperatorPosterior"
    label = "OperatorPosterior"
    load = None
    fit = None

    @staticmethod
    def build(s):
        return s.new("roms.OperatorPosterior",
                     [s.arr("mu%d" % i, s.dim("d")) for i in (0, 1)],
                     [s.arr("P%d" % i, s.dim("d"), s.dim("d"))
                      for i in (0, 1)])

    @staticmethod
    def where(ctx, name):
        return ctx.locate("opinf.roms.OperatorPosterior", name)


def every(ctx):
    for fam in (transformers(ctx) + composites(ctx) + bases(ctx) +
                basis_composites(ctx)):
        yield fam, True
    for fam in solvers(ctx):
        yield fam, False
        yield fam, True
    for fam in nonparam_fams(ctx) + param_op_fams(ctx):
        yield fam, False
    for fam in models.mono_fams(ctx) + models.param_fams(
            ctx, interp_only=True):
        yield fam, False
    yield Posterior, False


def ends(s, o):
    """(state, what) for every way out of a call"""
    out = [] if o.dead else [(s.st, "returning")]
    return out + [(r.st, "raising %s at %s:%s" % (
        r.cname(), r.site[0], r.site[2])) for r in o.raises]


def same_dump(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_dump(x, y)
                                        for x, y in zip(a, b))
    return a is b or isinstance(a, str) and a == b


def contents(eng, st, name):
    for t, r, _ in extern.open_files(eng, st):
        if t is const(name):
            return extern.h5_dump(eng, st, r)


def closed(ctx, s, R, w, o, but=()):
    """no file is left open by the call"""
    n = 0
    for st, what in ends(s, o):
        n += 1
        left = [t for t, r, op in extern.open_files(ctx.eng, st)
                if op is not False and r not in but]
        if left:
            ctx.bad(R, w, "%s: the file stays open" % what)
            return
    if n:
        ctx.ok(R, w, "%d ways out" % n)


def kept_open(ctx, s, R, w, o, h):
    n = 0
    for st, what in ends(s, o):
        n += 1
        if st.get(h).open is False:
            ctx.bad(R, w, "%s: the handle given by the caller is closed"
                    % what)
            return
    if n:
        ctx.ok(R, w, "%d ways out" % n)


def check(ctx):
    eng = ctx.eng
    for fam, fit in every(ctx):
        if fit and fam.fit is None:
            continue

        def make(s):
            o = fam.build(s)
            if fit:
                fam.fit(s, o)
            return o
        lab = fam.label + (", trained" if fit else "")
        ws, wl = fam.where(ctx, "save"), fam.where(ctx, "load")
        R = "existing-file-kept"
        with ctx.case(lab + ", overwrite=False", R) as s:
            o = make(s)
            other(s, "f.h5")
            before = contents(eng, s.st, "f.h5")
            calls = [dict(overwrite=False)]
            if fam is not Posterior:
                calls.append({})
            for kw in calls:
                s2 = s.fork()
                out = s2.outcome(o, "save", "f.h5", **kw)
                s2.must_raise(R, ws, out, ("FileExistsError",),
                              "saving over an existing file")
                for st, what in ends(s2, out):
                    now = contents(eng, st, "f.h5")
                    if not same_dump(before, now):
                        ctx.bad(R, ws, "%s: the existing file is changed"
                                % what)
                    else:
                        ctx.ok(R, ws)
                closed(ctx, s2, "files-closed", ws, out)
        R = "existing-file-replaced"
        with ctx.case(lab + ", overwrite=True", R) as s:
            o = make(s)
            other(s, "f.h5")
            s.call(o, "save", "f.h5", overwrite=True)
            s.call(o, "save", "g.h5")
            if same_dump(contents(eng, s.st, "f.h5"),
                         contents(eng, s.st, "g.h5")):
                ctx.ok(R, ws)
            else:
                ctx.bad(R, ws, "what is written differs from what is "
                        "written to a new file")
        for ex in EXCS:
            faulty(ctx, fam, make, lab, ws, wl, ex)


# any exception of class Exception, a particular one, one that is not
EXCS = ("AnyException", "KeyError", "KeyboardInterrupt")


def faulty(ctx, fam, make, lab, ws, wl, ex):
    eng = ctx.eng
    lab += " interrupted by %s" % ex
    R = "files-closed"
    with ctx.case(lab + ", save and load", R) as s:
        o = make(s)
        s2 = s.fork()
        eng.h5_faults = ex
        out = s2.outcome(o, "save", "f.h5", overwrite=True)
        eng.h5_faults = False
        closed(ctx, s2, R, ws, out)
        s.call(o, "save", "f.h5")
        before = contents(eng, s.st, "f.h5")
        eng.h5_faults = ex
        load_any(s, fam)
        eng.h5_faults = False
        out = Ways(s)
        closed(ctx, s, R, wl, out)
        for st, what in ends(s, out):
            if not same_dump(before, contents(eng, st, "f.h5")):
                ctx.bad(R, wl, "%s: loading changes the file" % what)
                break
    R = "handle-kept-open"
    with ctx.case(lab + ", handle of the caller", R) as s:
        o = make(s)
        h = s.run(Ext("h5py.File"), "f.h5", "w").value
        s2 = s.fork()
        eng.h5_faults = ex
        out = s2.outcome(o, "save", h)
        eng.h5_faults = False
        kept_open(ctx, s2, R, ws, out, h)
        closed(ctx, s2, "files-closed", ws, out, (h,))
        s.call(o, "save", h)
        eng.h5_faults = ex
        load_any(s, fam, h)
        eng.h5_faults = False
        out = Ways(s)
        kept_open(ctx, s, R, wl, out, h)
        closed(ctx, s, "files-closed", wl, out, (h,))


class Ways:
    """the ways out of the latest call of s"""
    dead = False

    def __init__(self, s):
        self.raises = s.raised


def other(s, name):
    """an unrelated file of that name"""
    h = s.run(Ext("h5py.File"), name, "w").value
    s.call(h, "create_dataset", "unrelated", data=s.arr("junk", 3))
    s.call(h, "close")
