"""Training depends on the latest data only; the combined operation equals
the two separate ones."""
from .common import (transformers, composites, bases, basis_composites,
                     solvers, equiv, Fail)


def total(s, fam):
    return fam.tot(s) if hasattr(fam, "tot") else s.dim("n")


def check(ctx):
    R = "refit-forgets"
    for fam in transformers(ctx, deep=ctx.thorough) + composites(ctx):
        one = fam.label.startswith("Scale(one row)")

        def D(s, tag, k, n=None, fam=fam, one=one):
            return s.arr(tag, 1 if one else (total(s, fam) if n is None else n), s.dim(k))
        for meth in ("fit", "fit_transform"):
            with ctx.case("%s, %s twice" % (fam.label, meth), R) as s:
                a, b = fam.build(s), fam.build(s)
                s.call(a, meth, D(s, "Xb", "kb"))
                s.call(a, meth, D(s, "X", "k0"))
                s.call(b, meth, D(s, "X", "k0"))
                equiv(s, R, fam.where(ctx, meth), b, a, fam.probes,
                      ("fresh", "refitted"))
        with ctx.case("%s, another dimension first" % fam.label, R) as s:
            a, b = fam.build(s), fam.build(s)
            if hasattr(fam, "ready") or "rows" in str(getattr(
                    fam, "combo", "")) or "shift" in str(getattr(
                    fam, "combo", "")) or hasattr(fam, "sizes"):
                pass      # dimensions fixed at construction
            else:
                s.call(a, "fit_transform", D(s, "Xb", "kb", s.dim("nb")))
                s.call(a, "fit_transform", D(s, "X", "k0"))
                s.call(b, "fit_transform", D(s, "X", "k0"))
                equiv(s, R, fam.where(ctx, "fit_transform"), b, a,
                      fam.probes, ("fresh", "refitted"))
        Rf = "fit-transform-is-fit-then-transform"
        for inp in (False, True):
            with ctx.case("%s, inplace=%s" % (fam.label, inp), Rf) as s:
                a, b = fam.build(s), fam.build(s)
                y1 = s.call(a, "fit_transform", D(s, "X", "k0"), inplace=inp)
                s.call(b, "fit", D(s, "X", "k0"))
                y2 = s.call(b, "transform", D(s, "X", "k0"))
                s.same(Rf, fam.where(ctx, "fit_transform"), y1, y2,
                       note="returned values")
                equiv(s, Rf, fam.where(ctx, "fit_transform"), b, a,
                      fam.probes, ("fit", "fit_transform"))
    for fam in bases(ctx) + basis_composites(ctx):
        if fam.fit is None:
            continue
        with ctx.case("%s, fit twice" % fam.label, R) as s:
            a, b = fam.build(s), fam.build(s)
            s.call(a, "fit", s.arr("Xb", total(s, fam), s.dim("kb")))
            fam.fit(s, a)
            fam.fit(s, b)
            equiv(s, R, fam.where(ctx, "fit"), b, a, fam.probes,
                  ("fresh", "refitted"))
        if fam.cls == "basis.BasisMulti":
            continue      # offers no combined operation
        Rf = "fit-compress-is-fit-then-compress"
        with ctx.case(fam.label, Rf) as s:
            a, b = fam.build(s), fam.build(s)
            X = lambda: s.arr("X", total(s, fam), s.dim("k0"))
            y1 = s.call(a, "fit_compress", X())
            s.call(b, "fit", X())
            y2 = s.call(b, "compress", X())
            w = fam.where(ctx, "fit_compress")
            s.same(Rf, w, y1, y2, note="returned values")
            equiv(s, Rf, w, b, a, fam.probes, ("fit", "fit_compress"))
    for fam in solvers(ctx):
        with ctx.case("%s, fit twice" % fam.label, R) as s:
            a, b = fam.build(s), fam.build(s)
            fam.fit(s, a, "b")
            fam.fit(s, a)
            fam.fit(s, b)
            equiv(s, R, fam.where(ctx, "fit"), b, a, fam.probes,
                  ("fresh", "refitted"))
        with ctx.case("%s, another size first" % fam.label, R) as s:
            a, b = fam.build(s), fam.build(s)
            kb, db = s.dims("kb db")
            sized = hasattr(fam, "noreg") or not any(
                w in fam.cls for w in ("Tikhonov",))
            rb = 2 if "Decoupled" in fam.cls else s.dim("rb")
            s.call(a, "fit", s.arr("Db", kb, db if sized else s.dim("d")),
                   s.arr("Zb", rb, kb))
            fam.fit(s, a)
            fam.fit(s, b)
            equiv(s, R, fam.where(ctx, "fit"), b, a, fam.probes,
                  ("fresh", "refitted"))
