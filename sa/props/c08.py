"""Inverse transforms undo transforms; derivatives use the linear part;
composites apply their parts in order and block by block."""
from .common import (transformers, composites, sub_builders, mk_locs, tm,
                     NONE)
from ..terms import const

SHAPES = ("snapshots", "one snapshot")


def data(s, name, n, shape):
    return s.arr(name, n, s.dim("k")) if shape == "snapshots" \
        else s.arr(name, n)


def dimof(fam, s):
    if hasattr(fam, "tot"):
        return fam.tot(s)
    if fam.label.startswith("Scale(one row)"):
        return const(1)
    return s.dim("n")


def trained(s, fam, twice=False):
    o = fam.build(s)
    fam.fit(s, o)
    if twice:
        fam.fit(s, o, "Xb")
    return o


def rows(s, t, locs):
    return tm.getitem(t, (("a", locs),))


def locs_ok(fam):
    return not hasattr(fam, "sizes") or len(set(fam.sizes)) == 1


def check(ctx):
    fams = transformers(ctx, deep=ctx.thorough) + composites(ctx)
    for fam in fams:
        R = "inverse-undoes-transform"
        wi = fam.where(ctx, "inverse_transform")
        for shape in SHAPES:
            with ctx.case("%s, %s" % (fam.label, shape), R) as s:
                o = trained(s, fam)
                n = dimof(fam, s)
                x = data(s, "P", n, shape)
                y = s.call(o, "transform", x)
                z = s.call(o, "inverse_transform", y)
                s.same(R, wi, z, data(s, "P", n, shape))
        # forward after backward, as predictions use it
        with ctx.case("%s, transform(inverse)" % fam.label, R) as s:
            o = trained(s, fam)
            n = dimof(fam, s)
            y = s.call(o, "inverse_transform", data(s, "P", n, "snapshots"))
            z = s.call(o, "transform", y)
            s.same(R, fam.where(ctx, "transform"), z,
                   data(s, "P", n, "snapshots"))
        # the training data themselves, through fit_transform
        with ctx.case("%s, inverse(fit_transform)" % fam.label, R) as s:
            o = fam.build(s)
            y = fam.fit(s, o)
            z = s.call(o, "inverse_transform", y)
            s.same(R, wi, z, s.arr("X", dimof(fam, s), s.dim("k0")))
        if locs_ok(fam):
            R = "inverse-at-locations"
            for shape in SHAPES:
                with ctx.case("%s, %s" % (fam.label, shape), R) as s:
                    o = trained(s, fam)
                    n = dimof(fam, s)
                    locs = mk_locs("locs", "p")
                    p = s.dim("p")
                    m = len(fam.sizes) if hasattr(fam, "sizes") else 1
                    tot = tm.mul(const(m), p)
                    L = s.arr("L", tot, s.dim("k")) if shape == "snapshots" \
                        else s.arr("L", tot)
                    got = s.call(o, "inverse_transform", L,
                                 locs=s.arrt(locs))
                    # embed the rows in a full snapshot matrix: inverse of
                    # an array whose rows at the locations are these
                    full = data(s, "P", n, shape)
                    yfull = s.tcall(o, "transform", full)
                    sub = select(s, yfull, fam, locs)
                    g2 = s.call(o, "inverse_transform", s.arrt(sub),
                                locs=s.arrt(locs))
                    s.same(R, wi, g2, select(s, s.term(data(
                        s, "P", n, shape)), fam, locs))
        R = "derivatives-use-linear-part"
        wd = fam.where(ctx, "transform_ddts")
        for shape in SHAPES:
            with ctx.case("%s, %s" % (fam.label, shape), R) as s:
                o = trained(s, fam)
                n = dimof(fam, s)
                x = s.term(data(s, "P", n, shape))
                d = s.term(data(s, "D", n, shape))
                f1 = s.tcall(o, "transform", s.arrt(tm.add(x, d)))
                f0 = s.tcall(o, "transform", s.arrt(x))
                g = s.tcall(o, "transform_ddts", s.arrt(d))
                s.same(R, wd, g, tm.sub(f1, f0))
    parts(ctx)


def select(s, t, fam, locs):
    if not hasattr(fam, "sizes"):
        return rows(s, t, locs)
    out, lo = [], const(0)
    for z in fam.sizes:
        hi = tm.add(lo, s.dim(z))
        blk = tm.getitem(t, (("s", lo, hi, None),))
        out.append(rows(s, blk, locs))
        lo = hi
    return tm.concat(out, 0)


def parts(ctx):
    """composites against their stages trained separately"""
    B = dict((b[0], b) for b in sub_builders())
    for fam in composites(ctx):
        pipe = not hasattr(fam, "sizes")
        R = "stages-in-order" if pipe else "stages-by-block"
        with ctx.case(fam.label, R) as s:
            o = fam.build(s)
            got = {"fit_transform": s.term(fam.fit(s, o))}
            n = dimof(fam, s)
            k, k0 = s.dim("k"), s.dim("k0")
            for m, nm in (("transform", "P"), ("inverse_transform", "P"),
                          ("transform_ddts", "D")):
                got[m] = s.tcall(o, m, s.arr(nm, n, k))
            X, P, D = (s.term(s.arr(*a)) for a in (
                ("X", n, k0), ("P", n, k), ("D", n, k)))
            want = {}
            if pipe:
                st = [B[c][2](s, n, i) for i, c in enumerate(fam.combo)]
                y = X
                for q in st:
                    y = s.tcall(q, "fit_transform", s.arrt(y))
                want["fit_transform"] = y
                for m, v, seq in (("transform", P, st),
                                  ("inverse_transform", P, st[::-1]),
                                  ("transform_ddts", D, st)):
                    for q in seq:
                        v = s.tcall(q, m, s.arrt(v))
                    want[m] = v
            else:
                st = [B[c or "null"][2](s, s.dim(z), i) for i, (c, z) in
                      enumerate(zip(fam.combo, fam.sizes))]

                def blocks(v):
                    out, lo = [], const(0)
                    for z in fam.sizes:
                        hi = tm.add(lo, s.dim(z))
                        out.append(tm.getitem(v, (("s", lo, hi, None),)))
                        lo = hi
                    return out
                for m, v in (("fit_transform", X), ("transform", P),
                             ("inverse_transform", P),
                             ("transform_ddts", D)):
                    want[m] = tm.concat([
                        s.tcall(q, m, s.arrt(b))
                        for q, b in zip(st, blocks(v))], 0)
            for m in got:
                s.same(R, fam.where(ctx, m), got[m], want[m], note=m)
