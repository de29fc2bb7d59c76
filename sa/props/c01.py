"""Saved transformers come back with the same behaviour."""
from .common import transformers, composites, load_any, equiv


def check(ctx):
    fams = transformers(ctx) + composites(ctx, many=True)
    for fam in fams:
        for trained in (False, True):
            lab = "%s, %s" % (fam.label, "trained" if trained
                              else "not trained")
            with ctx.case(lab, "save-load-behaviour") as s:
                o = fam.build(s)
                if trained:
                    fam.fit(s, o)
                s.call(o, "save", "f.h5")
                b = load_any(s, fam)
                equiv(s, "save-load-behaviour", fam.where(ctx, "load"),
                      o, b, fam.probes)
