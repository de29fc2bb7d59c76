"""Saved solvers and posteriors come back with the same behaviour."""
from .common import solvers, load_any, equiv, attrs


def check(ctx):
    R = "save-load-behaviour"
    for fam in solvers(ctx):
        for h in ("not trained", "trained", "trained twice"):
            with ctx.case("%s, %s" % (fam.label, h), R) as s:
                o = fam.build(s)
                if h != "not trained":
                    fam.fit(s, o)
                if h == "trained twice":
                    fam.fit(s, o, "b")
                s.call(o, "save", "f.h5")
                b = load_any(s, fam)
                probes = fam.probes
                if h == "not trained":
                    probes = [p for p in probes if p[0].startswith(".")
                              or p[0] == "options"]
                equiv(s, R, fam.where(ctx, "load"), o, b, probes)
    for inv in (False, True):
        for sizes in (("d", "d"), ("d0", "d1")):
            with ctx.case("OperatorPosterior(%s; %s)" % (
                    "covariances" if inv else "precisions",
                    ",".join(sizes)), R) as s:
                o = s.new("roms.OperatorPosterior",
                          [s.arr("mu%d" % i, s.dim(d)) for i, d in
                           enumerate(sizes)],
                          [s.arr("P%d" % i, s.dim(d), s.dim(d)) for i, d in
                           enumerate(sizes)], alreadyinverted=inv)
                s.call(o, "save", "f.h5")
                b = s.new("roms.OperatorPosterior.load", "f.h5")
                equiv(s, R, ctx.locate("opinf.roms.OperatorPosterior", "load")
                      if False else s.where(o, "load"), o, b, attrs(
                          "nrows", "means", "covs") + [
                    ("rvs()", lambda s, o: s.call(o, "rvs"))])
