"""Saved bases come back with the same behaviour."""
from .common import bases, basis_composites, load_any, equiv


def check(ctx):
    R = "save-load-behaviour"
    for fam in bases(ctx) + basis_composites(ctx, many=True):
        hist = ["trained"] if getattr(fam, "ready", False) else [
            "not trained", "trained"]
        if getattr(fam, "pod", False):
            hist += ["trained, then dimension changed",
                     "trained, then criterion changed"]
        for h in hist:
            with ctx.case("%s, %s" % (fam.label, h), R) as s:
                o = fam.build(s)
                if h.startswith("trained") and fam.fit:
                    fam.fit(s, o)
                if "dimension" in h:
                    s.set(o, "reduced_state_dimension", s.int("rnew"))
                if "criterion" in h:
                    s.call(o, "set_dimension",
                           residual_energy=s.flt("tol2"))
                s.call(o, "save", "f.h5")
                b = load_any(s, fam)
                probes = fam.probes
                if not getattr(fam, "dense", True):
                    # the SVD solver is no part of the saved basis
                    probes = [p for p in probes if p[0] != "str()"]
                if h == "not trained":
                    probes = [p for p in probes if p[0] in (
                        ".name", ".num_variables", ".variable_names",
                        ".weights", ".entries")]
                equiv(s, R, fam.where(ctx, "load"), o, b, probes)
