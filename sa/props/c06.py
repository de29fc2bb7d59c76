"""Copies are complete and independent."""
from . import models
from .alias import reach, shared
from .c04 import nonparam_fams, param_op_fams
from .common import attempt, equiv, solvers, attrs


def fresh(s, a, R, w, b, but=()):
    """a copy is another object that reaches none of the original's arrays,
    containers or objects. The training data that solvers keep are the
    caller's arrays and may be shared; but: objects whose arrays may be."""
    data = set()
    for x in but:
        data |= {k for k, v in reach(s.st, x).items() if v[1] == "array"}
    sh = [x[1:] for x in shared(s.st, a, b) if x[0] not in data]
    if sh:
        s.ctx.bad(R, w, "the copy shares the %s %s%s" % (
            sh[0][2], sh[0][1] or "itself", "" if len(sh) == 1 else
            " (and %d more)" % (len(sh) - 1)))
    else:
        s.ctx.ok(R, w)


def check(ctx):
    R, RI = "copy-behaviour", "copy-independence"
    for fam in nonparam_fams(ctx) + param_op_fams(ctx):
        w = fam.where(ctx, "copy")
        with ctx.case(fam.label, R) as s:
            o = fam.build(s)
            c = s.call(o, "copy")
            equiv(s, R, w, o, c, fam.probes, ("original", "copy"))
            fresh(s, o, RI, w, c)
    for fam in solvers(ctx):
        w = fam.where(ctx, "copy")
        for h in ("not trained", "trained"):
            with ctx.case("%s, %s" % (fam.label, h), R) as s:
                o = fam.build(s)
                if h == "trained":
                    fam.fit(s, o)
                c = s.call(o, "copy")
                pr = fam.probes
                if h == "not trained":
                    pr = [p for p in pr if p[0].startswith(".")
                          or p[0] == "options"] + [
                        ("solve() after fit()", lambda s, o, fam=fam:
                         (fam.fit(s, o), s.call(o, "solve"))[1])]
                else:
                    pr = pr + [
                        ("solve() after another fit()", lambda s, o, fam=fam:
                         (fam.fit(s, o, "b"), s.call(o, "solve"))[1])]
                equiv(s, R, w, o, c, pr, ("original", "copy"))
                fresh(s, o, RI, w, c, [o])
                # retraining the copy leaves the original alone
                before = [attempt(s.fork(), lambda z, p=p: p[1](z, o))
                          if p[0].startswith(".") else ("none",)
                          for p in fam.probes]
                s2 = s.fork()
                fam.fit(s2, c, "b")
                for p, t in zip(fam.probes, before):
                    if t[0] == "val":
                        s2.same(RI, w, s2.term(p[1](s2, o)), t[1],
                                note="after the copy is trained again, " +
                                p[0])
    for fam in models.mono_fams(ctx, solvers=True) + models.param_fams(
            ctx, solvers=True):
        w = fam.where(ctx, "copy")
        for h in ("as built", "fitted"):
            if h == "fitted" and fam.fit is None:
                continue
            with ctx.case("%s, %s" % (fam.label, h), R) as s:
                o = fam.build(s)
                if h == "fitted":
                    fam.fit(s, o)
                c = s.call(o, "copy")
                pr = list(fam.probes)
                if fam.fit is not None:
                    rhs = dict(fam.probes)["rhs"]

                    def again(s, o, fam=fam, rhs=rhs):
                        fam.fit(s, o, "b")
                        return rhs(s, o)
                    pr.append(("rhs after another fit()", again))
                    if h == "fitted":
                        def refit(s, o, rhs=rhs):
                            s.call(o, "refit")
                            return rhs(s, o)
                        pr.append(("rhs after refit()", refit))
                equiv(s, R, w, o, c, pr, ("original", "copy"))
                but = []
                for a in ("solver", "solvers", "_training_parameters"):
                    if s.has(o, a):
                        but.append(s.get(o, a))
                fresh(s, o, RI, w, c, but)
