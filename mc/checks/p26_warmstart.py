"""Continuing training from a previous state ends where training ends."""
import itertools

import numpy as np

from .. import table as T
from .p16_cuttingplane import RealProblem, datasets, real_entries, slackness, space

PROPERTY = "P26"
LEVEL = "model_checking"
RULE = ("one state per (training problem, learner, options, history): fit is stopped after k iterations, then continued "
        "(with the same or another C, on the same data), or started from a given set of constraints; the result is "
        "compared with an independent primal QP over all labels, subgradient runs with one uninterrupted run")
BOUNDS = ("all tabular problems with difference vectors from {-1,0,1}^d (d=1..2; 2..3 labels, 1..3 samples) and small data sets "
          "of real models; every number of iterations 1..4 before each of up to 3 continuations; C in {.1, 1, 10} before and "
          "after; pruning and inference caches; for given constraints: every subset of the possible constraints (up to one "
          "per wrong label), constraints of a learner with other C or other data; subgradient: every split of 2..5 passes")
ASSUMPTIONS = ["exact inference; tol=1e-7", "subgradient runs without momentum, averaging and shuffling"]
OS = {"default": {}, "window1": dict(inactive_window=1), "cache": dict(inference_cache=2), "loss": dict(show_loss_every=1),
      "check": dict(check_constraints=True)}
NS = {"default": {}, "window1": dict(inactive_window=1), "batch1": dict(batch_size=1), "nocheck": dict(check_constraints=False),
      "loss": dict(show_loss_every=1)}


def optimal(ctx, P, lr, C, what, tol=1e-7):
    opt, wo = P.optimum(C)
    w = np.asarray(lr.w)
    val = P.objective(w, C)
    ctx.check(val <= opt + slackness(P, opt, C, tol), "%s: objective %r of the learned weights, optimum "
              "%r" % (what, val, opt), w=w, best=wo)
    ctx.check(lr.objective_curve_[-1] <= opt + 1e-4 * (1 + opt), "%s: dual objective %r above the optimum %r"
              % (what, lr.objective_curve_[-1], opt))
    ctx.check(abs(lr.primal_objective_curve_[-1] - val) <= 1e-6 * (1 + val), "%s: the recorded primal objective is not that "
              "of the weights" % what)
    ctx.outcome(tuple(np.round(wo, 2)))
    return opt


def curves(ctx, lr, sizes, what):
    ctx.check(len(lr.objective_curve_) == len(lr.primal_objective_curve_), "%s: curves have different lengths" % what)
    ctx.check(len(lr.objective_curve_) >= sizes[-1], "%s: the curve of the previous fit was lost" % what)
    ts = np.array(lr.timestamps_[1:])
    ctx.check(np.all(np.diff(ts) >= -1e-3) and np.all(ts >= 0), "%s: timestamps_ decrease" % what, timestamps=ts)
    sizes.append(len(lr.objective_curve_))


def one_slack(ctx, P, oname, steps, desc):
    """steps: (iterations or None, C)"""
    from pystruct.learners import OneSlackSSVM
    with ctx.case(desc):
        lr, sizes = None, [0]
        for i, (k, C) in enumerate(steps):
            if lr is None:
                lr = OneSlackSSVM(P.model(), C=C, tol=1e-7, max_iter=k or 2000, **OS[oname])
            lr.set_params(C=C, max_iter=k or 2000)
            old = list(lr.objective_curve_) if i else []
            lr.fit(P.X, P.Y, warm_start=i > 0, initialize=False)
            ctx.did()
            what = "continuation %d" % i
            ctx.check(lr.objective_curve_[:len(old)] == old, what + " changed the recorded curve")
            curves(ctx, lr, sizes, what)
            if k is None:
                optimal(ctx, P, lr, C, what)
            elif OS[oname] != OS["window1"] and i and steps[i - 1][1] == C and len(lr.objective_curve_) > len(old) \
                    and old:
                ctx.check(lr.objective_curve_[-1] >= old[-1] - 1e-4 * (1 + abs(old[-1])), what + ": dual objective "
                          "decreases", curve=lr.objective_curve_)


def n_slack(ctx, P, oname, steps, desc):
    from pystruct.learners import NSlackSSVM
    with ctx.case(desc):
        lr, sizes = None, [0]
        for i, (k, C) in enumerate(steps):
            if lr is None:
                lr = NSlackSSVM(P.model(), C=C, tol=1e-7, max_iter=k or 2000, **NS[oname])
            lr.set_params(C=C, max_iter=k or 2000)
            kw = dict(constraints=lr.constraints_) if i else {}
            lr.fit(P.X, P.Y, initialize=False, **kw)
            ctx.did()
            what = "continuation %d" % i
            if oname == "default":
                curves(ctx, lr, sizes, what)
            if k is None:
                optimal(ctx, P, lr, C, what)


def histories():
    out = [[(k, 1.), (None, 1.)] for k in (1, 2, 3, 4)]
    out += [[(k, 1.), (j, 1.), (None, 1.)] for k in (1, 2) for j in (1, 2)]
    out += [[(None, a), (None, b)] for a in (.1, 1., 10.) for b in (.1, 1., 10.)]
    out += [[(1, 10.), (1, .1), (None, 1.)], [(2, .1), (1, 10.), (None, .1)], [(None, 1.), (None, .1), (None, 10.)]]
    return out


def continued(ctx, kind, name, oname, part, parts, real):
    f = one_slack if kind == "O" else n_slack
    if real:
        e = real_entries()[name]
        Ps = [RealProblem(e, [i for i, _ in ds], [y for _, y in ds]) for ds in itertools.islice(datasets(e, 3), 0, 60, 6)]
    else:
        Ps = space(name, False)
    for i, P in enumerate(Ps):
        for j, steps in enumerate(histories()):
            if (i + j) % parts == part:
                f(ctx, P, oname, steps, lambda: dict(P.desc(), learner=kind, options=oname, history=steps))


def given(ctx, name, C, oname, part, parts):
    """NSlackSSVM.fit(constraints=every subset of the possible constraints)"""
    from pystruct.learners import NSlackSSVM
    q = 0
    for P in space(name, False):
        labels = [[k for k in range(P.K) if k != int(y[0])] for y in P.Y]
        choices = [[s for r in range(len(l) + 1) for s in itertools.combinations(l, r)] for l in labels]
        for sel in itertools.product(*choices):
            for used in (0, 1):
                q += 1
                if q % parts != part:
                    continue
                with ctx.case(lambda: dict(P.desc(), C=C, options=oname, constraints=[list(s) for s in sel],
                                           learner_fitted_before=bool(used))):
                    m = P.model()
                    cons = [[[np.array([k]), P.Phi[i][int(P.Y[i][0])] - P.Phi[i][k], P.L[int(P.Y[i][0]), k]] for k in s]
                            for i, s in enumerate(sel)]
                    lr = NSlackSSVM(m, C=C, tol=1e-7, max_iter=2000, **NS[oname])
                    if used:
                        lr.C = 3.
                        lr.fit(P.X[:1], P.Y[:1], initialize=False)
                        lr.C = C
                    lr.fit(P.X, P.Y, constraints=cons, initialize=False)
                    ctx.did()
                    optimal(ctx, P, lr, C, "given constraints")


def split(ctx, name, C, part, parts):
    """subgradient: passes in several fits = the same number of passes in one fit"""
    from pystruct.learners import SubgradientSSVM
    opts = [dict(learning_rate=r, decay_exponent=d, decay_t0=t, batch_size=b, break_on_no_constraints=False)
            for r in ("auto", .1) for d in (0, 1, .5) for t in (1, 10) for b in (None, 2, -1)]
    comps = [c for n in (2, 3, 4, 5) for m in (2, 3) for c in itertools.product(range(1, n), repeat=m) if sum(c) == n]
    q = 0
    for P in space(name, False):
        for o in opts:
            full = SubgradientSSVM(P.model(), C=C, max_iter=5, **o)
            ws = []
            full.logger = lambda l, it: ws.append(np.array(l.w))
            full.fit(P.X, P.Y, initialize=False)
            for c in comps:
                q += 1
                if q % parts != part:
                    continue
                with ctx.case(lambda: dict(P.desc(), C=C, options=o, passes=list(c))):
                    lr = SubgradientSSVM(P.model(), C=C, max_iter=c[0], **o)
                    for i, k in enumerate(c):
                        lr.max_iter = k
                        lr.fit(P.X, P.Y, warm_start=i > 0, initialize=False)
                        ctx.did()
                    n = sum(c)
                    ctx.check(np.allclose(lr.w, ws[n - 1], rtol=1e-9, atol=1e-11), "weights after %d passes in several "
                              "fits differ from %d passes in one fit" % (n, n), got=lr.w, expected=ws[n - 1])
                    ctx.check(len(lr.objective_curve_) == n + len(c), "number of recorded objectives")
                    ts = np.array(lr.timestamps_[1:])
                    ctx.check(np.all(np.diff(ts) >= -1e-3) and np.all(ts >= 0), "timestamps_ decrease", timestamps=ts)
                    ctx.outcome(tuple(np.round(lr.w, 6)))


def latent_split(ctx, ename, part, parts):
    from pystruct.learners import SubgradientLatentSSVM
    from . import p23_latentlearn as p23
    e = p23.entries()[ename]
    comps = [c for n in (2, 3, 4) for m in (2, 3) for c in itertools.product(range(1, n), repeat=m) if sum(c) == n]
    opts = [dict(learning_rate=r, decay_exponent=d, break_on_no_constraints=False) for r in (.1, 1.) for d in (0, 1)]
    q = 0
    for ds in p23.sets(e, 2):
        L = p23.Latent(e, ds)
        for o in opts:
            for c in comps:
                for start in (-1., 0., 1.):
                    q += 1
                    if q % parts != part:
                        continue
                    with ctx.case(lambda: dict(L.desc(), options=o, passes=list(c), start=start)):
                        out = []
                        for cc in ([sum(c)], c):
                            m = e.make()
                            m.initialize(L.X, L.Y)
                            lr = SubgradientLatentSSVM(m, C=1., **o)
                            lr.w = np.array([((7 * k) % 5 - 2.13) / 2 * (start or .1) for k in range(L.d)])
                            for i, k in enumerate(cc):
                                lr.max_iter = k
                                lr.fit(L.X, L.Y, warm_start=i > 0, initialize=False)
                                ctx.did()
                            out.append(np.array(lr.w))
                        ctx.check(np.allclose(out[0], out[1], rtol=1e-9, atol=1e-11), "weights after several fits differ "
                                  "from those of one fit", got=out[1], expected=out[0])
                        ctx.outcome(tuple(np.round(out[0], 6)))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for kind in "ON":
        for oname in (OS if kind == "O" else NS):
            full = Th or oname in ("default", "cache")
            for name in ("d2K2n2", "d1K3n2", "d2K3n1", "d1K2n3"):
                parts = 4 if Th else 12 if full else 40
                for p in range(parts if Th else 1):
                    out.append(("continued", (kind, name, oname, p, parts, False)))
            for name in ("graph", "multi", "multiresc", "chain", "edge", "multilabel"):
                out.append(("continued", (kind, name, oname, 0, 1 if Th else 6, True)))
    for name in ("d2K3n1", "d1K2n3", "d1K3n2", "d2K2n2"):
        for C in ((.1, 1., 10.) if Th else (1.,)):
            for oname in NS:
                parts = 4 if Th else 12
                for p in range(parts if Th else 1):
                    out.append(("given", (name, C, oname, p, parts)))
    for name in ("d2K2n2", "d1K3n2", "d1K2n3"):
        for p in range(4 if Th else 1):
            out.append(("split", (name, 1., p, 4 if Th else 24)))
    for ename in ("graph22", "node", "edge"):
        out.append(("latent_split", (ename, 0, 1 if Th else 4)))
    return out
