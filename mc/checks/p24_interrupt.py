"""Interrupting training (Ctrl-C) at any point leaves a consistent, usable learner."""
import sys

import numpy as np

from .. import table as T
from . import p16_cuttingplane as p16
from .p16_cuttingplane import RealProblem, datasets, real_entries, space

PROPERTY = "P24"
LEVEL = "fault_enumeration"
RULE = ("one state per (training problem, learner, options, interrupt point): a KeyboardInterrupt is raised in the real "
        "fit() at that point; the learner is compared with tables of all labels and afterwards used to predict, to "
        "continue training and to train again")
BOUNDS = ("every call of a model method, of the logger and of the quadratic program solver (before and after it) during "
          "fit; every executed line of pystruct/learners and pystruct/utils/inference.py during fit; NSlack, OneSlack, "
          "Frank-Wolfe (both modes), subgradient and perceptron learners with their main options; tabular problems with "
          "2..3 samples and real graph, chain and multi-class models")
ASSUMPTIONS = ["interrupts arrive in the main thread between two lines of Python code or inside a called function",
               "interrupts before the first inference or during the final evaluation may leave fit"]

LEARNERS = {
    "N": ("NSlackSSVM", {}), "Nb": ("NSlackSSVM", dict(batch_size=1, show_loss_every=1)),
    "Nw": ("NSlackSSVM", dict(inactive_window=1)),
    "O": ("OneSlackSSVM", {}), "Oc": ("OneSlackSSVM", dict(inference_cache=2)),
    "Ol": ("OneSlackSSVM", dict(show_loss_every=1, check_constraints=True)),
    "Ow": ("OneSlackSSVM", dict(inactive_window=2)),
    "F": ("FrankWolfeSSVM", dict(sample_method="seq", max_iter=4, check_dual_every=2)),
    "Fn": ("FrankWolfeSSVM", dict(sample_method="seq", max_iter=3, do_averaging=False, check_dual_every=1)),
    "F0": ("FrankWolfeSSVM", dict(sample_method="seq", max_iter=2, check_dual_every=0)),
    "Fb": ("FrankWolfeSSVM", dict(batch_mode=True, max_iter=5)),
    "S": ("SubgradientSSVM", dict(max_iter=3)), "Sa": ("SubgradientSSVM", dict(max_iter=3, averaging="linear")),
    "Sb": ("SubgradientSSVM", dict(max_iter=3, batch_size=2, momentum=.5, show_loss_every=1)),
    "P": ("StructuredPerceptron", dict(max_iter=3)), "Pa": ("StructuredPerceptron", dict(max_iter=3, average=True)),
    "Pb": ("StructuredPerceptron", dict(max_iter=3, batch=True))}
METHODS = ("inference", "loss_augmented_inference", "batch_inference", "batch_loss_augmented_inference",
           "joint_feature", "batch_joint_feature", "loss", "batch_loss", "max_loss", "initialize")


def build(lname, model, C, log=None):
    import pystruct.learners as L
    cls, kw = LEARNERS[lname]
    kw = dict(kw)
    if lname[0] in "NO":
        kw.update(tol=1e-7, max_iter=500)
    if lname[0] != "P":
        kw["C"] = C
    return getattr(L, cls)(model, logger=log, **kw)


class Points(object):
    """Counts the interrupt points of one fit and raises at one of them."""
    def __init__(self, at=None):
        self.at, self.n, self.kinds = at, 0, []
        self.on = False

    def hit(self, kind):
        if not self.on:
            return
        self.n += 1
        if self.at is None:
            self.kinds.append(kind)
        elif self.n == self.at:
            self.on = False
            raise KeyboardInterrupt()

    def model(self, m):
        # only the outermost call of a model method is a point
        depth = [0]
        for name in METHODS:
            f = getattr(m, name, None)
            if f is None:
                continue

            setattr(m, name, self._wrap(f, name, depth))
        return m

    def _wrap(self, f, name, depth):
        def g(*a, **k):
            if depth[0]:
                return f(*a, **k)
            self.hit(name)
            depth[0] += 1
            try:
                r = f(*a, **k)
            finally:
                depth[0] -= 1
            if "inference" in name:
                self.hit(name + " done")
            return r
        return g

    def logger(self, seen):
        def log(lr, it):
            seen.append((it, np.array(lr.w)))
            self.hit("logger %s" % (it if it == "final" else "iteration"))
        return log

    def tracer(self):
        files = ("pystruct/learners/", "pystruct/utils/inference")

        def local(frame, event, arg):
            if event == "line":
                self.hit("line %s:%d" % (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_lineno))
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if any(f in fn for f in files) and frame.f_code.co_name not in ("predict", "score"):
                return local
            return None
        return glob


class QP(object):
    def __init__(self, pts):
        self.pts = pts

    def __enter__(self):
        from cvxopt import solvers
        self.solvers, self.qp = solvers, solvers.qp

        def qp(*a, **k):
            self.pts.hit("qp")
            r = self.qp(*a, **k)
            self.pts.hit("qp done")
            return r
        solvers.qp = qp

    def __exit__(self, *a):
        self.solvers.qp = self.qp


def attempt(P, lname, C, at, lines):
    """-> (learner, points, result or None, logged)"""
    pts, seen = Points(at), []
    m = P.model() if lines else pts.model(P.model())
    lr = build(lname, m, C, pts.logger(seen))
    res = None
    old = sys.gettrace()
    with QP(pts):
        pts.on = True
        try:
            if lines:
                sys.settrace(pts.tracer())
            res = lr.fit(P.X, P.Y, initialize=False)
        except KeyboardInterrupt:
            pass
        finally:
            sys.settrace(old)
            pts.on = False
    return lr, pts, res, seen


def objective(P, w, C):
    return P.objective(w, C)


def explore(ctx, P, lname, C, lines, stride=1, offset=0):
    lr, pts, res, seen = attempt(P, lname, C, None, lines)
    ctx.check(res is lr, "fit does not return the learner")
    kinds = pts.kinds
    first = next(i for i, k in enumerate(kinds) if "inference" in k and not k.startswith("line")) \
        if not lines else None
    # the final evaluation starts after the last event that belongs to an iteration
    last = max([i for i, k in enumerate(kinds) if k.startswith(("qp", "logger iter"))] or [first or 0])
    opt = P.optimum(C)[0] if lname[0] in "NOF" else None
    for at in range(1 + offset, len(kinds) + 1, stride):
        with ctx.case(lambda: dict(P.desc(), learner=LEARNERS[lname], C=C, interrupt_at=at, point=kinds[at - 1],
                                   points=len(kinds))):
            lr, pts, res, seen = attempt(P, lname, C, at, lines)
            ctx.did()
            ctx.check(pts.n >= at, "the run is not reproducible")
            if not lines and first <= at - 1 <= last:
                ctx.check(res is not None, "an interrupt during training left fit")
            if res is not None:
                ctx.check(res is lr, "fit does not return the learner")
                state(ctx, P, lname, lr, C, opt, seen, lines)
            if not lines and res is not None:
                resume(ctx, P, lname, lr, C, opt)
            again(ctx, P, lname, lr, C, opt)
            ctx.outcome((lname, kinds[at - 1], res is None))


def state(ctx, P, lname, lr, C, opt, seen, lines):
    w = np.asarray(lr.w)
    ctx.check(w.shape == (P.d,) and np.all(np.isfinite(w)), "invalid weights", w=w)
    if lname[0] != "P":
        val = P.objective(w, C)
        curve = lr.objective_curve_ if lname[0] == "S" else lr.primal_objective_curve_
        ctx.check(abs(curve[-1] - val) <= 1e-6 * (1 + val), "the final objective is %r, the weights have %r"
                  % (curve[-1], val))
        ctx.check(seen and seen[-1][0] == "final" and np.array_equal(seen[-1][1], w), "final log entry is missing or "
                  "has other weights", logged=[s[0] for s in seen])
    if lname[0] in "NOF":
        dual = np.array(lr.objective_curve_)
        ctx.check(dual.max() <= opt + 2e-4 * (1 + opt), "dual objective %r above the optimum %r" % (dual.max(), opt))
        if not lines:
            ctx.check(len(dual) == len(lr.primal_objective_curve_), "%d dual and %d primal objectives"
                      % (len(dual), len(lr.primal_objective_curve_)))
            if lname[0] == "O":
                ctx.check(len(lr.cached_constraint_) == len(dual), "cached_constraint_ has %d entries for %d "
                          "objectives" % (len(lr.cached_constraint_), len(dual)))
    Y = lr.predict(P.X)
    ctx.check(len(Y) == P.n, "number of predictions")
    s = lr.score(P.X, P.Y)
    ctx.check(s <= 1 and np.isfinite(s), "score %r" % s)


def resume(ctx, P, lname, lr, C, opt):
    """cutting-plane learners continue from their constraints and reach the optimum"""
    if lname[0] == "O":
        lr.fit(P.X, P.Y, warm_start=True, initialize=False)
    elif lname[0] == "N":
        lr.fit(P.X, P.Y, constraints=lr.constraints_, initialize=False)
    else:
        return
    ctx.did()
    val = P.objective(np.asarray(lr.w), C)
    ctx.check(val <= opt + 1e-3 * (1 + opt), "continuing the interrupted fit ends with objective %r, the optimum is "
              "%r" % (val, opt))


def again(ctx, P, lname, lr, C, opt):
    lr.logger = None
    lr.fit(P.X, P.Y, initialize=False)
    ctx.did()
    if lname[0] in "NO":
        val = P.objective(np.asarray(lr.w), C)
        ctx.check(val <= opt + 1e-3 * (1 + opt), "training again ends with objective %r, the optimum is %r" % (val, opt))
    else:
        fresh = build(lname, P.model(), C)
        fresh.fit(P.X, P.Y, initialize=False)
        ctx.check(np.allclose(lr.w, fresh.w, rtol=1e-8, atol=1e-10), "training again differs from training a new "
                  "learner", again=lr.w, fresh=fresh.w)


def tables(ctx, name, lname, C, lines, every, stride, part):
    for i, P in enumerate(space(name, False)):
        if i % every == part:
            explore(ctx, P, lname, C, lines, stride, offset=(i // every) % stride)


def real(ctx, ename, lname, C, lines, stride):
    e = real_entries()[ename]
    for q, ds in enumerate(datasets(e, 2)):
        if q % 5:
            continue
        P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
        explore(ctx, P, lname, C, lines, stride, offset=q % stride)
        if q > 60:
            break


def shards(tier):
    Th = tier == "thorough"
    out = []
    for lname in LEARNERS:
        for name, every in (("d2K2n2", 11), ("d1K2n3", 9), ("d1K3n2", 40), ("d2K3n1", 30)):
            out.append(("tables", (name, lname, 1., False, every if not Th else 1 + every // 8, 1, 1)))
            out.append(("tables", (name, lname, 1., True, 2 * every if not Th else every, 1 if Th else 5, 0)))
        for ename in ("graph", "multi") + (("chain", "edge", "multilabel") if Th else ()):
            out.append(("real", (ename, lname, 1., False, 1)))
            out.append(("real", (ename, lname, 1., True, 3 if Th else 23)))
    return out
