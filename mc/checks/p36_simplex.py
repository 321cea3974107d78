"""Downhill simplex learner: minimises the primal objective that the other learners minimise."""
import contextlib
import io
import itertools

import numpy as np

from .. import graphs as G
from .. import table as T

PROPERTY = "P36"
LEVEL = "model_checking"
RULE = ("one state per (training problem, C); the learner is run for real and the objective of its weights compared with an independent QP; "
        "one state per real model and data set")
BOUNDS = ("all tabular problems of one weight with 2..3 labels, 1..2 samples, differences from {-2..2}, two losses, 3 values of C; "
          "problems of two weights: not worse than where the search starts; binary, multi-class and chain models")
ASSUMPTIONS = ["in more than one dimension downhill simplex may stop before the minimum (a property of the method)"]


def learner(model, C):
    from pystruct.learners import PrimalDSStructuredSVM
    return PrimalDSStructuredSVM(model, C=C)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def problems(ctx, d, K, n, part, parts):
    vals = (-2, -1, 0, 1, 2) if d == 1 else (-1, 0, 1)
    losses = [(1.,) * (K - 1), tuple([.5, 2.][:K - 1])]
    for i, p in enumerate(T.problems(d, K, n, losses, vals)):
        if i % parts != part:
            continue
        for C in (.05, 1., 4.):
            with ctx.case(lambda: dict(problem=p.desc(), C=C)):
                lr = learner(p.model(), C)
                r = quiet(lr.fit, p.X, p.Y)
                ctx.did()
                ctx.check(r is lr, "fit does not return the learner")
                w = np.asarray(lr.w)
                ctx.check(w.shape == (d,) and np.all(np.isfinite(w)), "shape of the weights", w=w)
                got = p.objective(w, C)
                if d == 1:
                    best, wb = p.optimum(C)
                    # steps of 1e-4 in w and in the value
                    slope = 1 + C * np.abs(p.delta).sum() + abs(wb[0])
                    ctx.check(got <= best + 5e-4 * slope, "objective %r, optimum %r" % (got, best), w=w, best=wb)
                for start in (0., 1.):
                    ctx.check(got <= p.objective(np.full(d, start + 1e-5), C) + 1e-6, "worse than where the search starts", w=w)
                again = learner(p.model(), C)
                quiet(again.fit, p.X, p.Y)
                quiet(again.fit, p.X, p.Y)
                ctx.check(np.array_equal(again.w, w), "another result the second time")
                ctx.outcome((d, round(float(got), 2)))


def data():
    from pystruct.models import BinaryClf, ChainCRF, MultiClassClf, GraphCRF
    X1 = np.array([[1.], [-1.], [2.], [0.]])
    yield "BinaryClf", BinaryClf, X1, np.array([1, -1, 1, -1]), 1
    yield "MultiClassClf", MultiClassClf, X1, np.array([0, 1, 0, 1]), 2
    yield "ChainCRF", ChainCRF, [np.array([[1.], [-1.]]), np.array([[2.]])], [np.array([0, 1]), np.array([0])], 6
    e = G.earr([(0, 1)])
    yield "GraphCRF", GraphCRF, [(np.array([[1.], [-1.]]), e)], [np.array([0, 1])], 5


def models(ctx):
    from pystruct.learners import NSlackSSVM
    for name, cls, X, Y, size in data():
        for C in (.1, 1.):
            with ctx.case(lambda: dict(model=name, C=C)):
                lr = learner(cls(), C)
                quiet(lr.fit, X, Y)
                ctx.did()
                ctx.check(lr.w.shape == (size,), "number of weights %r, not %d" % (lr.w.shape, size))
                pred = lr.predict(X)
                ctx.check(len(pred) == len(X), "number of predictions")
                s = lr.score(X, Y)
                ctx.check(0 <= s <= 1, "score %r" % s)
                from pystruct.utils import objective_primal
                ns = NSlackSSVM(cls(), C=C, tol=1e-4)
                quiet(ns.fit, X, Y)
                mine, best = objective_primal(lr.model, lr.w, X, Y, C), objective_primal(ns.model, ns.w, X, Y, C)
                zero = objective_primal(lr.model, np.full(size, 1e-5), X, Y, C)
                ctx.check(mine >= best - 2e-3 * (1 + best), "below the optimum: %r < %r" % (mine, best))
                ctx.check(mine <= zero + 1e-6, "worse than where the search starts: %r > %r" % (mine, zero))
                if size == 1:
                    ctx.check(mine <= best + 5e-3, "objective %r, optimum %r" % (mine, best))
                ctx.outcome((name, round(float(mine), 2)))


def shards(tier):
    out = [("models", ())]
    for d, K, n, parts in [(1, 2, 1, 1), (1, 3, 1, 1), (1, 2, 2, 1), (1, 3, 2, 8), (2, 2, 1, 1), (2, 2, 2, 2)] + (
            [(2, 3, 1, 4), (1, 2, 3, 4), (1, 3, 3, 32), (2, 2, 3, 8)] if tier == "thorough" else []):
        out += [("problems", (d, K, n, i, parts)) for i in range(parts)]
    return out
