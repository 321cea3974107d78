"""Perceptron training follows the documented update and averaging rule."""
import itertools

import numpy as np

from .p16_cuttingplane import RealProblem, datasets, generic, real_entries, space
from ..core import SkipCase

PROPERTY = "P21"
LEVEL = "model_checking"
RULE = ("one state per (training problem, options): final weights and loss curve of the real fit() are compared with an "
        "explicit evaluation of the documented rule over the full score tables")
BOUNDS = ("tabular problems with difference vectors from {-1,0,1}^d (d=1..2; 2..3 labels, 1..3 samples), 1..4 passes; "
          "full product of batch, average {False, True, 0, 1, 2, 5, -1}, decay_exponent {0, -1, .5, 1}, decay_t0 {0, 1, 10}; "
          "real models on small data sets; fitting the same learner twice; "
          "generic problems of 7..25 samples with up to 120 passes")
ASSUMPTIONS = ["runs in which two labels have equal scores (up to rounding) are compared only if the tie is between "
               "identical candidates or broken by the model's own inference"]
GRID = dict(batch=(False, True), average=(False, True, 0, 1, 2, 5, -1), decay_exponent=(0, -1, .5, 1), decay_t0=(10, 1, 0))


def grid():
    keys = sorted(GRID)
    for vals in itertools.product(*[GRID[k] for k in keys]):
        o = dict(zip(keys, vals))
        if o["decay_t0"] or o["decay_exponent"] >= 0:
            yield o


def reference(predict, joint, loss, maxloss, n, d, o, passes):
    """(final weights, loss curve); the averages are taken over an explicit list of all iterates"""
    w = np.zeros(d)
    its, curve = [], []           # its: (pass, weights after every update step)
    for p in range(passes):
        rate = float(p + o["decay_t0"]) ** o["decay_exponent"]
        losses = 0.
        if o["batch"]:
            preds = [predict(i, w) for i in range(n)]
            for i, y in enumerate(preds):
                losses += loss(i, y)
                if loss(i, y):
                    w = w + rate * joint(i, y)
            its.append((p, w))
        else:
            for i in range(n):
                y = predict(i, w)
                losses += loss(i, y)
                if loss(i, y):
                    w = w + rate * joint(i, y)
                its.append((p, w))
        curve.append(losses / maxloss)
        if losses == 0:
            break
    a = o["average"]
    if a is False:
        return w, curve
    first = 0 if a is True else (len(curve) - 1 if a == -1 else a)
    sel = [v for p, v in its if p >= first]
    # an averaging window which training never reaches is empty (documented by the test suite: zero weights)
    return (np.mean(sel, axis=0) if sel else np.zeros(d)), curve


def compare(ctx, model, X, Y, ref, o, passes, desc, refit=False):
    from pystruct.learners import StructuredPerceptron
    with ctx.case(desc):
        lr = StructuredPerceptron(model, max_iter=passes, **o)
        r = lr.fit(X, Y, initialize=False)
        ctx.did()
        if refit:
            r = lr.fit(X, Y, initialize=False)
            ctx.did()
        want, curve = ref
        ctx.check(r is lr, "fit does not return the learner")
        ctx.check(len(lr.loss_curve_) == len(curve) and np.allclose(lr.loss_curve_, curve), "loss curve differs from "
                  "the rule", got=lr.loss_curve_, expected=curve)
        ctx.check(np.shape(lr.w) == np.shape(want) and np.allclose(lr.w, want, rtol=1e-8, atol=1e-9),
                  "weights differ from the update rule", got=lr.w, expected=want)
        ctx.outcome((tuple(np.round(want, 6)), tuple(curve)))


def long(ctx, n, K, d, passes, seed, mod, rem):
    """many passes over larger generic data sets"""
    tables(ctx, [generic(n, K, d, seed)], passes, mod, rem, 1)


def tables(ctx, name, passes, mod, rem, stride):
    Ps = name if isinstance(name, list) else space(name, False)[::stride]
    for q, o in enumerate(grid()):
        if q % mod != rem:
            continue
        for P in Ps:
            m = P.model()
            mine = P.model()

            def predict(i, w):
                s = np.sort(P.Phi[i].dot(w))[::-1]
                if np.any(w) and 0 < s[0] - s[1] < 1e-9:
                    raise SkipCase()
                return mine.inference(P.X[i], w)
            try:
                ref = reference(predict, lambda i, y: P.Phi[i][int(P.Y[i][0])] - P.Phi[i][int(y[0])],
                                lambda i, y: P.L[int(P.Y[i][0]), int(y[0])],
                                sum(P.L[int(y[0])].max() for y in P.Y), P.n, P.d, o, passes)
            except SkipCase:
                ctx.skipped += 1
                continue
            if not sum(P.L[int(y[0])].max() for y in P.Y):
                continue
            compare(ctx, m, P.X, P.Y, ref, o, passes, lambda: dict(P.desc(), options=o, passes=passes),
                    refit=q % 3 == 0)


def rejected(ctx):
    from pystruct.learners import StructuredPerceptron
    for P in space("d1K2n3", False)[::9]:
        for a in (-2, -3, -10):
            with ctx.case(lambda: dict(P.desc(), average=a)):
                try:
                    StructuredPerceptron(P.model(), average=a, max_iter=2).fit(P.X, P.Y)
                except NotImplementedError:
                    ctx.did()
                else:
                    ctx.check(False, "average=%d is accepted" % a)


def real(ctx, ename, n, mod, rem):
    e = real_entries()[ename]
    G = list(grid())
    q = 0
    for ds in datasets(e, n):
        for rep in range(3):
            q += 1
            if q % mod != rem:
                continue
            o = G[(q * 37) % len(G)]
            P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
            tabs = [e.table(i) for i, _ in ds]
            gt = [[e.key(z) for z in t[0]].index(e.key(y)) for t, y in zip(tabs, P.Y)]
            mine = e.make()

            def predict(i, w):
                s = np.sort(tabs[i][1].dot(w))[::-1]
                if np.any(w) and len(s) > 1 and 0 < s[0] - s[1] < 1e-9:
                    raise SkipCase()
                y = mine.inference(P.X[i], w)
                k = [e.key(z) for z in tabs[i][0]].index(e.key(y))
                ctx.check(s[0] - tabs[i][1][k].dot(w) < 1e-6, "prediction is no maximiser")
                return k
            maxloss = sum(max(e.loss(y, z) for z in t[0]) for y, t in zip(P.Y, tabs))
            try:
                ref = reference(predict, lambda i, k: tabs[i][1][gt[i]] - tabs[i][1][k],
                                lambda i, k: e.loss(tabs[i][0][gt[i]], tabs[i][0][k]), maxloss, n, e.d, o, 3)
            except SkipCase:
                ctx.skipped += 1
                continue
            compare(ctx, P.model(), P.X, P.Y, ref, o, 3, lambda: dict(P.desc(), options=o), refit=q % 4 == 0)


def shards(tier):
    Th = tier == "thorough"
    out = []
    for name, passes, stride in (("d2K2n2", 4, 7), ("d1K2n3", 4, 3), ("d1K3n2", 3, 11), ("d2K3n1", 4, 7),
                                 ("d2K2n3", 4, 17)):
        for rem in range(2):
            out.append(("tables", (name, passes + (3 if Th else 0), 2, rem, 1 if Th else stride)))
    for ename in ("binary", "multi", "multicw", "graph", "graphdir", "graphcw", "chain", "edge", "grid", "multilabel"):
        for n in (2, 3):
            out.append(("real", (ename, n, 1 if Th else 4, 0)))
    for n, K, d, passes in ((12, 3, 12, 40), (25, 4, 5, 15), (7, 2, 3, 120)):
        for seed in (1, 2):
            out.append(("long", (n, K, d, passes, seed, 1 if Th else 5, seed)))
    out.append(("rejected", ()))
    return out
