"""Predictions and scores of learners: one maximiser per instance, in order; score from the losses."""
import itertools

import numpy as np

from .. import sched
from .p04_prediction import MARGIN, entries, unique_margin
from .p09_losses import scalar
from .p11_purity import freeze, same

PROPERTY = "P29"
LEVEL = "model_checking"
RULE = ("one state per (learner, model configuration, weights, list of instances, number of workers and execution order): "
        "the real predict, predict_latent and score are compared with scores of all labelings and independent losses")
BOUNDS = ("all learners; the model configurations of P04; all lists of up to 2 instances and cyclic lists of 3 and 5; zero, "
          "sparse and generic weights; cyclic ground truths; one worker and three (all orders of up to 3 tasks, on copies and "
          "on shared objects)")
ASSUMPTIONS = ["the weights are assigned instead of learned; lp/ad3: weights whose maximiser is unique"]
PLAIN = ("NSlackSSVM", "OneSlackSSVM", "FrankWolfeSSVM", "SubgradientSSVM", "StructuredPerceptron")
LATENT = ("LatentSSVM", "SubgradientLatentSSVM")


def build(name, model, jobs, w):
    import pystruct.learners as L
    if name == "LatentSSVM":
        lr = L.LatentSSVM(L.OneSlackSSVM(model, n_jobs=jobs))
        lr.w = w
    elif name == "FrankWolfeSSVM":
        lr = L.FrankWolfeSSVM(model)
        lr.n_jobs = jobs
        lr.w = w
    else:
        lr = getattr(L, name)(model, n_jobs=jobs)
        lr.w = w
    return lr


def lists(n):
    out = [()]
    for k in (1, 2):
        out += list(itertools.product(range(n), repeat=k))
    out += [tuple((s + i) % n for i in range(3)) for s in range(min(n, 3))] + [tuple((2 * i) % n for i in range(5))]
    return out


def state(lr):
    return {k: freeze(v) for k, v in sorted(vars(lr).items()) if isinstance(v, (int, float, str, list, np.ndarray, type(None)))}


def run(ctx, group, ei, dense, part, parts):
    e = entries(group)[ei]
    n = min(len(e.xs), 4 if dense else 3)
    ws = [np.zeros(e.d)] + list(e.weights(1))
    ws = [ws[0]] + ws[-6:] + ws[1:-6][::max(1, e.d // (8 if dense else 2))]
    learners = PLAIN + (LATENT if e.latent else ())
    orders = [None] + [dict(order=o, copies=c) for o in itertools.permutations(range(3)) for c in (False, True)]
    q = 0
    for wi, w in enumerate(ws):
        w = np.array(w, float)
        best = []
        for xi in range(n):
            ys, Psi = e.table(xi)
            sc = Psi.dot(w)
            best.append((ys, {e.key(y): i for i, y in enumerate(ys)}, sc, sc.max() - 1e-6 * max(1., np.abs(w).max())))
        bad = [e.exact == "unique" and unique_margin(b[2]) < MARGIN for b in best]
        for li, l in enumerate(lists(n)):
            if any(bad[xi] for xi in l):
                continue
            for k, name in enumerate(learners):
                q += 1
                if q % parts != part or (not dense and (wi + li + k) % 3):
                    continue
                o = orders[(q // parts) % len(orders)] if (q // parts) % 2 else None
                with ctx.case(lambda: dict(model=e.name, learner=name, w=w, X=[e.xs[i] for i in l], workers=o)):
                    one(ctx, e, name, w, l, best, o, (wi, li))


def one(ctx, e, name, w, l, best, o, q):
    X = [e.xs[i] for i in l]
    if not l and not hasattr(e, "scalar"):
        pass
    if getattr(e, "batch_arrays", False):
        X = np.array(X) if l else np.zeros((0,) + np.shape(e.xs[0]))
    model = e.make()
    lr = build(name, model, 1 if o is None else 3, w.copy())
    before, fm, fx = state(lr), freeze(vars(model)), freeze(X)

    def call(f, *a):
        if o is None:
            return f(*a)
        plan = sched.Plan(**o)
        with sched.parallel(plan):
            return f(*a)

    def check(P, hidden):
        ctx.check(len(P) == len(l), "%d predictions for %d instances" % (len(P), len(l)))
        idx = []
        for p, xi in zip(P, l):
            ys, index, sc, lim = best[xi]
            if hidden:
                i = index.get(e.key(p))
                ctx.check(i is not None, "prediction is not in the label space", got=p)
                ctx.check(sc[i] >= lim, "the prediction for an instance is not the best one", got=p, best=ys[int(np.argmax(sc))])
            else:
                lab = np.asarray(p).ravel()
                c = [i for i, h in enumerate(ys) if np.array_equal(np.asarray(e.to_label(e.xs[xi], h)).ravel(), lab)]
                ctx.check(c, "prediction is not a labeling", got=p)
                i = max(c, key=lambda j: sc[j])
                ctx.check(sc[i] >= lim, "the predicted labels are not those of the best hidden states", got=p)
            idx.append(i)
        return idx
    lat = name in LATENT
    P = call(lr.predict, X)
    ctx.did()
    idx = check(P, not lat)
    if lat:
        H = call(lr.predict_latent, X)
        check(H, True)
        for h, p, xi in zip(H, P, l):
            ctx.check(np.array_equal(np.ravel(e.to_label(e.xs[xi], h)), np.ravel(p)), "labels and hidden states differ")
    ctx.outcome((name, l, tuple(idx)))
    if l:
        # the ground truth of the k-th instance
        t = [(3 * q[0] + 5 * q[1] + 7 * k + 1) % len(best[xi][0]) for k, xi in enumerate(l)]
        full = [best[xi][0][i] for i, xi in zip(t, l)]
        Y = [e.to_label(e.xs[xi], y) for y, xi in zip(full, l)] if lat else full
        if getattr(e, "batch_arrays", False):
            Y = np.array(Y)
        tot = sum(e.loss(y, best[xi][0][i]) for y, i, xi in zip(full, idx, l))
        cw = e.cw
        top = 0.
        for y, xi in zip(full, l):
            vis = y if not e.latent else e.to_label(e.xs[xi], y)
            top += float(sum(1. if cw is None else cw[int(v)] for v in np.asarray(vis).ravel()))
        fy = freeze(Y)
        s = call(lr.score, X, Y)
        ctx.did()
        ctx.check(abs(scalar(s) - (1 - tot / top)) < 1e-9, "score %r, expected %r" % (s, 1 - tot / top), Y=Y, predictions=P)
        ctx.check(same(freeze(Y), fy), "score changed the labels")
    ctx.check(same(state(lr), before), "predict or score changed the learner")
    ctx.check(same(freeze(vars(model)), fm), "predict or score changed the model")
    ctx.check(same(freeze(X), fx), "predict or score changed the instances")


def shards(tier):
    Th = tier == "thorough"
    out = []
    for group in ("base", "tree_lp", "typed", "latent"):
        for ei, e in enumerate(entries(group)):
            for p in range(4 if Th else 1):
                out.append(("run", (group, ei, Th, p, 4 if Th else 1)))
    return out
