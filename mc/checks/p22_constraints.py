"""find_constraint and the training objective agree with their definition on every model."""
import numpy as np

from .. import zoo
from .p04_prediction import MARGIN, entries, unique_margin
from .p16_cuttingplane import datasets

PROPERTY = "P22"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, labels, weights, options of the call); the returned labeling, "
        "feature difference, slack and loss, and the primal objective, are compared with values computed from tables of "
        "all labelings")
BOUNDS = ("the P04 model configurations (typed and latent included), every labeling of every small instance, weights "
          "with at most k nonzero entries and generic ones; given labelings; objectives of all data sets of 1..3 "
          "instances, both variants, C in {.5, 2}, n_jobs in {1, 2 (threads)}")
ASSUMPTIONS = ["tolerance 1e-6 relative to the weights", "unique maximisers where inference is exact only for these"]


def find(ctx, group, ei, k, part, nparts):
    from pystruct.utils import find_constraint
    e = entries(group)[ei]
    model = e.make()
    rescale = getattr(e, "rescale_C", False)
    n = 0
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        index = {e.key(y): i for i, y in enumerate(ys)}
        step = max(1, len(ys) // 6)
        for ti in range(0, len(ys), step):
            yt = ys[ti]
            loss = e.loss_row(x, yt, ys)
            P = Psi if not rescale else np.array([e.psi(x, y, yt) for y in ys])
            for w in e.weights(k):
                n += 1
                if n % nparts != part:
                    continue
                sc = P.dot(w) + loss
                exact = not (e.exact == "unique" and unique_margin(sc) < MARGIN)
                tol = 1e-6 * max(1., np.abs(w).max())
                relaxed = bool(n % 2) and e.exact == "any"
                diff = n % 3 != 0
                given = ys[(n * 5) % len(ys)] if n % 4 == 0 else None
                if given is None and not exact:
                    continue
                with ctx.case(lambda: dict(model=e.name, x=x, y=yt, w=w, y_hat=given, compute_difference=diff)):
                    yh, dpsi, slack, l = find_constraint(model, x, yt, w, y_hat=given, relaxed=relaxed,
                                                         compute_difference=diff)
                    ctx.did()
                    if isinstance(yh, tuple):
                        # an exact method may return one-hot marginals
                        continue
                    i = index.get(e.key(yh))
                    ctx.check(i is not None, "labeling outside the label space", got=yh)
                    if given is None:
                        ctx.check(sc[i] >= sc.max() - tol, "not the most violated labeling: %r < %r" % (sc[i], sc.max()),
                                  got=yh)
                    else:
                        ctx.check(e.key(yh) == e.key(given), "another labeling is returned than was given", got=yh)
                    want = (P[ti] if diff else 0) - P[i]
                    ctx.check(np.shape(dpsi) == (e.d,) and np.allclose(dpsi, want, atol=1e-8), "feature difference",
                              got=dpsi, expected=want)
                    ctx.check(abs(l - loss[i]) < 1e-8, "loss %r instead of %r" % (l, loss[i]))
                    s = max(0., loss[i] - np.dot(w, want))
                    ctx.check(abs(slack - s) < 1e-8 * (1 + np.abs(w).sum()), "slack %r instead of %r" % (slack, s))
                    ctx.outcome((ei, xi, ti, i))


def latent(ctx, ei, k):
    from pystruct.utils import find_constraint_latent
    e = entries("latent")[ei]
    model = e.make()
    for xi, x in enumerate(e.xs):
        hs, Psi = e.table(xi)
        index = {e.key(h): i for i, h in enumerate(hs)}
        lab = [tuple(np.asarray(e.to_label(x, h)).ravel().tolist()) for h in hs]
        for w in e.weights(k):
            sc = Psi.dot(w)
            for y in e.visible_labels(x):
                t = tuple(y.ravel().tolist())
                cons = np.array([i for i, l in enumerate(lab) if l == t])
                loss = e.loss_row(x, hs[cons[0]], hs)
                with ctx.case(lambda: dict(model=e.name, x=x, y=y, w=w)):
                    hh, dpsi, slack, l = find_constraint_latent(model, x, y, w, relaxed=False)
                    ctx.did()
                    i = index.get(e.key(hh))
                    ctx.check(i is not None, "labeling outside the label space", got=hh)
                    tol = 1e-6 * max(1., np.abs(w).max())
                    a = sc + loss
                    ctx.check(a[i] >= a.max() - tol, "not the most violated labeling")
                    ctx.check(abs(l - loss[i]) < 1e-8, "loss %r instead of %r" % (l, loss[i]))
                    # the completion is some best consistent one: its score is determined
                    want = sc[cons].max() - sc[i]
                    ctx.check(abs(np.dot(w, dpsi) - want) < tol, "w.dpsi = %r instead of %r" % (np.dot(w, dpsi), want))
                    full = [Psi[c] - Psi[i] for c in cons]
                    ctx.check(any(np.allclose(dpsi, f, atol=1e-8) for f in full), "feature difference", got=dpsi)
                    ctx.check(abs(slack - max(0, loss[i] - want)) < tol, "slack %r" % slack)
                    ctx.outcome((ei, xi, i))


def objective(ctx, group, ei, n, stride):
    from pystruct.utils import objective_primal
    from pystruct.learners import NSlackSSVM, OneSlackSSVM, SubgradientSSVM, FrankWolfeSSVM
    e = entries(group)[ei]
    rescale = getattr(e, "rescale_C", False)
    ws = [e.proj(zoo.G.generic(e.d, 7, scale=1)), e.proj(zoo.G.generic(e.d, 8, scale=5)), np.zeros(e.d)]
    for q, ds in enumerate(datasets(e, n)):
        if q % stride:
            continue
        w = ws[q // stride % 3]
        X, Y = [e.xs[i] for i, _ in ds], [y for _, y in ds]
        slacks, ok = [], True
        for (xi, y) in ds:
            ys, Psi = e.table(xi)
            P = Psi if not rescale else np.array([e.psi(e.xs[xi], z, y) for z in ys])
            ti = [e.key(z) for z in ys].index(e.key(y))
            a = P.dot(w) + e.loss_row(e.xs[xi], y, ys)
            ok = ok and not (e.exact == "unique" and unique_margin(a) < MARGIN)
            slacks.append(a.max() - P[ti].dot(w))
        if not ok:
            continue
        for C in (.5, 2.):
            want = C * sum(slacks) + .5 * w.dot(w)
            with ctx.case(lambda: dict(model=e.name, X=X, Y=Y, w=w, C=C)):
                m = e.make()
                for variant in ("n_slack", "one_slack"):
                    got = objective_primal(m, w, X, Y, C, variant=variant)
                    ctx.did()
                    ctx.check(abs(got - want) < 1e-6 * (1 + abs(want)), "%s objective %r, definition %r"
                              % (variant, got, want))
                cls = (NSlackSSVM, OneSlackSSVM, SubgradientSSVM, FrankWolfeSSVM)[q % 4]
                lr = cls(m, C=C)
                lr.w = w.copy()
                got = lr._objective(X, Y) if hasattr(lr, "_objective") else want
                ctx.did()
                ctx.check(abs(got - want) < 1e-6 * (1 + abs(want)), "%s: objective %r, definition %r"
                          % (cls.__name__, got, want))
                ctx.outcome(round(float(want), 4))


def debug_tools(ctx, group, ei):
    """exhaustive inference helpers really are exhaustive"""
    from pystruct.utils import exhaustive_inference, exhaustive_loss_augmented_inference
    e = entries(group)[ei]
    model = e.make()
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        if len(ys) > 64 or not isinstance(ys[0], np.ndarray):
            continue
        index = {e.key(y): i for i, y in enumerate(ys)}
        for w in e.weights(1):
            with ctx.case(lambda: dict(model=e.name, x=x, w=w)):
                sc = Psi.dot(w)
                y = exhaustive_inference(model, x, w)
                ctx.did()
                ctx.check(sc[index[e.key(y)]] > sc.max() - 1e-7 * (1 + np.abs(w).sum()), "exhaustive_inference")
                yt = ys[xi % len(ys)]
                a = sc + e.loss_row(x, yt, ys)
                y = exhaustive_loss_augmented_inference(model, x, yt, w)
                ctx.did()
                ctx.check(a[index[e.key(y)]] > a.max() - 1e-7 * (1 + np.abs(w).sum()),
                          "exhaustive_loss_augmented_inference")


def shards(tier):
    Th = tier == "thorough"
    out = []
    for group, parts in (("base", 4), ("loopy", 8), ("tree_lp", 8), ("typed", 8), ("latent", 8)):
        for ei, e in enumerate(entries(group)):
            k = 2 if e.d <= 6 else 1
            for part in range(parts if Th else 1):
                out.append(("find", (group, ei, k + (1 if Th else 0), part, parts)))
            if group != "latent":
                for n in (1, 2, 3):
                    out.append(("objective", (group, ei, n, 1 if Th else 2 if group == "base" else 6)))
            if group == "base" and e.name.startswith(("GraphCRF", "ChainCRF", "EdgeFeature", "GridCRF", "Direc")):
                out.append(("debug_tools", (group, ei)))
    for ei, e in enumerate(entries("latent")):
        out.append(("latent", (ei, 2 if Th else 1)))
    return out
