"""Batch operations are the per-instance operations, in order."""
import itertools

import numpy as np

from .. import zoo
from .p04_prediction import entries
from .p08_relaxed import frustrate, relaxed_entries

PROPERTY = "P10"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, sequence of (instance, label) items, weights, operation); "
        "the real batch result is compared item by item with independently computed maxima, joint "
        "features and losses and with the single-instance operation")
BOUNDS = ("every sequence of length 0..3 (models on arrays: 1..4) over up to 4 instances, repetitions "
          "included, with cyclic labels (binary and multi-class models: all label sequences), for the P04 model "
          "configurations and 3 weight vectors; batches of up to 3 loopy instances with relaxed inference on and "
          "off for all frustrated weight vectors of P08")
ASSUMPTIONS = []


def stack(e, items):
    if e.batch_arrays:
        return np.array([np.asarray(i) for i in items])
    return list(items)


def run(ctx, group, ei, maxlen):
    e = entries(group)[ei]
    model = e.make()
    rescale = getattr(e, "rescale_C", False)
    nx = min(4, len(e.xs))
    ws = [e.proj(zoo.G.generic(e.d, 5, scale=1)), e.proj(zoo.G.generic(e.d, 9, scale=3)),
          np.zeros(e.d)]
    ws = ws[:2] if e.exact == "unique" else ws
    tabs = [e.table(xi) for xi in range(nx)]
    cnt = 0
    scalar = getattr(e, "scalar", False)
    space = []
    for L in range(0 if not e.batch_arrays else 1, maxlen + 1):
        for seq in itertools.product(range(nx), repeat=L):
            space.append((L, seq, None))
            if scalar and L <= 3:      # a few labels only: every label sequence
                space += [(L, seq, ys) for ys in itertools.product(range(len(tabs[0][0])), repeat=L)]
    for L, seq, ys in space:
            cnt += 1
            yi = ys or [(3 * k + 5 * s + cnt) % len(tabs[s][0]) for k, s in enumerate(seq)]
            hi = [(k + 7 * s + 2 * cnt) % len(tabs[s][0]) for k, s in enumerate(seq)]
            X = [e.xs[s] for s in seq]
            Y = [tabs[s][0][i] for s, i in zip(seq, yi)]
            H = [tabs[s][0][i] for s, i in zip(seq, hi)]
            desc = lambda: dict(model=e.name, instances=seq, X=X, Y=Y)
            with ctx.case(desc):
                if rescale:
                    got = model.batch_joint_feature(stack(e, X), stack(e, H), stack(e, Y))
                    want = sum(e.psi(x, h, y) for x, h, y in zip(X, H, Y))
                    single = sum(model.joint_feature(x, h, y) for x, h, y in zip(X, H, Y))
                else:
                    got = model.batch_joint_feature(stack(e, X), stack(e, H))
                    want = sum([tabs[s][1][i] for s, i in zip(seq, hi)], np.zeros(e.d))
                    single = sum([model.joint_feature(x, h) for x, h in zip(X, H)], np.zeros(e.d))
                ctx.did()
                ctx.check(np.shape(got) == (e.d,) and np.allclose(got, want, atol=1e-9)
                          and np.allclose(got, single, atol=1e-9),
                          "batch joint feature is not the sum of the joint features", got=got,
                          expected=want, single=single)
                ctx.outcome(tuple(np.round(want, 6)))
            w = ws[cnt % len(ws)]
            aug = [tabs[s][1].dot(w) * (e.cw[int(tabs[s][0][i])] if rescale else 1)
                   + e.loss_row(e.xs[s], tabs[s][0][i], tabs[s][0])
                   for s, i in zip(seq, yi)]
            if e.exact == "unique" and any(len(a) > 1 and np.diff(np.sort(a))[-1] < 1e-2 for a in aug):
                continue
            with ctx.case(desc):
                res = list(model.batch_inference(stack(e, X), w))
                ctx.did()
                ctx.check(len(res) == L, "%d predictions for %d instances" % (len(res), L))
                for k, (s, x, r) in enumerate(zip(seq, X, res)):
                    sc = tabs[s][1].dot(w)
                    if e.exact == "unique" and len(sc) > 1 and np.diff(np.sort(sc))[-1] < 1e-2:
                        continue
                    keys = {e.key(y): q for q, y in enumerate(tabs[s][0])}
                    i = keys.get(e.key(r))
                    ctx.check(i is not None and sc[i] > sc.max() - 1e-6, "item %d of the batch is not a "
                              "maximiser" % k, got=r)
                    one = model.inference(x, w)
                    ctx.check(keys.get(e.key(one)) == i and np.shape(one) == np.shape(r),
                              "batch and single prediction differ", batch=r, single=one)
            with ctx.case(desc):
                res = list(model.batch_loss_augmented_inference(stack(e, X), stack(e, Y), w))
                ctx.did()
                ctx.check(len(res) == L, "%d results for %d instances" % (len(res), L))
                for k, (s, x, r, y, a) in enumerate(zip(seq, X, res, Y, aug)):
                    keys = {e.key(q): n for n, q in enumerate(tabs[s][0])}
                    i = keys.get(e.key(r))
                    ctx.check(i is not None and a[i] > a.max() - 1e-6, "item %d of the batch does not "
                              "maximise score plus loss" % k, got=r)
                    one = model.loss_augmented_inference(x, y, w)
                    ctx.check(keys.get(e.key(one)) == i, "batch and single loss-augmented "
                              "inference differ", batch=r, single=one)
            with ctx.case(desc):
                res = [float(v) for v in model.batch_loss(stack(e, Y), stack(e, H))]
                ctx.did()
                want = [e.loss(y, h) for y, h in zip(Y, H)]
                ctx.check(len(res) == L and np.allclose(res, want), "batch losses", got=res, expected=want)


def parts(r):
    """a result (labels, or marginals of nodes and edges) as a list of arrays"""
    if isinstance(r, tuple):
        return [np.asarray(a) for q in r for a in (q if isinstance(q, list) else [q])]
    return [np.asarray(r)]


def same(a, b):
    a, b = parts(a), parts(b)
    return len(a) == len(b) and all(p.shape == q.shape and np.allclose(p, q, atol=1e-9) for p, q in zip(a, b))


def relaxed(ctx, ei):
    """relaxed=True is passed on: batches of frustrated loopy instances give the single relaxed results"""
    e = relaxed_entries()[ei]
    model = e.make()
    nx = len(e.xs)
    for wi, w in enumerate(frustrate(e)):
        for L in (0, 1, 2, 3):
            seq = [(wi + k * k) % nx for k in range(L)]
            tabs = [e.table(s)[0] for s in seq]
            X = [e.xs[s] for s in seq]
            Y = [t[(3 * k + wi) % len(t)] for k, t in enumerate(tabs)]
            for rel in (True, False):
                with ctx.case(lambda: dict(model=e.name, X=X, Y=Y, w=w, relaxed=rel)):
                    single = [model.inference(x, w, relaxed=rel) for x in X]
                    got = list(model.batch_inference(X, w, relaxed=rel))
                    ctx.did()
                    ctx.outcome((ei, rel, L, tuple(len(parts(r)) for r in single)))
                    ctx.check(len(got) == L and all(same(a, b) for a, b in zip(got, single)),
                              "batch and single inference differ (relaxed=%s)" % rel, batch=got, single=single)
                    single = [model.loss_augmented_inference(x, y, w, relaxed=rel) for x, y in zip(X, Y)]
                    got = list(model.batch_loss_augmented_inference(X, Y, w, relaxed=rel))
                    ctx.did()
                    ctx.check(len(got) == L and all(same(a, b) for a, b in zip(got, single)),
                              "batch and single loss-augmented inference differ (relaxed=%s)" % rel,
                              batch=got, single=single)
                    # relaxed results can be handed to the batch operations
                    psi = model.batch_joint_feature(X, got)
                    want = sum([model.joint_feature(x, r) for x, r in zip(X, got)], np.zeros(e.d))
                    ctx.check(np.allclose(psi, want, atol=1e-9), "batch joint feature of relaxed results", got=psi,
                              expected=want)
                    ls = model.batch_loss(Y, got)
                    want = [model.loss(y, r) for y, r in zip(Y, got)]
                    ctx.check(np.allclose(ls, want), "batch loss of relaxed results", got=ls, expected=want)


def shards(tier):
    T = tier == "thorough"
    out = []
    for g in ("base", "typed", "latent", "tree_lp"):
        for ei, e in enumerate(entries(g)):
            out.append(("run", (g, ei, (4 if e.batch_arrays else 3 if g in ("base", "latent") else 2)
                                + (1 if T else 0))))
    out += [("relaxed", (ei,)) for ei in range(len(relaxed_entries()))]
    return out
