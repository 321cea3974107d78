"""Loss-augmented inference maximises score plus loss."""
import numpy as np

from .. import large
from .. import zoo
from .p04_prediction import entries, unique_margin, MARGIN

PROPERTY = "P05"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, ground truth, weight vector); the labelling "
        "returned by the real loss-augmented inference is scored with independent definitions of "
        "joint features and loss and compared with the maximum over every labelling")
BOUNDS = ("the model configurations of P04 (its large forests with 5..9 ground truths), every ground-truth labelling of every instance, weight "
          "vectors with at most k nonzero entries from {1,-1} plus generic ones; class weights where "
          "the model has them")
ASSUMPTIONS = ["tolerance 1e-6 relative to the weights"]


def run(ctx, group, ei, k, part, nparts):
    e = entries(group)[ei]
    n = 0
    model = e.make()
    rescale = getattr(e, "rescale_C", False)
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        index = {e.key(y): i for i, y in enumerate(ys)}
        stride = 1 if len(ys) <= 30 else 3
        for ti, yt in enumerate(ys):
            if ti % stride:
                continue
            loss = e.loss_row(x, yt, ys)
            P = Psi if not rescale else np.array([e.psi(x, y, yt) for y in ys])
            for w in e.weights(k):
                n += 1
                if n % nparts != part:
                    continue
                sc = P.dot(w) + loss
                if e.exact == "unique" and unique_margin(sc) < MARGIN:
                    continue
                yy = yt
                if n % 7 == 3 and isinstance(yt, np.ndarray) and yt.ndim:
                    yy = yt.astype(("uint8", "int8", "int32", "int16")[n % 4])
                with ctx.case(lambda: dict(model=e.name, x=x, y=yy, w=w)):
                    yh = model.loss_augmented_inference(x, yy, w)
                    ctx.did()
                    i = index.get(e.key(yh))
                    ctx.check(i is not None, "result is not in the label space", got=yh)
                    ctx.outcome((ei, xi, ti, i))
                    ctx.check(sc[i] >= sc.max() - 1e-6 * max(1., np.abs(w).max()),
                              "score+loss of the returned labelling is %r, the maximum is %r"
                              % (sc[i], sc.max()), returned=yh, best=ys[int(np.argmax(sc))])


def big(ctx, ei):
    """Forests of up to 300 nodes and models of up to 300 states: the maximum is found by leaf elimination."""
    e, pot = large.entries(ei)
    model = e.make()
    cw = np.ones(e.S) if e.cw is None else np.asarray(e.cw, float)
    for xi, x in enumerate(e.xs):
        edges = e.edges(x)
        n = e.nodes(x)
        shape = x.shape[:2] if getattr(e, "grid", False) else (n,)
        for w in large.weights(e, few=True):
            U0, P = pot(x, w)
            for k, y in enumerate(large.labelings(e, x, many=e.S < 40)):
                U = U0.copy()
                yf = y.ravel()
                for i in range(n):
                    U[i] += cw[yf[i]]
                    U[i, yf[i]] -= cw[yf[i]]
                best = large.forest_best(U, P, edges)
                yy = y.astype("int32") if k == 1 else y.astype("uint8") if k == 2 and e.S < 256 else y
                with ctx.case(lambda: dict(model=e.name, instance=xi, y=yy, w=w)):
                    yh = np.asarray(model.loss_augmented_inference(x, yy, w))
                    ctx.did()
                    ctx.check(yh.shape == shape and np.all((yh >= 0) & (yh < e.S)), "result is not in the label space", got=yh)
                    s = large.score(U, P, edges, yh)
                    ctx.outcome((ei, xi, k, yh.tobytes()))
                    ctx.check(s >= best - 1e-6 * max(1., np.abs(w).max(), abs(best)),
                              "score+loss of the returned labelling is %r, the maximum is %r" % (s, best))


def shards(tier):
    T = tier == "thorough"
    out = []
    for group, parts in (("base", 4), ("loopy", 8), ("tree_lp", 8), ("typed", 8), ("latent", 8)):
        for ei, e in enumerate(entries(group)):
            k = 2 if (group == "base" and e.d <= 9) or e.d <= 5 else 1
            p = parts * (4 if T else 1)
            for part in range(p):
                out.append(("run", (group, ei, k + (1 if T else 0), part, p)))
    return out + [("big", (ei,)) for ei in range(large.count())]
