"""Every model predicts a maximiser of its own linear score."""
import numpy as np

from .. import large
from .. import zoo

PROPERTY = "P04"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, weight vector); the real prediction is scored "
        "with an independently defined joint feature vector and compared with the maximum over "
        "every labelling")
BOUNDS = ("all models (graph, chain, grid, directional grid, edge-feature, multi-label, binary, "
          "multi-class, latent graph/grid/node, multi-type) with 1..4 states and 1..3 features on "
          "graphs of at most 4 (grids: 6) nodes, and on forests of up to 300 nodes or with up to 300 states; weight vectors with at most k nonzero entries from "
          "{1,-1} plus generic ones; forests with max-product/lp/ad3, loopy graphs with AD3 branch "
          "and bound (lp/ad3: weights whose maximiser is unique)")
ASSUMPTIONS = ["scores compared with tolerance 1e-6 relative to the weights"]
MARGIN = 1e-2


def entries(group):
    return getattr(zoo, group + "_entries")()


def unique_margin(sc):
    if len(sc) == 1:
        return np.inf
    a = np.partition(sc, -2)
    return a[-1] - a[-2]


def run(ctx, group, ei, k, part, nparts):
    e = entries(group)[ei]
    n = 0
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        index = {e.key(y): i for i, y in enumerate(ys)}
        model = e.make()
        ctx.check(model.size_joint_feature == e.d, "joint feature size %r, documented %r"
                  % (model.size_joint_feature, e.d))
        for w in e.weights(k):
            n += 1
            if n % nparts != part:
                continue
            sc = Psi.dot(w)
            if e.exact == "unique" and unique_margin(sc) < MARGIN:
                continue
            with ctx.case(lambda: dict(model=e.name, x=x, w=w)):
                y = model.inference(x, w)
                ctx.did()
                i = index.get(e.key(y))
                ctx.check(i is not None, "prediction is not in the label space", got=y)
                ctx.outcome((ei, xi, i))
                ctx.check(sc[i] >= sc.max() - 1e-6 * max(1., np.abs(w).max()),
                          "predicted labelling scores %r, the best one %r" % (sc[i], sc.max()),
                          predicted=y, best=ys[int(np.argmax(sc))])


def big(ctx, ei):
    """Forests of up to 300 nodes and models of up to 300 states: the maximum is found by leaf elimination."""
    e, pot = large.entries(ei)
    model = e.make()
    for xi, x in enumerate(e.xs):
        edges = e.edges(x)
        n = e.nodes(x)
        shape = x.shape[:2] if getattr(e, "grid", False) else (n,)
        for wi, w in enumerate(large.weights(e)):
            U, P = pot(x, w)
            best = large.forest_best(U, P, edges)
            with ctx.case(lambda: dict(model=e.name, instance=xi, w=w)):
                y = np.asarray(model.inference(x, w))
                ctx.did()
                ctx.check(y.shape == shape and np.all((y >= 0) & (y < e.S)) and y.dtype.kind in "iu",
                          "prediction is not in the label space", got=y)
                s = large.score(U, P, edges, y)
                ctx.outcome((ei, xi, y.tobytes()))
                ctx.check(s >= best - 1e-6 * max(1., np.abs(w).max(), abs(best)), "predicted labeling scores %r, the best one %r"
                          % (s, best))
                if wi % 5 == 0:
                    # the harness's potentials mean the documented joint feature
                    assert abs(s - e.psi(x, y).dot(w)) < 1e-6 * (1 + abs(s))


def shards(tier):
    T = tier == "thorough"
    out = []
    for group, parts in (("base", 1), ("loopy", 2), ("tree_lp", 2), ("typed", 2), ("latent", 2)):
        for ei, e in enumerate(entries(group)):
            k = 2 if e.d <= 12 or group == "base" else 1
            if T:
                k += 1
            p = parts * (8 if T else 1)
            for part in range(p):
                out.append(("run", (group, ei, k, part, p)))
    return out + [("big", (ei,)) for ei in range(large.count())]
