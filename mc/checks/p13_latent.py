"""Latent completion: consistent with the given labels and the best among the consistent ones."""
import numpy as np

from .. import graphs as G
from .. import zoo
from .p04_prediction import entries

PROPERTY = "P13"
LEVEL = "model_checking"
RULE = ("one state per (latent model, instance, visible labels, weights): the real latent() is compared "
        "with brute force over all consistent hidden states; one state per (latent model, data set) for "
        "the initial hidden states")
BOUNDS = ("latent graph, grid, directional grid, node and edge-feature node models on forests (at most 4 "
          "nodes, 2..4 hidden states), every visible labeling, weights with at most k nonzero entries from "
          "{1,-1,-150,150} and generic ones up to 20; every cyclic data set of up to 3 instances")
ASSUMPTIONS = ["unary and pairwise weights within two orders of magnitude of one another"]


def weights(e, k):
    for w in G.sparse_vectors(e.d, k):
        yield e.proj(w)
    for s in range(4):
        yield e.proj(G.generic(e.d, 100 + s, scale=2))
        yield e.proj(G.generic(e.d, 200 + s, scale=20))
    # large weights: all labels strongly disliked or liked
    for c in (-150., 150., -1000.):
        for w in G.sparse_vectors(e.d, 1, (c,)):
            yield e.proj(w)
        yield e.proj(np.full(e.d, c) + np.arange(e.d))
        w = np.full(e.d, c) + np.arange(e.d)
        w[e.d // 2:] = 0
        yield e.proj(w)
        w = np.zeros(e.d)
        w[e.d // 2:] = c + np.arange(e.d - e.d // 2)
        yield e.proj(w)


def run(ctx, ei, k):
    e = entries("latent")[ei]
    for xi, x in enumerate(e.xs):
        hs, Psi = e.table(xi)
        index = {e.key(h): i for i, h in enumerate(hs)}
        model = e.make()
        lab = [tuple(np.asarray(e.to_label(x, h)).ravel().tolist()) for h in hs]
        for h, l in zip(hs, lab):
            with ctx.case(lambda: dict(model=e.name, h=h)):
                got = model.label_from_latent(h)
                ctx.did()
                ctx.check(tuple(np.asarray(got).ravel().tolist()) == l, "label_from_latent", got=got,
                          expected=l)
        vis = e.visible_labels(x)
        cons = {tuple(v.ravel().tolist()): np.array([i for i, l in enumerate(lab)
                                                    if l == tuple(v.ravel().tolist())]) for v in vis}
        for w in weights(e, k):
            sc = Psi.dot(w)
            tol = 1e-9 * (1 + np.abs(w).sum())
            for y in vis:
                q = ctx.idx % 7
                yy = y.astype(("uint8", "int8", "int32")[q]) if q < 3 else y
                with ctx.case(lambda: dict(model=e.name, x=x, y=yy, w=w)):
                    h = model.latent(x, yy, w)
                    ctx.did()
                    i = index.get(e.key(h))
                    ctx.check(i is not None and np.shape(h) == np.shape(hs[0]), "invalid hidden states", h=h)
                    c = cons[tuple(y.ravel().tolist())]
                    ctx.check(i in c, "hidden states belong to other labels", h=h)
                    ctx.check(sc[i] >= sc[c].max() - max(tol, 1e-6), "hidden states score %r, the best "
                              "consistent ones %r" % (sc[i], sc[c].max()), h=h)
                    ctx.outcome((ei, xi, i))
            # predictions and loss-augmented predictions never mix state spaces
            with ctx.case(lambda: dict(model=e.name, x=x, w=w)):
                h = model.inference(x, w)
                ctx.did()
                i = index.get(e.key(h))
                ctx.check(i is not None, "prediction outside the hidden label space", h=h)
                ctx.check(sc[i] >= sc.max() - max(tol, 1e-6), "prediction scores %r, the best %r"
                          % (sc[i], sc.max()), h=h)


def init(ctx, ei):
    e = entries("latent")[ei]
    grid = getattr(e, "grid", False)
    for n in (1, 2, 3):
        for off in range(4):
            for xi in range(len(e.xs)):
                sel = [xi] * n if grid else [(xi + j) % len(e.xs) for j in range(n)]
                X = [e.xs[i] for i in sel]
                Y = [e.visible_labels(x)[(off * 3 + 2 * j + 1) % len(e.visible_labels(x))]
                     for j, x in enumerate(X)]
                # k-means needs at least as many nodes per label as states per label
                if not enough(e, X, Y):
                    continue
                with ctx.case(lambda: dict(model=e.name, X=X, Y=Y)):
                    model = e.make()
                    np.random.seed(0)
                    if (n + off) % 2:
                        Y = [y.astype("uint8") for y in Y]
                    if grid:
                        X, Y = np.array(X), np.array(Y)
                    H = model.init_latent(X, Y)
                    ctx.did()
                    ctx.check(len(H) == len(X), "%d hidden labelings for %d instances" % (len(H), len(X)))
                    for x, y, h in zip(X, Y, H):
                        keys = set(e.key(q) for q in e.labels(x))
                        ctx.check(e.key(h) in keys, "initial hidden states are invalid", h=h)
                        ctx.check(np.array_equal(np.asarray(e.to_label(x, h)).ravel(), y.ravel()),
                                  "initial hidden states belong to other labels", h=h, y=y)
                        ctx.outcome((ei, e.key(h)))


def enough(e, X, Y):
    if hasattr(e, "nvis"):
        nh = sum(x[-1] for x in X)
        return nh >= e.S - e.nL and all(x[1].size and np.max(x[1]) == e.nvis(x) + x[-1] - 1 for x in X)
    nspl = e.nspl
    al = np.hstack([np.ravel(y) for y in Y])
    return all(np.sum(al == l) >= nspl[l] for l in np.unique(al))


def init_no_hidden(ctx):
    """Instances without hidden nodes among others."""
    from pystruct.models import LatentNodeCRF
    for order in ((0, 1), (1, 0), (0, 1, 1), (1, 0, 0)):
        for feats in (False, True):
            m = LatentNodeCRF(n_labels=2, n_features=1, n_hidden_states=2, latent_node_features=feats,
                              inference_method="max-product")
            xs = [(zoo.feats(2, 1), G.earr([(0, 1)]), 0),
                  (zoo.feats(2 + (2 if feats else 0), 1), G.earr([(0, 2), (1, 3)]), 2)]
            X = [xs[i] for i in order]
            Y = [np.array([0, 1])] * len(X)
            with ctx.case(dict(X=X, Y=Y, latent_node_features=feats)):
                np.random.seed(0)
                H = m.init_latent(X, Y)
                ctx.did()
                for x, y, h in zip(X, Y, H):
                    ctx.check(len(h) == 2 + x[2], "%d states for %d nodes" % (len(h), 2 + x[2]))
                    ctx.check(np.array_equal(h[:2], y) and np.all(np.asarray(h[2:]) >= 2)
                              and np.all(np.asarray(h[2:]) < 4), "invalid states", h=h)


STAR_MODELS = ("graph", "node", "node-features", "edge-feature-node")


def star_model(kind):
    from pystruct.models import LatentGraphCRF, LatentNodeCRF, EdgeFeatureLatentNodeCRF
    if kind == "graph":
        return LatentGraphCRF(2, 1, 2, inference_method="max-product")
    if kind == "edge-feature-node":
        return EdgeFeatureLatentNodeCRF(n_labels=2, n_features=1, n_edge_features=1, n_hidden_states=2,
                                        inference_method="max-product", latent_node_features=False)
    return LatentNodeCRF(n_labels=2, n_features=1, n_hidden_states=2, inference_method="max-product",
                         latent_node_features=kind == "node-features")


def stars(ctx, kind, degrees, k):
    """Nodes with many neighbors: the states that are ruled out stay ruled out whatever the neighbors prefer.

    The best labeling of a star is known in closed form: every leaf is best given the center.
    """
    from pystruct.utils import expand_sym
    m = star_model(kind)
    S = 4
    m.initialize([toy_star(kind, 2)], [np.array([0, 1, 1])[: 3 if kind == "graph" else 2]])
    nu = m.size_joint_feature - (16 if kind == "edge-feature-node" else 10)
    for deg in degrees:
        x = toy_star(kind, deg)
        n = deg + 1
        # the center is the last node (it is hidden in the node models)
        allowed_all = np.ones((n, S), bool)
        if kind != "graph":
            allowed_all[:deg, 2:] = False
            allowed_all[deg, :2] = False
        nvis = n if kind == "graph" else deg
        ys = [np.zeros(nvis, int), np.ones(nvis, int), np.arange(nvis) % 2, (np.arange(nvis) == nvis - 1).astype(int),
              (np.arange(nvis) != nvis - 1).astype(int)]
        for w in star_weights(m.size_joint_feature, nu, k):
            U = np.zeros((n, S))
            if kind == "graph":
                U += w[:4]
            elif kind == "node-features":
                U += w[:4]
            else:
                U[:deg, :2] = w[:2]
            P = w[nu:].reshape(4, 4) if kind == "edge-feature-node" else expand_sym(w[nu:])

            def score(h):
                return U[np.arange(n), h].sum() + P[h[:deg], h[deg]].sum()

            def best(allowed):
                Z = np.where(allowed, U, -np.inf)
                v = Z[deg] + np.max(Z[:deg, :, None] + P[None], axis=1).sum(axis=0)
                return v.max()
            for y in ys:
                allowed = allowed_all.copy()
                if kind == "graph":
                    allowed &= (np.arange(S) // 2)[None] == y[:, None]
                else:
                    allowed[:nvis] &= np.arange(S)[None] == y[:, None]
                with ctx.case(lambda: dict(kind=kind, degree=deg, y=y, w=w)):
                    h = np.asarray(m.latent(x, y, w))
                    ctx.did()
                    ctx.check(h.shape == (n,) and allowed[np.arange(n), h].all(), "hidden states belong to other labels", h=h)
                    b = best(allowed)
                    ctx.check(score(h) >= b - 1e-9 * (1 + abs(b)), "hidden states score %r, the best consistent ones %r"
                              % (score(h), b), h=h)
                    ctx.outcome((kind, deg, tuple(h[-2:])))
            with ctx.case(lambda: dict(kind=kind, degree=deg, w=w)):
                h = np.asarray(m.inference(x, w))
                ctx.did()
                ctx.check(h.shape == (n,) and allowed_all[np.arange(n), h].all(), "prediction mixes labels and hidden states",
                          h=h)
                b = best(allowed_all)
                ctx.check(score(h) >= b - 1e-9 * (1 + abs(b)), "prediction scores %r, the best %r" % (score(h), b), h=h)


def star_weights(d, nu, k):
    for w in G.sparse_vectors(d, k, (1., -1.)):
        yield w
    for s in range(4):
        yield G.generic(d, 300 + s, scale=1)
    # every way of liking / disliking a state pair
    for bits in range(64):
        w = np.zeros(d)
        w[nu:] = [1. if bits >> (i % 6) & 1 else -1. for i in range(d - nu)]
        yield w


def toy_star(kind, deg):
    edges = G.earr([(i, deg) for i in range(deg)])
    if kind == "graph":
        return (np.ones((deg + 1, 1)), edges)
    if kind == "node-features":
        return (np.ones((deg + 1, 1)), edges, 1)
    if kind == "node":
        return (np.ones((deg, 1)), edges, 1)
    return (np.ones((deg, 1)), edges, np.ones((deg, 1)), 1)


def shards(tier):
    T = tier == "thorough"
    out = []
    for ei, e in enumerate(entries("latent")):
        out.append(("run", (ei, 2 + T if e.d < 14 else 1 + T)))
        out.append(("init", (ei,)))
    for kind in STAR_MODELS:
        for deg in ((1, 2, 20), (49, 50, 51), (60, 100), (250,)) + (((1000,), (75, 150)) if T else ()):
            out.append(("stars", (kind, deg, 1 + T)))
    return out + [("init_no_hidden", ())]
