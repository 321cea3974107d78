"""Reported energies are the energies of the reported labels; unary inference; dispatch errors."""
import numpy as np

from .. import graphs as G
from .. import refs as R
from .. import zoo
from .p04_prediction import entries, unique_margin

PROPERTY = "P07"
LEVEL = "model_checking"
RULE = ("one state per (function or model, method, instance, potentials or weights); returned energy "
        "and labels compared with independent scoring")
BOUNDS = ("all labelled simple graphs on 1..3 nodes (4: trees), 1..3 states, sparse and generic "
          "potentials, every labeling for energy evaluation; models of P04 with sparse weights")
ASSUMPTIONS = ["solver accuracy 1e-3 relative for lp/ad3 energies (compared on unique maximisers)"]


def evaluation(ctx, n, S):
    from pystruct.inference import compute_energy
    for es in list(G.simple_graphs(n)) + ([[(0, 1), (0, 1), (1, 0)], [(0, 0), (0, 1), (1, 1)]] if n == 2 else []):
        for oes in (es, [(b, a) for a, b in es]):
            ne = len(oes)
            v = G.generic(n * S + ne * S * S, n * 10 + S)
            u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
            m = np.resize(v[::-1], S * S).reshape(S, S)
            rep = np.repeat(m[None], ne, axis=0).reshape(ne, S, S)
            for t in R.labelings(n, S):
                y = np.array(t, int)
                with ctx.case(lambda: dict(unary=u, pairwise=p, edges=oes, y=y)):
                    got = compute_energy(u, p, G.earr(oes), y)
                    ctx.did()
                    ctx.check(abs(got - R.score(u, p, oes, y)) < 1e-9,
                              "energy %r of a labeling of score %r" % (got, R.score(u, p, oes, y)))
                    got = compute_energy(u, m, G.earr(oes), y)
                    ctx.check(abs(got - R.score(u, rep, oes, y)) < 1e-9, "shared matrix: energy %r, score %r"
                              % (got, R.score(u, rep, oes, y)))
                    ctx.outcome(got)


def dispatch(ctx, n, S, seeds):
    from pystruct.inference import inference_dispatch
    for es in G.simple_graphs(n) if n < 4 else G.trees(n):
        ne = len(es)
        forest = G.is_forest_ref(n, es)
        for seed in range(seeds):
            v = G.generic(n * S + ne * S * S, seed, scale=2)
            u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
            e = G.earr(es)
            sc = R.all_scores(u, p, es)
            tol = 1e-3 * (1 + np.abs(v).sum())
            for method in ("max-product", "unary", "ad3", "lp", "ad3+"):
                with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, method=method)):
                    y0 = inference_dispatch(u, p, e, method)
                    r = inference_dispatch(u, p, e, method, return_energy=True)
                    ctx.did(2)
                    ctx.check(isinstance(r, tuple) and len(r) == 2,
                              "return_energy=True did not return (labels, energy)", got=r)
                    y, en = r
                    ctx.check(R.valid_labels(y, n, S), "invalid labels", y=y)
                    ctx.check(np.array_equal(y, y0), "labels depend on return_energy", y=y, y0=y0)
                    s = R.score(u, p, es, y)
                    if method == "unary":
                        for i in range(n):
                            ctx.check(u[i, y[i]] == u[i].max(), "unary inference did not take the "
                                      "best state of node %d" % i, y=y)
                    if method in ("max-product", "unary"):
                        ctx.check(abs(en + s) < tol * 1e-6, "energy %r of labels of score %r" % (en, s))
                    elif forest and unique_margin(sc) > 1e-2:
                        ctx.check(abs(en + s) < tol, "energy %r of labels of score %r" % (en, s))
                    else:
                        ctx.check(-en > sc.max() - tol, "energy %r above that of the best labeling %r"
                                  % (en, -sc.max()))
                    ctx.outcome((method, tuple(int(q) for q in y)))


def unary_ties(ctx, S):
    from pystruct.inference import inference_dispatch
    import itertools
    for n in (1, 2):
        for vals in itertools.product((-1., 0., 1.), repeat=n * S):
            u = np.array(vals).reshape(n, S)
            for e in ([], [(0, 1)]) if n == 2 else ([],):
                p = np.full((len(e), S, S), 5.)
                with ctx.case(lambda: dict(unary=u, edges=e)):
                    y = inference_dispatch(u, p, G.earr(e), "unary")
                    ctx.did()
                    ctx.check(R.valid_labels(y, n, S), "invalid labels", y=y)
                    ctx.check(all(u[i, y[i]] == u[i].max() for i in range(n)), "not the best state", y=y)


def errors(ctx):
    from pystruct.inference import inference_dispatch, compute_energy
    for n in (1, 2, 3):
        for S in (1, 2, 3):
            e = G.earr([(i, i + 1) for i in range(n - 1)])
            u = np.zeros((n, S))
            good = np.zeros((n - 1, S, S))
            bad = [np.zeros((S + 1, S)), np.zeros((S + 1, S + 1)), np.zeros((n, S, S)),
                   np.zeros((n - 1, S, S + 1)), np.zeros((n - 1, S * S + 1))]
            for p in bad:
                for method in ("max-product", "lp", "ad3", "unary", None):
                    with ctx.case(lambda: dict(n=n, S=S, shape=p.shape, method=method)):
                        ctx.did()
                        try:
                            if method is None:
                                compute_energy(u, p, e, np.zeros(n, int))
                            else:
                                inference_dispatch(u, p, e, method)
                        except ValueError:
                            continue
                        ctx.check(False, "potentials of wrong shape %r accepted" % (p.shape,))
            for name in ("maxproduct", "foo", "", "AD3"):
                with ctx.case(lambda: dict(name=name)):
                    ctx.did()
                    try:
                        inference_dispatch(u, good, e, name)
                    except ValueError:
                        continue
                    ctx.check(False, "unknown inference method %r accepted" % name)


def models(ctx, group, ei, k):
    """model.inference(..., return_energy=True) on graph-structured models"""
    e = entries(group)[ei]
    if e.method is None and "MultiClass" not in e.name:      # BinaryClf knows no energies
        return
    rescale = getattr(e, "rescale_C", False)
    sign = -1. if e.method is None else 1.       # MultiClassClf reports the score itself (its tests say so)
    model = e.make()
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        index = {e.key(y): i for i, y in enumerate(ys)}
        for w in e.weights(k):
            sc = Psi.dot(w)
            scale = 1. + np.abs(w).sum() * 4
            if e.exact == "unique" and unique_margin(sc) < 1e-2:
                continue
            with ctx.case(lambda: dict(model=e.name, x=x, w=w)):
                r = model.inference(x, w, return_energy=True)
                ctx.did()
                ctx.check(isinstance(r, tuple) and len(r) == 2, "no (labels, energy) pair", got=r)
                i = index.get(e.key(r[0]))
                ctx.check(i is not None, "labels outside the label space", got=r[0])
                ctx.check(np.asarray(r[0]).shape == np.asarray(ys[0]).shape, "wrong label shape")
                ctx.check(abs(sign * r[1] + sc[i]) < 1e-3 * scale, "energy %r, labels score %r"
                          % (r[1], sc[i]))
                ctx.outcome((ei, xi, i))
            if rescale:        # slack rescaling: scores and losses are weighted afterwards
                continue
            yt = ys[xi % len(ys)]
            tot = sc + e.loss_row(x, yt, ys)
            if e.exact == "unique" and unique_margin(tot) < 1e-2:
                continue
            with ctx.case(lambda: dict(model=e.name, x=x, w=w, y=yt)):
                r = model.loss_augmented_inference(x, yt, w, return_energy=True)
                ctx.did()
                ctx.check(isinstance(r, tuple) and len(r) == 2, "no (labels, energy) pair", got=r)
                i = index.get(e.key(r[0]))
                ctx.check(i is not None, "labels outside the label space", got=r[0])
                ctx.check(abs(sign * r[1] + tot[i]) < 1e-3 * scale, "loss-augmented energy %r, score+loss %r"
                          % (r[1], tot[i]))


def shards(tier):
    T = tier == "thorough"
    out = [("evaluation", (n, S)) for n in (1, 2, 3) for S in (1, 2, 3)]
    out += [("evaluation", (4, 2))]
    out += [("dispatch", (n, S, 12 if T else 4)) for n in (1, 2, 3, 4) for S in (2, 3)]
    out += [("unary_ties", (S,)) for S in (1, 2, 3)]
    out += [("errors", ())]
    for g in ("base", "loopy", "tree_lp", "typed", "latent"):
        for ei in range(len(entries(g))):
            out.append(("models", (g, ei, 2 if T else 1)))
    return out
