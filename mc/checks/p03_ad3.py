"""AD3 and AD3+ wrappers: exact with branch and bound and on forests, honest energies and marginals."""
import numpy as np

from .. import graphs as G
from .. import refs as R
from .p02_lp import graphs_list, polytope, value

PROPERTY = "P03"
LEVEL = "model_checking"
RULE = ("one state per (graph, orientation, state count, potential assignment, method, options); the "
        "real result is compared with brute force over labelings")
BOUNDS = ("all simple graphs on 1..3 nodes (4 nodes: trees, 4-cycle, K4), 2..3 states, potentials with "
          "few nonzero entries and generic potentials whose maximiser is unique by a margin")
ASSUMPTIONS = ["maximiser unique by 1e-2 (ties may be broken arbitrarily or stay fractional)",
               "the AD3 library itself is outside the repository"]
MARGIN = 1e-2


def _f():
    from pystruct.inference import inference_dispatch
    return inference_dispatch


def one(ctx, f, u, pw, edges, method):
    n, S = u.shape
    e = G.earr(edges)
    sc = R.all_scores(u, pw, edges)
    srt = np.sort(sc)
    if len(srt) > 1 and srt[-1] - srt[-2] < MARGIN:
        return
    best = srt[-1]
    scale = 1. + np.abs(u).sum() + np.abs(pw).sum()
    forest = G.is_forest_ref(n, edges)
    with ctx.case(lambda: dict(unary=u, pairwise=pw, edges=e, method=method)):
        u0, p0 = u.copy(), pw.copy()
        # exact mode
        y, en = f(u, pw, e, (method, {'branch_and_bound': True}), return_energy=True)
        ctx.did()
        ctx.check(R.valid_labels(y, n, S), "invalid labeling", y=y)
        s = R.score(u, pw, edges, y)
        ctx.check(abs(s - best) < 1e-9 * scale, "branch and bound returned score %r, the maximum is %r"
                  % (s, best), y=y)
        ctx.check(abs(en + best) < 1e-3 * scale, "reported energy %r for a solution of score %r"
                  % (en, best))
        # plain mode
        y, en = f(u, pw, e, method, return_energy=True)
        y2 = f(u, pw, e, method)
        ctx.did(2)
        ctx.check(R.valid_labels(y, n, S) and np.array_equal(y, y2),
                  "invalid labeling, or labels depend on return_energy", y=y, y2=y2)
        ctx.check(-en >= best - 1e-3 * scale, "reported energy %r is above that of the best labeling "
                  "(%r)" % (en, -best))
        if forest:
            s = R.score(u, pw, edges, y)
            ctx.check(abs(s - best) < 1e-9 * scale, "on a forest: score %r, maximum %r" % (s, best), y=y)
            ctx.check(abs(en + best) < 1e-3 * scale, "energy %r on a forest, maximum %r" % (en, best))
        # relaxed mode: labels if integral, otherwise marginals
        r, en = f(u, pw, e, method, relaxed=True, return_energy=True)
        ctx.did()
        if isinstance(r, tuple):
            mu, nu = np.asarray(r[0]), np.asarray(r[1])
            ctx.check(not forest, "fractional solution on a forest with a unique maximiser", mu=mu)
            polytope(ctx, mu, nu, edges, n, S, tol=2e-2)
            val = value(u, pw, mu, nu)
            ctx.check(val >= best - 2e-2 * scale, "relaxed value %r below best labeling %r" % (val, best))
            ctx.check(abs(val + en) < 2e-2 * scale, "energy %r of marginals worth %r" % (en, val))
            ctx.outcome("fractional")
        else:
            ctx.check(R.valid_labels(r, n, S), "invalid labeling", y=r)
            s = R.score(u, pw, edges, r)
            ctx.check(abs(s - best) < 1e-9 * scale, "relaxed=True returned a labeling of score %r, "
                      "maximum %r" % (s, best))
            ctx.check(abs(en + s) < 1e-3 * scale, "energy %r of labels of score %r" % (en, s))
            ctx.outcome(tuple(int(v) for v in r))
        ctx.check(np.array_equal(u, u0) and np.array_equal(pw, p0), "input potentials modified")
        # one shared matrix is the same as repeating it
        if method == "ad3" and len(edges) and all(np.array_equal(q, pw[0]) for q in pw):
            ys, es = f(u, pw[0].copy(), e, (method, {'branch_and_bound': True}), return_energy=True)
            ctx.did()
            ctx.check(abs(R.score(u, pw, edges, ys) - best) < 1e-9 * scale
                      and abs(es + best) < 1e-3 * scale,
                      "a shared pairwise matrix gives a different solution", y=ys, energy=es)


def run(ctx, n, S, k, seeds, method, part, nparts):
    f = _f()
    c = 0
    for es in graphs_list(n):
        if any(es.count(a) + es.count(a[::-1]) > 1 for a in es):
            continue
        for oes in (list(G.orientations(es)) if len(es) <= 2 else [es, [(b, a) for a, b in es]]):
            ne = len(oes)
            vs = list(G.sparse_vectors(n * S + ne * S * S, k)) if k else []
            vs += [G.generic(n * S + ne * S * S, seed, scale=[1, 4, 16][seed % 3])
                   for seed in range(seeds)]
            # a unique maximiser with few other entries: bias every node towards one state
            for v in list(vs[:200]):
                b = v.copy()
                b[:n * S] += np.tile(np.arange(S) * .25, n)
                vs.append(b)
            # frustrated: no unary preference worth speaking of, strong repulsion
            fr = np.zeros(n * S + ne * S * S)
            fr[:n * S] = np.linspace(0, .3, n * S) ** 2
            fr[n * S:] = np.tile(-2 * np.eye(S).ravel(), ne)
            vs.append(fr)
            for seed in range(3):
                v = G.generic(n * S + ne * S * S, 50 + seed, scale=3)
                v[n * S:] = np.tile(np.resize(v, S * S), ne)
                vs.append(v)
            for v in vs:
                c += 1
                if c % nparts == part:
                    one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), oes, method)


def raises(f):
    from pystruct.inference.inference_methods import InferenceException
    try:
        return f(), False
    except InferenceException:
        return None, True


def exceptions(ctx, method, n, S):
    """inference_exception: raised exactly if the (unrounded) solution is fractional, otherwise no influence"""
    f = _f()
    for es in graphs_list(n):
        if any(es.count(a) + es.count(a[::-1]) > 1 for a in es):
            continue
        ne = len(es)
        for seed in range(8):
            v = G.generic(n * S + ne * S * S, seed, scale=2)
            if seed % 2:
                v[:n * S] *= .05
                v[n * S:] = np.tile(-2 * np.eye(S).ravel(), ne)
            u, p, e = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), G.earr(es)
            for bb in (False, True):
                with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, method=method, branch_and_bound=bb)):
                    soft = f(u, p, e, (method, dict(branch_and_bound=bb)), relaxed=True)
                    hard = f(u, p, e, (method, dict(branch_and_bound=bb)))
                    frac = isinstance(soft, tuple)
                    for on in (True, False, None):
                        o = (method, dict(branch_and_bound=bb, inference_exception=on))
                        r, exc = raises(lambda: f(u, p, e, o))
                        ctx.check(exc == (frac and bool(on)), "inference_exception=%r, the solution is %s: exception %r"
                                  % (on, "fractional" if frac else "integral", exc))
                        ctx.check(exc or np.array_equal(r, hard), "inference_exception=%r changes the labels" % on)
                        r, exc = raises(lambda: f(u, p, e, o, relaxed=True, return_energy=True))
                        ctx.check(not exc and isinstance(r[0], tuple) == frac, "relaxed inference with inference_exception=%r: exception %r" % (on, exc))
                        ctx.did(2)
                    ctx.outcome((n, frac, bb))


def typed_exceptions(ctx, method):
    """setInferenceException of models with several node types"""
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF
    m = NodeTypeEdgeFeatureGraphCRF(2, [2, 2], [1, 1], [[1, 1], [1, 1]], inference_method=method)
    m.initialize([([np.ones((1, 1)), np.ones((1, 1))], [np.zeros((0, 2), int)] * 4, [np.zeros((0, 1))] * 4)])
    none = np.zeros((0, 2), int)
    xs = [([np.array([[1.], [.5]]), np.array([[.25]])], [G.earr([(0, 1)]), G.earr([(0, 0), (1, 0)]), none, none]),
          ([np.array([[.5]]), np.array([[.25], [1.]])], [none, G.earr([(0, 0)]), G.earr([(1, 0)]), G.earr([(0, 1)])]),
          ([np.array([[1.]]), np.array([[.5]])], [none, G.earr([(0, 0)]), none, none])]
    for xi, (nf, ed) in enumerate(xs):
        x = (nf, ed, [np.ones((len(q), 1)) for q in ed])
        n = sum(len(a) for a in nf)
        for seed in range(24):
            w = G.generic(m.size_joint_feature, seed, scale=2)
            if seed % 3:
                k = 4       # unary weights
                w[:k] *= .1
                w[k:] = np.tile((-2 - seed % 5) * np.eye(2).ravel(), (len(w) - k) // 4)
            y = np.concatenate([np.zeros(len(nf[0]), int), 2 + np.zeros(len(nf[1]), int)])
            with ctx.case(lambda: dict(instance=xi, w=w, method=method)):
                m.setInferenceException(False)
                for name, call in (("inference", lambda **k: m.inference(x, w, **k)),
                                   ("loss-augmented inference", lambda **k: m.loss_augmented_inference(x, y, w, **k)),
                                   ("batch", lambda **k: m.batch_inference([x], w, **k)[0]),
                                   ("batch, loss-augmented", lambda **k: m.batch_loss_augmented_inference([x], [y], w, **k)[0])):
                    m.setInferenceException(False)
                    soft, hard = call(relaxed=True), call(relaxed=False)
                    frac = isinstance(soft, tuple)
                    for on in (True, False, True):
                        ctx.check(m.setInferenceException(on) == on, "return value of setInferenceException")
                        r, exc = raises(lambda: call(relaxed=False))
                        ctx.check(exc == (frac and on), "setInferenceException(%r), the solution of %s is %s: exception %r"
                                  % (on, name, "fractional" if frac else "integral", exc))
                        ctx.check(exc or np.array_equal(r, hard), "setInferenceException(%r) changes the labels" % on)
                        r, exc = raises(lambda: call(relaxed=True))
                        ctx.check(not exc and isinstance(r, tuple) == frac, "relaxed %s with setInferenceException(%r)" % (name, on))
                        ctx.did(2)
                    ctx.outcome((xi, name, frac))


def shards(tier):
    T = tier == "thorough"
    out = []
    for method in ("ad3", "ad3+"):
        for n, S, k, seeds, parts in [(1, 2, 2, 3, 1), (1, 3, 2, 3, 1), (2, 2, 2, 9, 2), (2, 3, 2, 9, 2),
                                      (3, 2, 2, 9, 8), (3, 3, 1, 6, 4), (4, 2, 1, 6, 4),
                                      (4, 3, 0 + T, 6, 4)]:
            for part in range(parts):
                out.append(("run", (n, S, k, seeds * (4 if T else 1), method, part, parts)))
    out += [("exceptions", (m, n, S)) for m in ("ad3", "ad3+") for n, S in ((2, 2), (3, 2), (3, 3), (4, 2))]
    out += [("typed_exceptions", (m,)) for m in ("ad3", "ad3+")]
    return out
