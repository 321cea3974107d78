"""The LP relaxation: feasible, optimal, exact on forests, honest energies."""
import itertools

import numpy as np

from .. import graphs as G
from .. import refs as R

PROPERTY = "P02"
LEVEL = "model_checking"
RULE = ("one state per (graph, orientation, state count, potential assignment); the real relaxed and "
        "rounded solutions are compared with brute force over labelings and with an independent "
        "simplex/HiGHS solution of the local-polytope LP")
BOUNDS = ("all simple graphs on 1..3 nodes (4 nodes: all trees, all cycles, K4), parallel edges, 1..3 "
          "states, potentials with <=2 nonzero entries from {1,-1} (subset) and generic potentials "
          "with several scales (1e-3 to 1e5), frustrated odd cycles with every choice of forbidden states, shared and per-edge matrices")
ASSUMPTIONS = ["interior-point accuracy: 1e-4 on marginals, 1e-4*(1+scale) on energies"]


def local_lp(u, pw, edges):
    """Independent formulation: maximise <u,mu>+<pw,nu> over the local polytope."""
    from scipy.optimize import linprog
    n, S = u.shape
    E = len(edges)
    nv = n * S + E * S * S
    c = -np.concatenate([u.ravel(), np.asarray(pw).ravel()])
    rows, rhs = [], []
    for i in range(n):
        r = np.zeros(nv)
        r[i * S:(i + 1) * S] = 1
        rows.append(r)
        rhs.append(1.)
    for k, (a, b) in enumerate(edges):
        base = n * S + k * S * S
        for s in range(S):
            r = np.zeros(nv)
            for t in range(S):
                r[base + s * S + t] = 1
            r[a * S + s] -= 1
            rows.append(r)
            rhs.append(0.)
            r = np.zeros(nv)
            for t in range(S):
                r[base + t * S + s] = 1
            r[b * S + s] -= 1
            rows.append(r)
            rhs.append(0.)
    res = linprog(c, A_eq=np.array(rows), b_eq=rhs, bounds=(0, 1), method="highs")
    assert res.status == 0
    return -res.fun


def polytope(ctx, mu, nu, edges, n, S, tol=1e-4):
    mu, nu = np.asarray(mu), np.asarray(nu)
    ctx.check(mu.shape == (n, S), "unary marginals have shape %r" % (mu.shape,))
    ctx.check(nu.size == len(edges) * S * S and len(nu) == len(edges),
              "pairwise marginals have shape %r" % (nu.shape,))
    nu = nu.reshape(len(edges), S, S)
    ctx.check((mu > -tol).all() and (nu > -tol).all(), "negative marginals", mu=mu, nu=nu)
    ctx.check(np.allclose(mu.sum(1), 1, atol=tol), "unary marginals do not sum to one", mu=mu)
    for k, (a, b) in enumerate(edges):
        ctx.check(np.allclose(nu[k].sum(1), mu[a], atol=tol)
                  and np.allclose(nu[k].sum(0), mu[b], atol=tol),
                  "pairwise marginals disagree with unary marginals", edge=(a, b), mu=mu, nu=nu)


def value(u, pw, mu, nu):
    return float((u * mu).sum() + (np.asarray(pw).ravel() * np.asarray(nu).ravel()).sum())


def one(ctx, f, u, pw, edges, shared=None):
    n, S = u.shape
    e = G.earr(edges)
    scale = 1. + np.abs(u).sum() + np.abs(pw).sum()
    tol = 1e-4 * scale
    with ctx.case(lambda: dict(unary=u, pairwise=pw if shared is None else shared, edges=e)):
        p = pw if shared is None else shared
        u0, p0 = u.copy(), p.copy()
        (mu, nu), en = f(u, p, e, 'lp', relaxed=True, return_energy=True)
        ctx.did()
        polytope(ctx, mu, nu, edges, n, S)
        val = value(u, pw, mu, nu)
        sc = R.all_scores(u, pw, edges)
        best = sc.max()
        opt = local_lp(u, pw, edges)
        ctx.check(abs(val - opt) < tol, "relaxed solution has value %r, the LP optimum is %r"
                  % (val, opt))
        ctx.check(abs(-en - opt) < tol, "reported energy %r, LP optimum %r" % (en, opt))
        ctx.check(-en >= best - tol, "relaxed value below the best labeling")
        if G.is_forest_ref(n, edges):
            ctx.check(abs(-en - best) < tol, "relaxation of a forest is not tight: %r vs %r"
                      % (-en, best))
        m2 = f(u, p, e, 'lp', relaxed=True)
        ctx.did()
        ctx.check(isinstance(m2, tuple) and len(m2) == 2, "relaxed result is not a pair")
        y, en2 = f(u, p, e, 'lp', return_energy=True)
        y3 = f(u, p, e, 'lp')
        ctx.did(2)
        ctx.check(abs(en2 - en) < tol, "energy depends on relaxed flag")
        ctx.check(R.valid_labels(y, n, S) and R.valid_labels(y3, n, S), "invalid labeling", y=y)
        ctx.check(np.array_equal(y, y3), "labels depend on return_energy")
        srt = np.sort(sc)
        ctx.check(all(mu[i, y[i]] > mu[i].max() - 2e-3 for i in range(n)), "rounded labels are not the most probable states",
                  y=y, marginals=mu)
        integral = (np.max(mu, axis=1) > 1 - 1e-3).all()
        if integral:
            ctx.check(abs(R.score(u, pw, edges, y) - best) < 1e-2 * scale,
                      "integral relaxation rounded to a labeling of score %r, best %r"
                      % (R.score(u, pw, edges, y), best))
        if G.is_forest_ref(n, edges) and (len(srt) == 1 or srt[-1] - srt[-2] > 1e-2):
            ctx.check(abs(R.score(u, pw, edges, y) - best) < 1e-9 * scale,
                      "unique maximiser on a forest missed: %r vs %r"
                      % (R.score(u, pw, edges, y), best), y=y)
        ctx.outcome((bool(integral), tuple(int(v) for v in y)))
        ctx.check(np.array_equal(u, u0) and np.array_equal(p, p0), "input potentials modified")


def _f():
    from pystruct.inference import inference_dispatch
    return inference_dispatch


def graphs_list(n):
    gs = list(G.simple_graphs(n)) if n <= 3 else \
        list(G.trees(n)) + [[(0, 1), (1, 2), (2, 3), (3, 0)], G.all_pairs(4), [(0, 1)], []]
    if n == 2:
        gs = gs + [[(0, 1), (1, 0)], [(0, 1), (0, 1)]]
    if n == 3:
        gs = gs + [[(0, 1), (1, 0), (1, 2)]]
    return gs


def sparse(ctx, n, S, k, part, nparts):
    f = _f()
    c = 0
    for es in graphs_list(n):
        for oes in (list(G.orientations(es)) if len(es) <= 2 else [es, [(b, a) for a, b in es]]):
            ne = len(oes)
            for v in G.sparse_vectors(n * S + ne * S * S, k):
                c += 1
                if c % nparts == part:
                    one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), oes)


def generic(ctx, n, S, seeds, part, nparts):
    f = _f()
    c = 0
    for es in graphs_list(n):
        for oes in (list(G.orientations(es)) if len(es) <= 3 else [es]):
            for seed in range(seeds):
                c += 1
                if c % nparts != part:
                    continue
                ne = len(oes)
                v = G.generic(n * S + ne * S * S, seed, scale=[1, 4, 32][seed % 3])
                one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), oes)
                m = np.resize(v, S * S).reshape(S, S)
                if ne:
                    one(ctx, f, v[:n * S].reshape(n, S), np.repeat(m[None], ne, axis=0), oes,
                        shared=m)


def frustrated(ctx, S, part, nparts):
    """odd cycles whose relaxation is fractional, with forbidden states"""
    f = _f()
    c = 0
    for n in (3, 4):
        es = [(i, (i + 1) % n) for i in range(n)] + ([(0, 2)] if n == 4 else [])
        for bad in itertools.product(range(S + 1), repeat=n):       # state S: none forbidden
            for coupling in (1., 8.):
                c += 1
                if c % nparts != part:
                    continue
                u = np.array([[-4. * (s == bad[i]) for s in range(S)] for i in range(n)])
                u += G.generic(n * S, c % 7, scale=1).reshape(n, S) * .01 * (c % 3)
                m = -coupling * np.eye(S)
                one(ctx, f, u, np.repeat(m[None], len(es), axis=0), es, shared=m if c % 2 else None)


def large_potentials(ctx):
    f = _f()
    for n, S in ((2, 2), (3, 2), (3, 3)):
        for es in graphs_list(n):
            ne = len(es)
            for seed, scale in itertools.product(range(3), (1e3, 1e5, 1e-3)):
                v = G.generic(n * S + ne * S * S, seed, scale=1) * scale
                one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), es)


def shards(tier):
    T = tier == "thorough"
    out = []
    for n, S, k, parts in [(1, 1, 2, 1), (1, 2, 2, 1), (1, 3, 2, 1), (2, 1, 2, 1), (2, 2, 2, 2),
                           (2, 3, 1, 1), (3, 2, 2 if T else 1, 8), (3, 3, 1, 4), (4, 2, 1, 8)]:
        for part in range(parts):
            out.append(("sparse", (n, S, k + (1 if T and S < 3 and n < 3 else 0), part, parts)))
    for n, S, parts in [(1, 3, 1), (2, 2, 1), (2, 3, 1), (3, 2, 4), (3, 3, 4), (4, 2, 4), (4, 3, 4)]:
        for part in range(parts):
            out.append(("generic", (n, S, 9 if T else 3, part, parts)))
    for part in range(3):
        out.append(("frustrated", (3, part, 3)))
    out.append(("frustrated", (2, 0, 1)))
    out.append(("large_potentials", ()))
    return out
