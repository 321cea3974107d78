"""Instances far beyond brute force whose best labeling is known by leaf elimination: long chains, wide stars, deep
trees, many states.  Sizes sit around the limits of small integer types."""
import numpy as np

from . import graphs as G
from . import zoo


def tree_edges(kind, n):
    if kind == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "rev":
        return [(i + 1, i) for i in range(n - 1)]
    if kind == "star":
        return [(0, i) for i in range(1, n)]
    if kind == "star_last":
        return [(i, n - 1) if i % 2 else (n - 1, i) for i in range(n - 1)]
    if kind == "binary":
        return [((i - 1) // 2, i) if i % 3 else (i, (i - 1) // 2) for i in range(1, n)]
    if kind == "two":
        h = n // 2
        return [(i, i + 1) for i in range(h - 1)] + [(i, i + 1) for i in range(h, n - 1)]
    if kind == "gaps":       # several trees and nodes without edges
        return [(i, i + 1) for i in range(n - 1) if i % 7 not in (5, 6)]
    if kind == "shuffled":   # a chain through all nodes in another order, edges not in order
        m = next(m for m in (7, 11, 13, 17, 19) if n % m)
        p = [i * m % n for i in range(n)]
        es = [(p[i], p[i + 1]) if i % 2 else (p[i + 1], p[i]) for i in range(n - 1)]
        return es[1::2] + es[0::2]
    raise KeyError(kind)


TREES = ("chain", "rev", "star", "star_last", "binary", "two", "gaps", "shuffled")


def forest_best(U, P, edges):
    """Maximum score on a forest (vectorised leaf elimination without recursion)."""
    n = len(U)
    U = np.array(U, dtype=float)
    inc = [[] for _ in range(n)]
    for k, (a, b) in enumerate(edges):
        inc[int(a)].append(k)
        inc[int(b)].append(k)
    alive = np.ones(len(edges), bool)
    deg = np.array([len(i) for i in inc])
    leaves = [i for i in range(n) if deg[i] == 1]
    while leaves:
        v = leaves.pop()
        if deg[v] != 1:
            continue
        k = next(k for k in inc[v] if alive[k])
        a, b = int(edges[k][0]), int(edges[k][1])
        M = np.asarray(P[k], float)
        o = b if a == v else a
        U[o] += (U[v][:, None] + (M if a == v else M.T)).max(axis=0)
        U[v] = 0
        alive[k] = False
        deg[v] -= 1
        deg[o] -= 1
        if deg[o] == 1:
            leaves.append(o)
    assert not alive.any()
    return U.max(axis=1).sum()


def score(U, P, edges, y):
    y = np.asarray(y).ravel().astype(int)
    s = U[np.arange(len(U)), y].sum()
    e = np.asarray(edges)
    return s + (np.asarray(P)[np.arange(len(e)), y[e[:, 0]], y[e[:, 1]]].sum() if len(e) else 0.)


def _sym(v, S):
    P = np.zeros((S, S))
    k = 0
    for a in range(S):
        for b in range(a + 1):
            P[a, b] = P[b, a] = v[k]
            k += 1
    return P


def entries(part=None):
    """(entry, potentials(x, w) -> unary, pairwise)"""
    out = []
    sizes = ((33, "shuffled"), (64, "binary"), (65, "star"), (129, "rev"), (130, "star_last"), (257, "chain"),
             (258, "gaps"), (300, "two"), (300, "binary"))
    for S, F, cw, sz in ((2, 1, None, sizes), (3, 2, [1., 2.5, .5], sizes), (40, 1, None, ((3, "chain"), (5, "star"))),
                         (130, 1, None, ((2, "rev"), (3, "star"))), (300, 1, None, ((2, "chain"),)),
                         (1, 2, None, ((70, "chain"),))):
        graphs = [(n, tree_edges(k, n)) for n, k in sz]
        for d in (False, True):
            e = zoo.graph_entries(S, F, "max-product", d, cw, graphs=graphs, tag=",large")

            def pot(x, w, S=S, F=F, d=d):
                U = np.dot(x[0], w[:S * F].reshape(S, F).T)
                v = w[S * F:]
                P = v.reshape(S, S) if d else _sym(v, S)
                return U, np.repeat(P[None], len(x[1]), axis=0)
            out.append((e, pot))
            e = zoo.chain_entry(S, F, d, cw, lens=sorted(set(n for n, k in sz if k in ("chain", "star", "two"))))

            def cpot(x, w, S=S, F=F, d=d):
                U = np.dot(x, w[:S * F].reshape(S, F).T)
                v = w[S * F:]
                P = v.reshape(S, S) if d else _sym(v, S)
                return U, np.repeat(P[None], len(x) - 1, axis=0)
            out.append((e, cpot))
        if S < 100:
            e = zoo.edgefeat_entry(S, F, 2, "max-product", cw, graphs=graphs)

            def epot(x, w, S=S, F=F):
                U = np.dot(x[0], w[:S * F].reshape(S, F).T)
                A = w[S * F:].reshape(2, S, S)
                return U, np.array([f[0] * A[0] + f[1] * A[1] for f in x[2]]).reshape(-1, S, S)
            out.append((e, epot))
        if cw is None and S < 100:
            for dire in (False, True):
                e = zoo.grid_entry(S, F, "max-product", 4, [(1, 200), (150, 1)] if S < 10 else [(1, 4), (3, 1)],
                                   directional=dire)

                def gpot(x, w, S=S, F=F, dire=dire):
                    U = np.dot(x.reshape(-1, F), w[:S * F].reshape(S, F).T)
                    v = w[S * F:]
                    if dire:
                        P = v.reshape(2, S, S)[0 if x.shape[0] == 1 else 1]
                    else:
                        P = _sym(v, S)
                    return U, np.repeat(P[None], len(U) - 1, axis=0)
                out.append((e, gpot))
    return out if part is None else out[part]


def count():
    return len(entries())


def weights(e, few=False):
    d = e.d
    idx = range(d) if d <= 40 else sorted(set(list(range(6)) + list(range(d - 6, d)) + list(range(0, d, d // 12 + 1))))
    if not few:
        for i in idx:
            for c in (1., -1.):
                w = np.zeros(d)
                w[i] = c
                yield e.proj(w)
    for s in range(2 if few else 6):
        w = G.generic(d, 900 + s, scale=1)
        yield e.proj(np.round(w * 4) / 4. if s % 2 else w)


def labelings(e, x, many=False):
    n = e.nodes(x)
    shape = x.shape[:2] if getattr(e, "grid", False) else (n,)
    S = e.S
    ys = [np.zeros(n, int), np.full(n, S - 1), np.arange(n) % S, (n - np.arange(n)) % S, np.random.RandomState(n).randint(S, size=n)]
    if many:
        ys += [np.random.RandomState(n + s).randint(S, size=n) for s in (1, 2, 3)]
        y = np.zeros(n, int)
        y[-1] = S - 1
        ys.append(y)
    return [y.reshape(shape) for y in ys]
