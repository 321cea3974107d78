"""Max-product is exact on every forest."""
import itertools

import numpy as np

from .. import graphs as G
from .. import large
from .. import refs as R

PROPERTY = "P01"
LEVEL = "model_checking"
RULE = ("one state per (graph, orientation, edge order, state count, potential assignment, array "
        "form); every one is executed through the public dispatch function and its score is "
        "compared with exhaustive maximisation over all labellings")
BOUNDS = ("all labelled forests on 1..4 nodes with every orientation (5 nodes: canonical "
          "orientation), 1..3 states, potentials with at most k nonzero entries from {1,-1} "
          "(k by size), all 0/1 potentials on the two smallest graphs, generic potentials with all "
          "sign patterns, chains/stars/caterpillars up to 12 nodes and 4 states against leaf "
          "elimination, 8 tree shapes of 20..2500 (thorough 33000) nodes against leaf elimination, 9 array forms")
ASSUMPTIONS = ["potential values are finite and small; scores compared to 1e-9 relative"]


def _dispatch():
    from pystruct.inference import inference_dispatch
    return inference_dispatch


def _one(ctx, f, unary, pw, edges, best=None, shared=None, method='max-product'):
    e = G.earr(edges)
    n, S = unary.shape
    with ctx.case(lambda: dict(unary=unary, pairwise=pw if shared is None else shared,
                               edges=e)):
        u0, p0 = unary.copy(), (pw if shared is None else shared).copy()
        y = f(unary, pw if shared is None else shared, e, method)
        ctx.did()
        ctx.check(R.valid_labels(y, n, S), "not a labelling of the nodes", got=y)
        if best is None:
            best = R.all_scores(unary, pw, edges).max()
        got = R.score(unary, pw, edges, y)
        ctx.outcome(tuple(int(v) for v in y))
        ctx.check(abs(got - best) <= 1e-9 * max(1., abs(best)),
                  "max-product on a forest returned score %r, the maximum is %r" % (got, best),
                  labels=y)
        ctx.check(np.array_equal(u0, unary)
                  and np.array_equal(p0, pw if shared is None else shared),
                  "the caller's potentials were modified")


def sparse(ctx, n, S, part, nparts, k, orient):
    f = _dispatch()
    gi = 0
    for es in G.forests(n):
        for oes in (G.orientations(es) if orient else [es]):
            gi += 1
            if gi % nparts != part:
                continue
            ne = len(oes)
            orders = list(G.some_orders(oes)) if ne > 1 else [oes]
            for j, v in enumerate(G.sparse_vectors(n * S + ne * S * S, k)):
                order = orders[j % len(orders)]
                _one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), order)


def generic(ctx, n, S, part, nparts, seeds):
    f = _dispatch()
    gi = 0
    for es in G.forests(n):
        gi += 1
        if gi % nparts != part:
            continue
        ne = len(es)
        for oes in G.orientations(es):
            for order in G.some_orders(oes):
                for seed in range(seeds):
                    v = G.generic(n * S + ne * S * S, seed)
                    _one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), order)
                # a single shared matrix
                v = G.generic(n * S + S * S, 77)
                m = v[n * S:].reshape(S, S)
                _one(ctx, f, v[:n * S].reshape(n, S),
                     np.repeat(m[None], ne, axis=0).reshape(ne, S, S), order, shared=m)


def binary_all(ctx, n, S, edges, part, nparts):
    """every 0/1 potential"""
    f = _dispatch()
    ne = len(edges)
    m = n * S + ne * S * S
    for bits in range(part, 2 ** m, nparts):
        v = np.array([(bits >> i) & 1 for i in range(m)], float)
        _one(ctx, f, v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S), edges)


def _shape_edges(kind, n):
    if kind == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if kind == "revchain":
        return [(i + 1, i) for i in range(n - 1)]
    if kind == "zigzag":      # chain through a permuted order
        p = [(i * 5) % n for i in range(n)] if n % 5 else [(i * 3) % n for i in range(n)]
        if len(set(p)) < n:
            p = list(range(n))[::-1]
        return [(p[i], p[i + 1]) for i in range(n - 1)]
    if kind == "star":
        return [(0, i) for i in range(1, n)]
    if kind == "star_last":
        return [(i, n - 1) for i in range(n - 1)]
    if kind == "binary":
        return [((i - 1) // 2, i) for i in range(1, n)]
    if kind == "caterpillar":
        return [(i, i + 1) if i % 2 == 0 else (i - 1, i + 1) for i in range(n - 1)]
    if kind == "two_chains":
        h = n // 2
        return [(i, i + 1) for i in range(h - 1)] + [(i, i + 1) for i in range(h, n - 1)]
    if kind == "chain_isolated_end":   # last two nodes have no edge
        return [(i, i + 1) for i in range(n - 3)]
    if kind == "isolated_start":       # first node has no edge
        return [(i, i + 1) for i in range(1, n - 1)]
    if kind == "chain_scrambled":      # the chain's edges, not in order
        es = [(i, i + 1) for i in range(n - 1)]
        return es[1::2] + es[0::2]
    if kind == "chain_lastflip":
        return [(i, i + 1) for i in range(n - 2)] + [(n - 1, n - 2)]
    if kind == "empty":
        return []


KINDS = ["chain", "revchain", "zigzag", "star", "star_last", "binary", "caterpillar",
         "two_chains", "chain_isolated_end", "isolated_start", "chain_scrambled",
         "chain_lastflip", "empty"]


def shapes(ctx, kind, nmax, seeds):
    f = _dispatch()
    for n in range(1, nmax + 1):
        if n < 3 and kind not in ("chain", "empty", "star"):
            continue
        es = _shape_edges(kind, n)
        assert G.is_forest_ref(n, es)
        for S in (1, 2, 3, 4):
            ne = len(es)
            for seed in range(seeds):
                v = G.generic(n * S + ne * S * S, seed, scale=4 if seed % 2 else 1)
                if seed % 3 == 2:
                    v = np.round(v)         # many ties
                if seed % 4 == 3:
                    v = v * 2. ** 20
                u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
                _one(ctx, f, u, p, es, best=R.forest_max(u, p, es))


def forms(ctx):
    """The result does not depend on how the arrays are stored."""
    f = _dispatch()
    for n in (1, 2, 3, 4):
        for es in G.forests(n):
            for S in (2, 3):
                ne = len(es)
                v = np.round(G.generic(n * S + ne * S * S, 5))
                u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
                best = R.all_scores(u, p, es).max()
                e = G.earr(es)
                big = np.zeros((2 * n, 2 * S))
                big[::2, ::2] = u
                variants = [
                    ("int", u.astype(int), p.astype(int), e),
                    ("float32", u.astype(np.float32), p.astype(np.float32), e),
                    ("fortran", np.asfortranarray(u), np.asfortranarray(p), e),
                    ("strided", big[::2, ::2], p, e),
                    ("transposed", u, np.ascontiguousarray(p.transpose(0, 2, 1)).transpose(0, 2, 1), e),
                    ("edges32", u, p, e.astype(np.int32)),
                    ("edgesF", u, p, np.asfortranarray(e)),
                    ("readonly", _ro(u), _ro(p), _ro(e)),
                    ("intpw", u, p.astype(int), e)]
                for name, uu, pp, ee in variants:
                    for call in ("dispatch", "tuple"):
                        with ctx.case(lambda: dict(form=name, call=call, unary=u, pairwise=p, edges=e)):
                            if call == "dispatch":
                                y = f(uu, pp, ee, 'max-product')
                            else:
                                y = f(uu, pp, ee, ('max-product', {'max_iter': 7}))
                            ctx.did()
                            ctx.check(R.valid_labels(y, n, S), "not a labelling", got=y)
                            got = R.score(u, p, es, y)
                            ctx.check(abs(got - best) < 1e-9, "score %r, maximum %r for array form %s"
                                      % (got, best, name), labels=y)


def _ro(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def null_loops(ctx):
    """Graphs with cycles whose cycle-closing edges carry a constant: still a forest problem.

    (Message passing must then converge to the unique maximiser.)"""
    f = _dispatch()
    for n in (2, 3, 4):
        for es in G.trees(n):
            pairs = [p for p in G.all_pairs(n)]
            for extra in pairs:
                for flip in (0, 1):
                    full = es + [(extra[1], extra[0]) if flip else extra]
                    for S in (2, 3):
                        for seed in range(2):
                            v = G.generic(n * S + len(full) * S * S, seed)
                            u = v[:n * S].reshape(n, S)
                            p = v[n * S:].reshape(len(full), S, S).copy()
                            p[-1] = 0
                            _one(ctx, f, u, p, full)


def big(ctx, kind, sizes, seeds):
    """Trees far beyond brute force, checked against leaf elimination."""
    f = _dispatch()
    for n in sizes:
        es = large.tree_edges(kind, n)
        assert G.is_forest_ref(n, es)
        for S in (1, 2, 3, 5) if n < 400 else (2,):
            ne = len(es)
            for seed in range(seeds):
                v = G.generic(n * S + ne * S * S, 50 + seed, scale=4 if seed % 2 else 1)
                if seed % 3 == 2:
                    v = np.round(v)
                u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
                _one(ctx, f, u, p, es, best=large.forest_best(u, p, es))


def shards(tier):
    T = tier == "thorough"
    out = []
    for n, S, k, orient, parts in [(1, 1, 2, 0, 1), (1, 2, 2, 0, 1), (1, 3, 2, 0, 1), (2, 1, 2, 1, 1),
                                   (2, 2, 3, 1, 1), (2, 3, 3 if T else 2, 1, 1),
                                   (3, 1, 2, 1, 1), (3, 2, 3, 1, 4), (3, 3, 2, 1, 4),
                                   (4, 2, 2, 1, 16), (4, 3, 2 if T else 1, 1, 4 if not T else 32),
                                   (5, 2, 2 if T else 1, T, 4 if not T else 32)]:
        for part in range(parts):
            out.append(("sparse", (n, S, part, parts, k, orient)))
    for n, S, parts in [(2, 3, 1), (3, 2, 1), (3, 3, 1), (4, 2, 4), (4, 3, 4)] + \
            ([(5, 2, 32), (5, 3, 32)] if T else []):
        for part in range(parts):
            out.append(("generic", (n, S, part, parts, 8 if T else 3)))
    for part in range(2):
        out.append(("binary_all", (2, 2, [(0, 1)], part, 2)))
        out.append(("binary_all", (3, 2, [(0, 1), (1, 2)], part, 2)))
        out.append(("binary_all", (3, 2, [(1, 0), (1, 2)], part, 2)))
        out.append(("binary_all", (3, 2, [(0, 1), (0, 2)], part, 2)))
        out.append(("binary_all", (2, 3, [(1, 0)], part, 2)))
    for kind in KINDS:
        out.append(("shapes", (kind, 16 if T else 12, 40 if T else 12)))
    for kind in large.TREES:
        out.append(("big", (kind, (20, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300), 3 * (1 + T))))
        out.append(("big", (kind, (1000, 2500) + ((6000, 33000) if T else ()), 1)))
    out.append(("forms", ()))
    out.append(("null_loops", ()))
    return out
