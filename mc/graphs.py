"""Enumerators of small graphs and of sparse ("k deviations from zero") arrays."""
import itertools

import numpy as np


def all_pairs(n):
    return list(itertools.combinations(range(n), 2))


def is_forest_ref(n, edges):
    """Union-find; a repeated edge or a self loop closes a cycle."""
    p = list(range(n))

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for a, b in edges:
        ra, rb = find(int(a)), find(int(b))
        if ra == rb:
            return False
        p[ra] = rb
    return True


def simple_graphs(n):
    pairs = all_pairs(n)
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            yield list(es)


def forests(n):
    for es in simple_graphs(n):
        if is_forest_ref(n, es):
            yield es


def trees(n):
    for es in forests(n):
        if len(es) == n - 1:
            yield es


def orientations(edges):
    for flips in itertools.product((0, 1), repeat=len(edges)):
        yield [(b, a) if f else (a, b) for (a, b), f in zip(edges, flips)]


def some_orders(edges):
    """identity, reversed, rotated: distinct edge orders"""
    seen = []
    for o in (list(edges), list(edges)[::-1], list(edges)[1:] + list(edges)[:1]):
        if o not in seen:
            seen.append(o)
            yield o


def earr(edges, dtype=np.int64):
    return np.array(edges, dtype=dtype).reshape(-1, 2)


def sparse_vectors(n, k, values=(1., -1.)):
    """All vectors of length n with at most k nonzero entries taken from values."""
    for m in range(min(k, n) + 1):
        for pos in itertools.combinations(range(n), m):
            for vals in itertools.product(values, repeat=m):
                v = np.zeros(n)
                if m:
                    v[list(pos)] = vals
                yield v


def generic(n, seed, scale=8):
    """A fixed vector of generic multiples of 1/64: no accidental ties, exact sums."""
    rng = np.random.RandomState(seed)
    return rng.randint(-64 * scale, 64 * scale + 1, size=n) / 64. + 0.


def signs(base, positions):
    """All sign patterns of base over the given positions."""
    for s in itertools.product((1., -1.), repeat=len(positions)):
        v = base.copy()
        v[list(positions)] *= s
        yield v
