"""Boring reference implementations."""
import itertools

import numpy as np


def labelings(n_nodes, n_states):
    return itertools.product(range(n_states), repeat=n_nodes)


_LAB = {}


def lab_array(n_nodes, n_states):
    k = (n_nodes, n_states)
    if k not in _LAB:
        _LAB[k] = np.array(list(labelings(n_nodes, n_states)), dtype=int).reshape(-1, n_nodes)
    return _LAB[k]


def all_scores(unary, pw, edges):
    """Score of every labelling, rows as in lab_array; pw of shape (n_edges, S, S)."""
    n, S = unary.shape
    L = lab_array(n, S)
    sc = np.zeros(len(L))
    for i in range(n):
        sc += unary[i][L[:, i]]
    for (a, b), p in zip(edges, pw):
        sc += p[L[:, int(a)], L[:, int(b)]]
    return sc


def score(unary, pw, edges, y):
    s = 0.
    for i, yi in enumerate(y):
        s += float(unary[i][int(yi)])
    for (a, b), p in zip(edges, pw):
        s += float(p[int(y[int(a)])][int(y[int(b)])])
    return s


def forest_max(unary, pw, edges):
    """Exact maximum on a forest by recursive leaf elimination (for larger n)."""
    n, S = unary.shape
    adj = {i: [] for i in range(n)}
    for k, (a, b) in enumerate(edges):
        adj[int(a)].append((int(b), np.asarray(pw[k], float)))
        adj[int(b)].append((int(a), np.asarray(pw[k], float).T))
    seen = set()

    def up(v, parent):
        seen.add(v)
        t = np.array(unary[v], float)
        for u, p in adj[v]:
            if u != parent:
                m = up(u, v)
                t = t + np.array([max(p[s][r] + m[r] for r in range(S)) for s in range(S)])
        return t
    tot = 0.
    for v in range(n):
        if v not in seen:
            tot += max(up(v, -1))
    return tot


def valid_labels(y, n_nodes, n_states):
    y = np.asarray(y)
    return (y.shape == (n_nodes,) and np.issubdtype(y.dtype, np.integer)
            and (n_nodes == 0 or (y.min() >= 0 and y.max() < n_states)))
