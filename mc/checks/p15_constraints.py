"""Hard logic constraints (ad3+): respected, and the best labeling among those that respect them."""
import itertools

import numpy as np

from .. import core
from .. import graphs as G
from .. import refs as R
from .. import zoo

PROPERTY = "P15"
LEVEL = "model_checking"
RULE = ("one state per (graph, operator, nodes, states, negations, potentials or weights, entry point); the "
        "real result of constrained inference is compared with brute force over all labelings that satisfy "
        "the constraints, with the operators' truth tables written down independently")
BOUNDS = ("forests and triangles on 2..3 nodes with 2..3 states, every operator (XOR, ATMOSTONE, OR, XOROUT, "
          "OROUT, ANDOUT, IMPLY) on every ordered selection of 2..3 nodes, every state, every negation "
          "pattern; pairs of constraints, lists of 3 to 21 constraints on 4..6 nodes; two node types; prediction through models, batches and learners")
ASSUMPTIONS = ["best constrained labeling unique by 1e-2; branch and bound, or solver status integral",
               "the AD3 library itself is outside the repository"]
OPS = ("XOR", "ATMOSTONE", "OR", "XOROUT", "OROUT", "ANDOUT", "IMPLY")


def holds(op, v):
    """v: truth values in order"""
    if op == "XOR":
        return sum(v) == 1
    if op == "ATMOSTONE":
        return sum(v) <= 1
    if op == "OR":
        return any(v)
    if op == "XOROUT":
        return sum(v[:-1]) <= 1 and v[-1] == any(v[:-1])
    if op == "OROUT":
        return v[-1] == any(v[:-1])
    if op == "ANDOUT":
        return v[-1] == all(v[:-1])
    if op == "IMPLY":
        return (not all(v[:-1])) or v[-1]
    raise KeyError(op)


def satisfied(c, y):
    op, nodes, states, neg = c
    k = len(nodes)
    st = states if isinstance(states, list) else [states] * k
    ng = neg if isinstance(neg, list) else [neg] * k
    return holds(op, [(y[n] == s) != g for n, s, g in zip(nodes, st, ng)])


def templates(n, S, full):
    for op in OPS:
        for k in ((2, 3) if n >= 3 else (2,)):
            for nodes in (itertools.permutations(range(n), k) if op in OPS[3:] else
                          itertools.combinations(range(n), k)):
                nodes = list(nodes)
                if nodes[:-1] != sorted(nodes[:-1]):
                    continue
                for s in range(S):
                    yield op, nodes, s, False
                    yield op, nodes, [(s + i) % S for i in range(k)], False
                if full:
                    for ng in itertools.product((False, True), repeat=k):
                        yield op, nodes, [(i + 1) % S for i in range(k)], list(ng)
                yield op, nodes, 0, True


def best(ctx, sc, ok):
    """index of the best allowed labeling, None if it is not clearly unique"""
    idx = np.flatnonzero(ok)
    if not len(idx):
        return None
    a = sc[idx]
    o = np.argsort(-a)
    if len(a) > 1 and a[o[0]] - a[o[1]] < 1e-2:
        return None
    return idx[o[0]]


GR = [(2, []), (2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (3, [(2, 1), (0, 1)]), (3, [(0, 1), (1, 2), (2, 0)])]


def low_level(ctx, gi, S, full, seeds):
    from pystruct.inference import inference_dispatch
    n, es = GR[gi]
    ne = len(es)
    e = G.earr(es)
    L = R.lab_array(n, S)
    for c in templates(n, S, full):
        ok = np.array([satisfied(c, y) for y in L])
        for seed in range(seeds):
            v = G.generic(n * S + ne * S * S, seed * 7 + gi, scale=2)
            u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S)
            sc = R.all_scores(u, p, es)
            b = best(ctx, sc, ok)
            if b is None:
                continue
            with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, constraint=c)):
                before = repr(c)
                y, en = inference_dispatch(u, p, e, ("ad3+", {"branch_and_bound": True}),
                                           return_energy=True, constraints=[c])
                ctx.did()
                ctx.check(repr(c) == before, "constraint list modified")
                ctx.check(R.valid_labels(y, n, S), "invalid labels", y=y)
                ctx.check(satisfied(c, y), "constraint violated", y=y)
                ctx.check(np.array_equal(y, L[b]), "not the best labeling that satisfies the constraint",
                          got=y, best=L[b])
                ctx.check(abs(en + sc[b]) < 1e-2 * (1 + np.abs(v).sum()), "energy %r of a labeling of score %r"
                          % (en, sc[b]))
                ctx.outcome((c[0], tuple(y.tolist())))


def pairs(ctx, S, seeds):
    """two constraints at once, and the empty list"""
    from pystruct.inference import inference_dispatch
    n, es = GR[2]
    e = G.earr(es)
    L = R.lab_array(n, S)
    cs = [("XOR", [0, 1, 2], 0, False), ("ATMOSTONE", [0, 2], 1, False), ("OR", [0, 1], S - 1, False),
          ("IMPLY", [0, 2], [0, 1], False), ("ANDOUT", [0, 1, 2], 1, False), ("OR", [0, 1, 2], 0, True)]
    for sel in [[]] + [[a] for a in cs] + [list(t) for t in itertools.permutations(cs, 2)]:
        ok = np.array([all(satisfied(c, y) for c in sel) for y in L])
        for seed in range(seeds):
            v = G.generic(n * S + 2 * S * S, seed * 3 + 50, scale=2)
            u, p = v[:n * S].reshape(n, S), v[n * S:].reshape(2, S, S)
            b = best(ctx, R.all_scores(u, p, es), ok)
            if b is None:
                continue
            with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, constraints=sel)):
                y = inference_dispatch(u, p, e, ("ad3+", {"branch_and_bound": True}), constraints=sel)
                ctx.did()
                ctx.check(np.array_equal(y, L[b]), "not the best labeling that satisfies the constraints",
                          got=y, best=L[b])
                ctx.outcome(tuple(y.tolist()))


def models(ctx, kind, seeds):
    """model.inference, batch_inference and learner.predict with per-instance constraints"""
    from pystruct.learners import StructuredPerceptron
    import joblib
    bnb = ("ad3+", {"branch_and_bound": True})
    graphs = [GR[1], GR[2], GR[4]]
    e = (zoo.edgefeat_entry(2, 1, 2, bnb, None, graphs=graphs) if kind == "edge"
         else zoo.graph_entries(3, 1, bnb, True, None, graphs=graphs) if kind == "graph"
         else zoo.edgefeat_entry(3, 2, 1, bnb, [1., 2., 3.], graphs=graphs))
    m = e.make()
    lr = StructuredPerceptron(m)
    S = e.S
    for seed in range(seeds):
        w = e.proj(G.generic(e.d, seed + 300, scale=2))
        cons, want, idx = [], [], []
        for xi, x in enumerate(e.xs):
            ys, Psi = e.table(xi)
            n = len(x[0])
            ts = list(templates(n, S, False))
            for ci in range(0, len(ts), 1):
                c = ts[ci]
                ok = np.array([satisfied(c, y) for y in ys])
                b = best(ctx, Psi.dot(w), ok)
                if b is None:
                    continue
                with ctx.case(lambda: dict(model=e.name, x=x, w=w, constraint=c)):
                    y = m.inference(x, w, constraints=[c])
                    ctx.did()
                    ctx.check(np.array_equal(y, ys[b]), "not the best labeling that satisfies the constraint",
                              got=y, best=ys[b])
                    y, en = m.inference(x, w, constraints=[c], return_energy=True)
                    ctx.check(np.array_equal(y, ys[b]) and abs(en + Psi[b].dot(w)) < 1e-2 *
                              (10 + 4 * np.abs(w).sum()), "labels or energy differ with return_energy", got=y,
                              energy=en, score=Psi[b].dot(w))
                    ctx.outcome((xi, c[0], tuple(y.tolist())))
                cons.append([c])
                want.append(ys[b])
                idx.append(xi)
        # batches: item k obeys the k-th constraint list
        lr.w = w
        for lo in range(0, len(cons), 5):
            sel = slice(lo, lo + 5)
            X = [e.xs[i] for i in idx[sel]]
            with ctx.case(lambda: dict(model=e.name, X=X, w=w, constraints=cons[sel])):
                r1 = m.batch_inference(X, w, constraints=cons[sel])
                lr.n_jobs = 1
                r2 = lr.predict(X, constraints=cons[sel])
                lr.n_jobs = 2
                with joblib.parallel_backend("threading"):
                    r3 = lr.predict(X, constraints=cons[sel])
                ctx.did(3)
                for r, what in ((r1, "batch_inference"), (r2, "predict"), (r3, "predict, two jobs")):
                    ctx.check(len(r) == len(X) and all(np.array_equal(a, b) for a, b in zip(r, want[sel])),
                              "%s: wrong result for some item" % what, got=r, best=want[sel])


def typed(ctx, seeds):
    """two node types; constraints name nodes per type"""
    insts = [((2, 1), {(0, 0): [(0, 1)], (0, 1): [(1, 0)]}), ((2, 2), {(0, 1): [(0, 0)], (1, 1): [(0, 1)]}),
             ((1, 2), {(0, 1): [(0, 1)]})]
    e = zoo.typed_entry([2, 3], [1, 2], [[1, 1], [1, 1]], insts, "ad3+")
    m = e.make()
    for xi, x in enumerate(e.xs):
        n0, n1 = len(x[0][0]), len(x[0][1])
        ys, Psi = e.table(xi)

        def truth(y, t, i, s, g):
            return (y[i + (n0 if t else 0)] - (2 if t else 0) == s) != g
        cs = []
        for op in OPS:
            for nodes in ([[0], [0]], [[0], list(range(n1))], [list(range(n0)), [n1 - 1]],
                          [list(range(n0)), []], [[], list(range(n1))], [[n0 - 1], [n1 - 1]]):
                if sum(map(len, nodes)) < 2:
                    continue
                for st in ([0, 0], [1, 2], [1, 0]):
                    for ng in ([False, False], [True, False], [False, True]):
                        cs.append((op, nodes, st, ng))
                        if op in OPS[3:]:
                            # the installed AD3 ignores a final term of type 0 ("if last_type:")
                            for last in ((1, n1 - 1, 1, False), (1, 0, 2, True)):
                                terms = [(t, i) for t in (0, 1) for i in nodes[t]]
                                if (last[0], last[1]) not in terms:
                                    cs.append((op, nodes, st, ng, last))
        for c in cs:
            def sat(y):
                v = [truth(y, t, i, c[2][t], c[3][t]) for t in (0, 1) for i in c[1][t]]
                if len(c) > 4:
                    v.append(truth(y, *c[4]))
                return holds(c[0], v)
            ok = np.array([sat(y) for y in ys])
            for seed in range(seeds):
                w = G.generic(e.d, seed + 500, scale=2)
                b = best(ctx, Psi.dot(w), ok)
                if b is None:
                    continue
                with ctx.case(lambda: dict(model=e.name, x=x, w=w, constraint=c)):
                    r, en = m.inference(x, w, relaxed=True, return_energy=True, constraints=[c])
                    ctx.did()
                    tol = 1e-2 * (10 + 4 * np.abs(w).sum())
                    sb = Psi[b].dot(w)
                    ctx.check(-en >= sb - tol, "energy %r above the best constrained labeling (%r)" % (en, -sb))
                    if isinstance(r, tuple):
                        ctx.outcome("fractional")
                        continue
                    ctx.check(np.array_equal(r, ys[b]), "not the best labeling that satisfies the constraint",
                              got=r, best=ys[b])
                    ctx.outcome((xi, c[0], tuple(r.tolist())))


def many(ctx, n, S, seeds):
    """long lists of constraints: every prefix of several lists, in both orders"""
    from pystruct.inference import inference_dispatch
    es = [(i, i + 1) for i in range(n - 1)]
    e = G.earr(es)
    L = R.lab_array(n, S)
    pairs = list(itertools.combinations(range(n), 2))
    lists = [[("ATMOSTONE", list(q), 1, False) for q in pairs],
             [("OR", list(q), S - 1, False) for q in pairs[::-1]],
             [("IMPLY", [i, i + 1], [1, 1], False) for i in range(n - 1)] + [("IMPLY", [i, j], [0, 0], False) for i, j in pairs],
             [("XOR", [i, (i + 1) % n, (i + 2) % n], s, False) for i in range(0, n - 2, 3) for s in range(S)] +
             [("ATMOSTONE", [i, (i + 2) % n], S - 1, False) for i in range(n)],
             [(op, [i, i + 1, i + 2], 1, [False, bool(i % 2), False]) for i in range(n - 2) for op in ("OR", "ATMOSTONE")]]
    for li, cs in enumerate(lists):
        for k in range(3, len(cs) + 1):
            sel = cs[:k] if (k + li) % 2 else cs[:k][::-1]
            ok = np.array([all(satisfied(c, y) for c in sel) for y in L])
            for seed in range(seeds):
                v = G.generic(n * S + len(es) * S * S, seed * 5 + li, scale=2)
                u, p = v[:n * S].reshape(n, S).copy(), v[n * S:].reshape(len(es), S, S) * .5
                u[:, (1, 0, 0, S - 1, 1)[li]] += 3
                b = best(ctx, R.all_scores(u, p, es), ok)
                if b is None:
                    continue
                with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, constraints=sel)):
                    y = inference_dispatch(u, p, e, ("ad3+", {"branch_and_bound": True}), constraints=sel)
                    ctx.did()
                    ctx.check(np.array_equal(y, L[b]), "not the best labeling that satisfies the %d constraints" % k,
                              got=y, best=L[b])
                    ctx.outcome(tuple(y.tolist()))


def shards(tier):
    T = tier == "thorough"
    out = []
    for gi in range(len(GR)):
        for S in (2, 3):
            out.append(("low_level", (gi, S, True, 12 if T else 3)))
    out += [("pairs", (S, 20 if T else 4)) for S in (2, 3)]
    out += [("many", (n, S, 6 if T else 2)) for n, S in ((4, 2), (5, 2), (6, 2), (4, 3), (5, 3))]
    out += [("models", (k, 8 if T else 2)) for k in ("edge", "graph", "edge3")]
    return out + [("typed", (10 if T else 2,))]
