"""Public helpers: grid edges, edge features, forests, symmetric matrices, exhaustive inference."""
import itertools

import numpy as np

from .. import graphs as G
from .. import refs as R
from .. import table as T
from .. import zoo
from .p04_prediction import entries

PROPERTY = "P31"
LEVEL = "model_checking"
RULE = ("one state per (helper, argument): results of the real helpers are compared with loops over cells, edges, entries and "
        "labelings")
BOUNDS = ("grids: all shapes up to 5 x 5 (thorough 8 x 8), both neighborhoods, with and without feature axis; edge features: all "
          "lists of up to 4 groups of 0..3 edges; forests: all multigraphs of up to 5 vertices and 5 edges in all orientations and "
          "three orders, with and without the number of vertices; symmetric matrices of up to 5 x 5 with entries in {0, 1, -2} (all up "
          "to 3 x 3); exhaustive inference: the graph, chain, grid and edge-feature configurations of P04; joint-feature and "
          "loss-augmentation kernels: all labelings of up to 3 nodes and 3 states, all integer types")
ASSUMPTIONS = []


def grids(ctx, big):
    from pystruct.utils import make_grid_edges
    for h, w, nb in itertools.product(range(1, big + 1), range(1, big + 1), (4, 8)):
        want = []
        for r, c in itertools.product(range(h), range(w)):
            for r2, c2 in itertools.product(range(h), range(w)):
                a, b = r * w + c, r2 * w + c2
                dr, dc = abs(r - r2), abs(c - c2)
                if a < b and max(dr, dc) == 1 and (nb == 8 or dr + dc == 1):
                    want.append((a, b))
        direction = [lambda a, b: (a // w == b // w) and b == a + 1, lambda a, b: b == a + w,
                     lambda a, b: a // w == b // w + 1 and b % w == a % w + 1, lambda a, b: b == a + w + 1]
        for shape, dt in (((h, w), float), ((h, w, 1), float), ((h, w, 3), int), ((h, w, 2, 2), bool)):
            x = np.zeros(shape, dt)
            with ctx.case(lambda: dict(shape=shape, neighborhood=nb)):
                e = make_grid_edges(x, neighborhood=nb)
                ctx.did()
                ctx.check(e.ndim == 2 and e.shape[1] == 2 and e.dtype.kind == "i", "edges have shape %r, type %s" % (e.shape, e.dtype))
                ctx.check(sorted((min(a, b), max(a, b)) for a, b in e.tolist()) == sorted(want), "not the neighbouring pairs, each once",
                          got=e, expected=want)
                ls = make_grid_edges(x, neighborhood=nb, return_lists=True)
                ctx.did()
                ctx.check(len(ls) == nb // 2, "%d groups of edges" % len(ls))
                ctx.check(np.array_equal(np.vstack(ls), e), "grouped edges differ from the flat ones")
                for g, f in zip(ls, direction):
                    ctx.check(all(f(a, b) for a, b in np.asarray(g).tolist()), "an edge has another direction than its group", got=g)
                ctx.outcome((nb, len(e)))
            for bad in (0, 3, 5, "4", None, 6):
                with ctx.case(lambda: dict(shape=shape, neighborhood=bad)):
                    ctx.did()
                    try:
                        make_grid_edges(x, neighborhood=bad)
                    except ValueError:
                        continue
                    ctx.check(False, "neighborhood %r is accepted" % (bad,))


def groups(ctx):
    from pystruct.utils import edge_list_to_features
    for n in range(1, 5):
        for sizes in itertools.product(range(4), repeat=n):
            ls, k = [], 0
            for s in sizes:
                ls.append(np.array([(k + i, k + i + 1) for i in range(s)], int).reshape(-1, 2))
                k += s
            with ctx.case(lambda: dict(sizes=sizes)):
                f = edge_list_to_features(ls)
                ctx.did()
                want = np.zeros((k, n))
                i = 0
                for g, s in enumerate(sizes):
                    for _ in range(s):
                        want[i, g] = 1
                        i += 1
                ctx.check(f.shape == want.shape and np.array_equal(f, want), "edge features do not indicate the group", got=f, expected=want)
                ctx.outcome(sizes)


def forests(ctx, n, m, part, parts):
    from pystruct.utils.graph_functions import is_forest
    pairs = G.all_pairs(n)
    q = 0
    for k in range(m + 1):
        for es in itertools.combinations_with_replacement(pairs, k):
            truth = G.is_forest_ref(n, es)
            for oes in G.orientations(es):
                for o in G.some_orders(oes):
                    q += 1
                    if q % parts != part:
                        continue
                    with ctx.case(lambda: dict(n=n, edges=o)):
                        got = is_forest(G.earr(o), n)
                        ctx.check(bool(got) == truth, "is_forest gives %r" % got)
                        got = is_forest(G.earr(o))
                        ctx.check(bool(got) == truth, "is_forest without the number of vertices gives %r" % got)
                        got = is_forest([tuple(e) for e in o], n_vertices=n + 1)
                        ctx.check(bool(got) == truth, "is_forest with an extra vertex gives %r" % got)
                        ctx.did(3)
                        ctx.outcome((k, truth))


def matrices(ctx):
    from pystruct.utils import compress_sym, expand_sym, unwrap_pairwise
    for S in range(1, 6):
        d = S * (S + 1) // 2
        vs = itertools.product((0., 1., -2.), repeat=d) if S <= 3 else itertools.chain(G.sparse_vectors(d, 2), [G.generic(d, s) for s in range(5)])
        for v in vs:
            v = np.array(v)
            with ctx.case(lambda: dict(compressed=v)):
                M = expand_sym(v.copy())
                want, i = np.zeros((S, S)), 0
                for a in range(S):
                    for b in range(a + 1):
                        want[a, b] = want[b, a] = v[i]
                        i += 1
                ctx.check(M.shape == want.shape and np.array_equal(M, want), "expand_sym", got=M, expected=want)
                back = compress_sym(M.copy(), make_symmetric=False)
                ctx.check(np.array_equal(back, v), "compress_sym does not invert expand_sym", got=back)
                ctx.did(2)
                ctx.outcome(("sym", S, tuple(v)))
        Ms = itertools.product((0., 1., -2.), repeat=S * S) if S <= 2 else itertools.chain(G.sparse_vectors(S * S, 2), [G.generic(S * S, s) for s in range(5)])
        for m in Ms:
            M = np.array(m).reshape(S, S)
            with ctx.case(lambda: dict(matrix=M)):
                A = M.copy()
                got = compress_sym(A)
                ctx.did()
                ctx.check(np.array_equal(got, zoo.lower_sym(M)), "compress_sym does not add the entries of a pair", got=got,
                          expected=zoo.lower_sym(M))
                ctx.check(np.array_equal(A, M), "compress_sym changed its argument")
    for y in (np.arange(3), (np.arange(3), np.ones(2)), [1, 2], (np.zeros((2, 2)), None)):
        with ctx.case(lambda: dict(y=y)):
            got = unwrap_pairwise(y)
            ctx.did()
            ctx.check(got is (y[0] if isinstance(y, tuple) else y), "unwrap_pairwise")


def exhaustive(ctx, ei, part, parts):
    from pystruct.utils import exhaustive_inference, exhaustive_loss_augmented_inference
    e = [x for x in entries("base") if x.name.split("(")[0] in NAMES][ei]
    q = 0
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        if len(ys) > 64:
            continue
        index = {e.key(y): i for i, y in enumerate(ys)}
        model = e.make()
        for w in e.weights(1, n_generic=2):
            q += 1
            if q % parts != part:
                continue
            sc = Psi.dot(w)
            with ctx.case(lambda: dict(model=e.name, x=x, w=w)):
                y = exhaustive_inference(model, x, w)
                ctx.did()
                ctx.check(np.shape(y) == np.shape(ys[0]), "labeling of shape %r" % (np.shape(y),))
                ctx.check(sc[index[e.key(y)]] >= sc.max() - 1e-9, "exhaustive_inference missed the best labeling", got=y)
                ctx.outcome((ei, xi, e.key(y)))
            for ti in {q % len(ys), len(ys) - 1 - q % 3 % len(ys)}:
                la = sc + e.loss_row(x, ys[ti], ys)
                with ctx.case(lambda: dict(model=e.name, x=x, w=w, y=ys[ti])):
                    y = exhaustive_loss_augmented_inference(model, x, ys[ti].copy(), w)
                    ctx.did()
                    ctx.check(np.shape(y) == np.shape(ys[0]), "labeling of shape %r" % (np.shape(y),))
                    ctx.check(la[index[e.key(y)]] >= la.max() - 1e-9, "exhaustive_loss_augmented_inference missed the most violated "
                              "labeling", got=y)


NAMES = ("GraphCRF", "ChainCRF", "GridCRF", "DirectionalGridCRF", "EdgeFeatureGraphCRF")


def objective(ctx):
    from pystruct.utils import objective_primal
    for d, K, n in ((1, 2, 2), (2, 2, 2), (1, 3, 2), (1, 2, 3)):
        for P in T.problems(d, K, n, [[1.] * (K - 1), [float(k + 2) for k in range(K - 1)]]):
            for w in itertools.product((-2., -.5, 0., .5, 3.), repeat=d):
                w = np.array(w)
                for C, variant in ((.5, "n_slack"), (3., "one_slack")):
                    with ctx.case(lambda: dict(P.desc(), w=w, C=C, variant=variant)):
                        got = objective_primal(P.model(), w, P.X, P.Y, C, variant=variant)
                        ctx.did()
                        ctx.check(abs(got - P.objective(w, C)) < 1e-9 * (1 + abs(got)), "objective %r, expected %r" % (got, P.objective(w, C)))
                        ctx.outcome(round(float(got), 6))


def kernels(ctx):
    from pystruct.models.utils import crammer_singer_joint_feature, loss_augment_unaries
    ints = (np.int16, np.int32, np.int64, np.uint8, np.int8, np.uint32, np.longlong)
    for n, S in itertools.product((1, 2, 3), (1, 2, 3)):
        X = G.generic(n * 2, n).reshape(n, 2)
        for t in R.labelings(n, S):
            for dt in ints:
                y = np.array(t, dt)
                with ctx.case(lambda: dict(X=X, y=y, dtype=str(np.dtype(dt)))):
                    out = G.generic(S * 2, 9).reshape(S, 2)
                    want = out.copy()
                    for i in range(n):
                        want[t[i]] += X[i]
                    try:
                        crammer_singer_joint_feature(X, y, out)
                    except (TypeError, ValueError) as err:
                        ctx.check("No matching signature" in str(err) or "mismatch" in str(err), "unexpected error %r" % err)
                        ctx.check(dt not in (np.int16, np.int32, np.int64, np.uint8), "labels of this type are rejected: %r" % err)
                        continue
                    ctx.check(np.array_equal(out, want), "features are not added to the rows of the labels", got=out, expected=want)
                    cw = np.array([1., 2.5, .25])[:S]
                    u = G.generic(n * S, 4).reshape(n, S)
                    wu = u.copy()
                    for i, s in itertools.product(range(n), range(S)):
                        if s != t[i]:
                            wu[i, s] += cw[t[i]]
                    loss_augment_unaries(u, y, cw)
                    ctx.did(2)
                    ctx.check(np.allclose(u, wu, atol=1e-12), "loss augmentation of the potentials", got=u, expected=wu)
                    ctx.outcome((n, S, t))


def shards(tier):
    Th = tier == "thorough"
    out = [("grids", (8 if Th else 5,)), ("groups", ()), ("matrices", ()), ("objective", ()), ("kernels", ())]
    for n in range(1, 6):
        parts = 1 if n < 4 else 8
        for p in range(parts):
            out.append(("forests", (n, 6 if Th else 5, p, parts)))
    k = len([x for x in entries("base") if x.name.split("(")[0] in NAMES])
    for ei in range(k):
        for p in range(2 if not Th else 4):
            out.append(("exhaustive", (ei, p, 8 if not Th else 4)))
    return out
