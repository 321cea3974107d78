"""No hidden size limits: many states, labels, nodes, edges, features and samples, around the limits of narrow number types."""
import numpy as np

from .. import graphs as G
from .. import zoo as Z

PROPERTY = "P37"
LEVEL = "model_checking"
RULE = ("one state per (model, dimension, size, operation, labeling or pair of labelings): the result is compared with loops over nodes and edges; "
        "predictions with weights under which one given labeling is the only best one")
BOUNDS = ("sizes 1, 2, 126..130, 254..258 and 300 states, labels, features, hidden states, nodes and samples for every model; up to 70000 nodes and edges "
          "for max-product, joint features, losses, grids and forests; training with 127..129 and 255..257 samples")
ASSUMPTIONS = ["sizes that fit into memory and minutes"]

EDGE = [1, 2, 3, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300]
BIG = [1000, 32767, 32768, 32769, 65535, 65536, 65537]


def marks(lo, hi):
    """the interesting labels of a range"""
    return sorted({v for v in (lo, lo + 1, 126, 127, 128, 129, 254, 255, 256, 257, hi - 2, hi - 1) if lo <= v < hi})


def hot(n, F):
    X = np.zeros((n, F))
    X[np.arange(n), np.arange(n) % F] = 1
    return X


def cyclic(marks_per_node):
    k = max(len(m) for m in marks_per_node)
    for s in range(k):
        yield np.array([m[(s + (3 * i if len(m) > 3 else i)) % len(m)] for i, m in enumerate(marks_per_node)], int)


def entry(kind, T):
    """(entry, instance, marks of each node); three nodes in a chain unless stated"""
    e3 = [(0, 1), (2, 1)]
    mp = "max-product"
    if kind in ("graph", "digraph"):
        e = Z.graph_entries(T, 3, mp, kind == "digraph", None, graphs=[(3, e3)])
        return e, (hot(3, 3), G.earr(e3)), [marks(0, T)] * 3
    if kind == "graphcw":
        e = Z.graph_entries(T, 3, mp, False, [1. + (k % 7) for k in range(T)], graphs=[(3, e3)])
        return e, (hot(3, 3), G.earr(e3)), [marks(0, T)] * 3
    if kind == "chain":
        e = Z.chain_entry(T, 3, False, None, lens=(3,))
        return e, hot(3, 3), [marks(0, T)] * 3
    if kind == "grid":
        e = Z.grid_entry(T, 3, mp, 4, [(1, 3)])
        return e, hot(3, 3).reshape(1, 3, 3), [marks(0, T)] * 3
    if kind == "dgrid":
        e = Z.grid_entry(T, 3, mp, 4, [(3, 1)], directional=True)
        return e, hot(3, 3).reshape(3, 1, 3), [marks(0, T)] * 3
    if kind == "edge":
        e = Z.edgefeat_entry(T, 3, 2, mp, None, sym=[0], anti=[1], graphs=[(3, e3)])
        return e, (hot(3, 3), G.earr(e3), np.array([[1., 2.], [3., -1.]])), [marks(0, T)] * 3
    if kind == "multiclass":
        e = Z.multiclass_entry(T, 3, cw=[1. + (k % 7) for k in range(T)])
        return e, np.array([1., 2., -1.]), [marks(0, T)]
    if kind == "latentgraph":
        a = T // 2
        e = Z.latentgraph_entry((a, T - a) if a else (T, 1), 3, mp, graphs=[(3, e3)])
        return e, (hot(3, 3), G.earr(e3)), [marks(0, T if a else 2)] * 3
    if kind == "manylabels":       # two states for each of many labels
        e = Z.latentgraph_entry((2,) * T, 3, mp, graphs=[(3, e3)]) if T < 150 else None
        return e, (hot(3, 3), G.earr(e3)), [marks(0, 2 * T)] * 3
    if kind == "latentgrid":
        a = T // 2
        e = Z.latentgrid_entry((a, T - a) if a else (T, 1), 3, mp, 4, [(1, 3)])
        return e, hot(3, 3).reshape(1, 3, 3), [marks(0, T if a else 2)] * 3
    if kind == "latentnode":
        e = Z.latentnode_entry(T, 2, 2, mp, graphs=[(2, 1, [(0, 2), (1, 2)])])
        return e, (hot(2, 2), G.earr([(0, 2), (1, 2)]), 1), [marks(0, T)] * 2 + [[T, T + 1]]
    if kind == "latenthidden":
        e = Z.latentnode_entry(2, T, 2, mp, graphs=[(2, 1, [(0, 2), (1, 2)])])
        return e, (hot(2, 2), G.earr([(0, 2), (1, 2)]), 1), [[0, 1]] * 2 + [marks(2, 2 + T)]
    if kind == "latentedge":
        e = Z.latentnode_entry(T, 2, 2, mp, edge_features=2, graphs=[(2, 1, [(0, 2), (1, 2)])])
        return e, (hot(2, 2), G.earr([(0, 2), (1, 2)]), np.array([[1., 2.], [3., -1.]]), 1), [marks(0, T)] * 2 + [[T, T + 1]]
    if kind in ("typed", "typed2"):
        S = [T, 2] if kind == "typed" else [T // 2 + 1, T // 2 + 2]
        e = Z.typed_entry(S, [2, 1], [[1, 1], [1, 0]], [((2, 1), {(0, 0): [(0, 1)], (0, 1): [(1, 0)]})], "ad3")
        x = e.xs[0]
        x = ([hot(2, 2), hot(1, 1)], x[1], x[2])
        return e, x, [marks(0, S[0])] * 2 + [marks(S[0], S[0] + S[1])]
    if kind == "multilabel":       # the number of labels is the number of nodes
        e = Z.multilabel_entry(T, 3, [(k, k + 1) for k in range(T - 1)], mp)
        return e, np.array([1., 2., -1.]), [[0, 1]] * T
    if kind == "binary":           # features
        e = Z.binary_entry(3)
        F = T
        from pystruct.models import BinaryClf
        e = Z.Entry("BinaryClf(F=%d)" % F, lambda: BinaryClf(n_features=F), [], F, psi=lambda x, y: float(y) * x / 2.,
                    labels=None, loss=lambda y, yh: float(int(y) != int(yh)), relaxable=False, batch_arrays=True, scalar=True)
        return e, np.arange(F) % 5 - 1., [[-1, 1]]
    raise KeyError(kind)


KINDS = ["graph", "digraph", "graphcw", "chain", "grid", "dgrid", "edge", "multiclass", "latentgraph", "manylabels", "latentgrid", "latentnode",
         "latenthidden", "latentedge", "typed", "typed2", "multilabel", "binary"]


def onehot(e, x, y):
    """relaxed solution of a labeling (single type models)"""
    edges = e.edges(x)
    S = e.S
    u = np.zeros((y.size, S))
    u[np.arange(y.size), y.ravel()] = 1
    pw = np.zeros((len(edges), S * S))
    for k, (a, b) in enumerate(edges):
        pw[k, y.ravel()[int(a)] * S + y.ravel()[int(b)]] = 1
    return u, pw


def states(ctx, kind, T):
    e, x, mk = entry(kind, T)
    if e is None:
        return
    scalar = getattr(e, "scalar", False)
    m = e.make()
    with ctx.case(lambda: dict(model=e.name, size=T, what="size")):
        X1, Y1 = [x], None
        ctx.did()
        ctx.check(m.size_joint_feature == e.d, "size of the joint feature %r, not %r" % (m.size_joint_feature, e.d))
    ys = list(cyclic(mk))
    grid = getattr(e, "grid", False)
    if grid:
        ys = [y.reshape(x.shape[:2]) for y in ys]
    if scalar:
        ys = [int(y[0]) for y in ys]
    for i, y in enumerate(ys):
        want = e.psi(x, y)
        for dt in (np.int64, np.int32, np.int16):
            with ctx.case(lambda: dict(model=e.name, size=T, labels=y, type=np.dtype(dt).name, what="joint feature and loss")):
                yt = dt(y) if scalar else y.astype(dt)
                got = m.joint_feature(x, yt)
                ctx.did()
                ctx.check(got.shape == (e.d,) and np.allclose(got, want, rtol=1e-12, atol=1e-12), "joint feature",
                          got=np.flatnonzero(got), expected=np.flatnonzero(want))
                for yh in ys[:i + 4]:
                    l = m.loss(yt, dt(yh) if scalar else yh.astype(dt))
                    ctx.did()
                    ctx.check(abs(l - e.loss(y, yh)) < 1e-9, "loss %r, not %r" % (l, e.loss(y, yh)), other=yh)
                ctx.outcome((kind, dt))
        if e.relaxable and not getattr(e, "typed", False) and kind != "latentedge" and not kind.startswith("latent"):
            with ctx.case(lambda: dict(model=e.name, size=T, labels=y, what="relaxed")):
                r = onehot(e, x, y)
                if grid:
                    r = (r[0].reshape(x.shape[:2] + (-1,)), r[1])
                got = m.joint_feature(x, r)
                ctx.did()
                ctx.check(np.allclose(got, want), "joint feature of one-hot marginals")
                if kind != "multilabel":
                    z = ys[(i + 1) % len(ys)]
                    l = m.continuous_loss(z, r[0])
                    ctx.check(abs(l - e.loss(z, y)) < 1e-9, "relaxed loss %r, not %r" % (l, e.loss(z, y)))
        # weights under which y is the only best labeling
        w = want * 10. if kind != "multilabel" else want
        if kind in ("multiclass",):
            pass
        if kind in ("edge", "latentedge", "typed", "typed2"):
            w = want.copy()
            k = unary_size(e, kind, T)
            w[:k] *= 100.
        if kind in ("latentnode", "latenthidden"):
            k = unary_size(e, kind, T)
            w[:k] *= 100.
        with ctx.case(lambda: dict(model=e.name, size=T, labels=y, what="prediction")):
            got = m.inference(x, w)
            ctx.did()
            ctx.check(same(got, y), "not the only best labeling", got=got)
            if kind != "binary":
                got = m.loss_augmented_inference(x, y, w * 3)
                ctx.did()
                ctx.check(same(got, y), "loss-augmented: not the only best labeling", got=got)
            for z in ys[:3]:
                if kind == "multilabel" and T > 60:
                    break
                got = m.loss_augmented_inference(x, z, w * .01)
                ctx.did()
                val = e.loss(z, got) + .01 * w.dot(e.psi(x, got))
                best = max(e.loss(z, v) + .01 * w.dot(e.psi(x, v)) for v in ys)
                ctx.check(val >= best - 1e-8 * (1 + abs(best)), "loss-augmented value %r, %r is possible" % (val, best), truth=z, got=got)
            if e.latent:
                v = e.to_label(x, y)
                got = m.label_from_latent(y)
                ctx.check(same(got, v), "label of hidden states", got=got)
                got = m.latent(x, v, w)
                ctx.did()
                ctx.check(same(got, y), "completion: not the only best hidden states", got=got)
            ctx.outcome((kind, "prediction"))
    # batches
    with ctx.case(lambda: dict(model=e.name, size=T, what="batches")):
        X = np.array([x] * len(ys)) if e.batch_arrays else [x] * len(ys)
        Y = np.array(ys) if e.batch_arrays else ys
        got = m.batch_joint_feature(X, Y)
        ctx.did()
        ctx.check(np.allclose(got, sum(e.psi(x, y) for y in ys)), "joint features of a batch")
        got = m.batch_loss(Y, Y[::-1])
        ctx.check(np.allclose(got, [e.loss(a, b) for a, b in zip(ys, ys[::-1])]), "losses of a batch", got=got)
        w = G.generic(e.d, 7, scale=2.)
        if kind != "edge":
            p = m.batch_inference(X, w)
            ctx.check(all(same(a, m.inference(x, w)) for a in p), "predictions of a batch")
        ctx.outcome((kind, "batch"))


def implicit(ctx, T):
    """sizes inferred from data"""
    from pystruct.models import ChainCRF, EdgeFeatureGraphCRF, GraphCRF, GridCRF, LatentGraphCRF, MultiClassClf, MultiLabelClf
    y = np.array(range(T) if T > 3 else [0] * (4 - T) + list(range(T)))
    n = len(y)
    X = hot(n, 3)
    e = G.earr([(k, k + 1) for k in range(n - 1)])
    f = np.ones((n - 1, 2))
    for name, make, x, yy, size in (
            ("GraphCRF", lambda: GraphCRF(), (X, e), y, None), ("ChainCRF", lambda: ChainCRF(), X, y, None),
            ("GridCRF", lambda: GridCRF(), X.reshape(1, n, 3), y.reshape(1, n), None),
            ("EdgeFeatureGraphCRF", lambda: EdgeFeatureGraphCRF(), (X, e, f), y, None),
            ("MultiClassClf", lambda: MultiClassClf(), X, y, 3 * T),
            ("MultiLabelClf", lambda: MultiLabelClf(), hot(2, 3), np.arange(2 * T).reshape(2, T) % 2, 3 * T),
            ("MultiLabelClf full", lambda: MultiLabelClf(edges="full"), hot(2, 3), np.arange(2 * T).reshape(2, T) % 2, 3 * T + 2 * T * (T - 1))):
        for dt in (np.int64, np.int32, np.int16):
            with ctx.case(lambda: dict(model=name, size=T, type=np.dtype(dt).name, what="sizes from data")):
                m = make()
                batch = name.startswith("Multi")
                m.initialize(x if batch else [x], yy.astype(dt) if batch else [yy.astype(dt)])
                ctx.did()
                if not name.startswith("MultiLabel"):
                    ctx.check(m.n_states == T, "%d states, not %d" % (m.n_states, T))
                else:
                    ctx.check(m.n_labels == T, "%d labels, not %d" % (m.n_labels, T))
                want = size or {"ChainCRF": 3 * T + T * T, "EdgeFeatureGraphCRF": 3 * T + 2 * T * T}.get(name, 3 * T + T * (T + 1) // 2)
                ctx.check(m.size_joint_feature == want, "size of the joint feature %r, not %r" % (m.size_joint_feature, want))
                ctx.outcome((name, T))
    if T not in (1, 2, 3, 129, 257):
        return
    with ctx.case(lambda: dict(model="LatentGraphCRF", size=T, what="sizes from data")):
        m = LatentGraphCRF(n_states_per_label=2)
        y, X, n = np.repeat(y, 2), hot(2 * n, 3), 2 * n
        e = G.earr([(k, k + 1) for k in range(n - 1)])
        m.initialize([(X, e)], [y])
        ctx.did()
        ctx.check(m.n_states == 2 * T and m.n_labels == T and m.size_joint_feature == 6 * T + T * (2 * T + 1), "%d states" % m.n_states)
        h = m.init_latent([(X, e)], [y])[0]
        ctx.check(same(m.label_from_latent(h), y), "initial hidden states belong to other labels")
        w = np.zeros(m.size_joint_feature)
        w[3:6 * T:6] = 1.
        h = m.latent((X, e), y, w)
        ctx.check(same(m.label_from_latent(h), y), "completed hidden states belong to other labels")


def methods(ctx, S):
    """inference with many states"""
    from pystruct.inference import inference_dispatch
    mk = marks(0, S)
    edges = G.earr([(0, 1), (2, 1)])
    for y in cyclic([mk] * 3):
        u = np.zeros((3, S))
        u[np.arange(3), y] = 1.
        pw = np.zeros((2, S, S))
        pw[[0, 1], y[[0, 2]], y[[1, 1]]] = .5
        for method in ("max-product", ("ad3", {"branch_and_bound": True}), "ad3", "ad3+", "unary") + (("lp",) if S < 4 else ()):
            with ctx.case(lambda: dict(method=method, states=S, best=y)):
                got = inference_dispatch(u, pw if method != "unary" else np.zeros((0, S, S)), edges if method != "unary" else edges[:0], method)
                ctx.did()
                ctx.check(same(got, y), "not the only best labeling", got=got)
                ctx.outcome((str(method), S))


def unary_size(e, kind, T):
    if kind == "edge":
        return T * 3
    if kind in ("latentnode", "latentedge"):
        return T * 2
    if kind == "latenthidden":
        return 2 * 2
    S = [T, 2] if kind == "typed" else [T // 2 + 1, T // 2 + 2]
    return S[0] * 2 + S[1]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


# -- many nodes -------------------------------------------------------------------------------------------

def target(n, S):
    i = np.arange(n)
    return ((i * i + i // 3) % S).astype(int)


def forest_edges(shape, n):
    i = np.arange(n - 1)
    if shape == "chain":
        return np.c_[i, i + 1]
    if shape == "back":           # last node first, directions alternate
        e = np.c_[i, i + 1][::-1]
        e[::2] = e[::2, ::-1]
        return np.ascontiguousarray(e)
    if shape == "star":
        return np.c_[np.full(n - 1, n - 1), i]
    if shape == "binary":
        return np.c_[i // 2, i + 1]
    if shape == "pairs":
        return np.c_[np.arange(0, n - 1, 2), np.arange(1, n, 2)]
    return np.zeros((0, 2), int)


def pair_ref(edges, y, S):
    P = np.zeros((S, S))
    np.add.at(P, (y[edges[:, 0]], y[edges[:, 1]]), 1)
    return P


def nodes(ctx, shape, n, methods):
    from pystruct.inference import compute_energy, inference_dispatch
    from pystruct.models import ChainCRF, EdgeFeatureGraphCRF, GraphCRF
    from pystruct.utils.graph_functions import is_forest
    S = 3
    edges = forest_edges(shape, n).astype(int)
    y = target(n, S)
    u = np.zeros((n, S))
    u[np.arange(n), y] = 1.
    u += (np.arange(n * S).reshape(n, S) * 7 % 5) * .01
    P = np.zeros((S, S))
    # edges reward the target: one matrix per edge
    pw = np.zeros((len(edges), S, S))
    if len(edges):
        pw[np.arange(len(edges)), y[edges[:, 0]], y[edges[:, 1]]] = 1.
    # the labels of the nodes that prefer another one are decided by their edges
    wrong = np.arange(n) % 7 == 3
    if shape in ("chain", "back"):
        u[wrong, y[wrong]] -= 1.2
    for method in methods:
        with ctx.case(lambda: dict(graph=shape, nodes=n, method=method)):
            opt = (method, {"branch_and_bound": True}) if method.startswith("ad3") else method
            got = inference_dispatch(u, pw, edges, opt)
            ctx.did()
            want = y if method != "unary" else np.argmax(u, axis=1)
            ctx.check(same(got, want), "%d nodes have another label than in the best labeling" % (np.sum(np.asarray(got) != want)))
            ctx.outcome((shape, method))
    with ctx.case(lambda: dict(graph=shape, nodes=n, what="energy, forest")):
        en = compute_energy(u, pw, edges, y)
        ctx.did()
        ref = u[np.arange(n), y].sum() + len(edges)
        ctx.check(abs(en - ref) < 1e-6 * (1 + abs(ref)), "energy %r, not %r" % (en, ref))
        ctx.check(is_forest(edges, n), "a forest is not recognised")
        if 2 < n and shape == "chain":
            ctx.check(not is_forest(np.vstack([edges[: n - 2], [[0, n - 2]]]) if n > 3 else np.array([[0, 1], [1, 2], [2, 0]]), None if n <= 3 else n),
                      "a cycle is not recognised")
    features(ctx, shape, n, S, edges, y)
    features(ctx, shape, n, S, edges, np.ones(n, int))
    features(ctx, shape, n, S, edges, np.where(np.arange(n) % 200 == 5, 0, 2))


def features(ctx, shape, n, S, edges, y):
    from pystruct.models import ChainCRF, EdgeFeatureGraphCRF, GraphCRF, LatentGraphCRF, LatentNodeCRF, NodeTypeEdgeFeatureGraphCRF
    X = np.c_[np.ones(n), np.arange(n) % 4]
    U = np.zeros((S, 2))
    np.add.at(U, y, X)
    C = pair_ref(edges, y, S)
    z = (y + (np.arange(n) % 2)) % S
    with ctx.case(lambda: dict(graph=shape, nodes=n, what="joint feature, loss")):
        m = GraphCRF(n_states=S, n_features=2, directed=True)
        x = (X, edges)
        got = m.joint_feature(x, y)
        ctx.did()
        ctx.check(np.allclose(got, np.hstack([U.ravel(), C.ravel()])), "joint feature")
        ctx.check(m.loss(y, z) == np.sum(y != z) and m.max_loss(y) == n, "loss")
        m = GraphCRF(n_states=S, n_features=2)
        ctx.check(np.allclose(m.joint_feature(x, y), np.hstack([U.ravel(), Z.lower_sym(C)])), "joint feature of an undirected model")
        m = EdgeFeatureGraphCRF(n_states=S, n_features=2, n_edge_features=2)
        f = np.c_[np.ones(len(edges)), np.arange(len(edges)) % 3]
        D = np.zeros((S, S))
        if len(edges):
            np.add.at(D, (y[edges[:, 0]], y[edges[:, 1]]), f[:, 1])
        ctx.check(np.allclose(m.joint_feature((X, edges, f), y), np.hstack([U.ravel(), C.ravel(), D.ravel()])), "joint feature with edge features")
        m = NodeTypeEdgeFeatureGraphCRF(1, [S], [2], [[2]])
        ctx.check(np.allclose(m.joint_feature(([X], [edges], [f]), y), np.hstack([U.ravel(), C.ravel(), D.ravel()])), "joint feature of a typed model")
        ctx.check(m.loss(y, z) == np.sum(y != z), "loss of a typed model")
        m = LatentGraphCRF(n_labels=2, n_features=2, n_states_per_label=[1, 2])
        ctx.check(np.allclose(m.joint_feature(x, y), np.hstack([U.ravel(), Z.lower_sym(C)])), "joint feature of a latent model")
        ctx.check(m.loss(y, z) == np.sum((y > 0) != (z > 0)), "loss of a latent model")
        m = LatentNodeCRF(n_labels=3, n_hidden_states=2, n_features=2)
        P = np.zeros((5, 5))
        P[:S, :S] = C
        ctx.check(np.allclose(m.joint_feature((X, edges, 0), y), np.hstack([U.ravel(), Z.lower_sym(P)])), "joint feature with latent nodes")
        ctx.check(m.loss(y, z) == np.sum(y != z), "loss with latent nodes")
        if shape == "chain":
            m = ChainCRF(n_states=S, n_features=2)
            ctx.check(np.allclose(m.joint_feature(X, y), np.hstack([U.ravel(), C.ravel()])), "joint feature of a chain")
            w = np.zeros(m.size_joint_feature)
            w[:S * 2] = [1, 0, .5, .3, 0, .6]
            got = m.inference(X, w)
            best = np.argmax(X.dot(np.array([[1, 0], [.5, .3], [0, .6]]).T), axis=1)
            ctx.check(same(got, best), "prediction of a chain without interaction")
        ctx.outcome((shape, "model"))


def grids(ctx, h, w):
    ids = np.arange(h * w).reshape(h, w)
    groups = [(ids[:, :-1], ids[:, 1:]), (ids[:-1], ids[1:]), (ids[1:, :-1], ids[:-1, 1:]), (ids[:-1, :-1], ids[1:, 1:])]
    for y in (target(h * w, 3).reshape(h, w), np.ones((h, w), int)):
        grid(ctx, h, w, ids, groups, y)


def grid(ctx, h, w, ids, groups, y):
    from pystruct.models import DirectionalGridCRF, GridCRF
    from pystruct.utils import edge_list_to_features, make_grid_edges
    x = np.dstack([np.ones((h, w)), ids % 4])
    U = np.zeros((3, 2))
    np.add.at(U, y.ravel(), x.reshape(-1, 2))
    for nb in (4, 8):
        with ctx.case(lambda: dict(height=h, width=w, neighborhood=nb)):
            ls = make_grid_edges(x, neighborhood=nb, return_lists=True)
            ctx.did()
            ctx.check(len(ls) == nb // 2, "groups")
            for (a, b), g in zip(groups, ls):
                want = np.c_[a.ravel(), b.ravel()]
                g = np.asarray(g)
                ctx.check(g.shape == want.shape and np.array_equal(g[np.lexsort(g.T)], want[np.lexsort(want.T)]), "neighbouring cells")
            f = edge_list_to_features(ls)
            ctx.check(np.array_equal(f.sum(axis=0), [a.size for a, _ in groups[:nb // 2]]) and np.all(f.sum(axis=1) == 1), "groups of edges")
            pairs = [pair_ref(np.c_[a.ravel(), b.ravel()], y.ravel(), 3) for a, b in groups[:nb // 2]]
            m = GridCRF(n_states=3, n_features=2, neighborhood=nb, inference_method="unary")
            ctx.check(np.allclose(m.joint_feature(x, y), np.hstack([U.ravel(), Z.lower_sym(sum(pairs))])), "joint feature")
            d = DirectionalGridCRF(n_states=3, n_features=2, neighborhood=nb, inference_method="unary")
            ctx.check(np.allclose(d.joint_feature(x, y), np.hstack([U.ravel()] + [p.ravel() for p in pairs])), "joint feature with directions")
            z = (y + ids % 2) % 3
            ctx.check(m.loss(y, z) == np.sum(y != z) == d.loss(y, z), "loss")
            wv = np.zeros(m.size_joint_feature)
            wv[:6] = [1, 0, .5, .3, 0, .6]
            got = m.inference(x, wv)
            ctx.check(same(got, np.argmax(x.dot(np.array([[1, 0], [.5, .3], [0, .6]]).T), axis=2)), "prediction without interaction")
            ctx.outcome((h, w, nb))


def samples(ctx, n):
    """batches and learners' predict and score with many instances"""
    from pystruct.learners import FrankWolfeSSVM, NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM
    from pystruct.models import BinaryClf, ChainCRF, MultiClassClf
    X = np.c_[np.ones(n), (np.arange(n) * 7) % 11, (np.arange(n) * 5) % 13].astype(float)
    W = np.array([[1., .3, -.2], [0., .5, .1], [2., -.4, .3]])
    best = np.argmax(X.dot(W.T), axis=1)
    Y = (best + (np.arange(n) % 3 == 0)) % 3
    for cls in (FrankWolfeSSVM, NSlackSSVM, OneSlackSSVM, StructuredPerceptron, SubgradientSSVM):
        with ctx.case(lambda: dict(samples=n, learner=cls.__name__, model="MultiClassClf")):
            l = cls(MultiClassClf(n_features=3, n_classes=3))
            l.w = W.ravel()
            p = l.predict(X)
            ctx.did()
            ctx.check(same(p, best), "predictions")
            ctx.check(abs(l.score(X, Y) - np.mean(best == Y)) < 1e-9, "score")
        with ctx.case(lambda: dict(samples=n, learner=cls.__name__, model="BinaryClf")):
            l = cls(BinaryClf(n_features=3))
            l.w = np.array([1., -.5, .25]) + .01
            s = np.where(X.dot(l.w) > 0, 1, -1)
            t = np.where(np.arange(n) % 3 == 0, -s, s)
            ctx.check(same(np.ravel(l.predict(X)), s) and abs(l.score(X, t) - np.mean(s == t)) < 1e-9, "predictions or score")
        with ctx.case(lambda: dict(samples=n, learner=cls.__name__, model="ChainCRF")):
            l = cls(ChainCRF(n_features=3, n_states=3))
            l.w = np.hstack([W.ravel(), np.zeros(9)])
            chains = [X[i:i + 1 + i % 3] for i in range(n)]
            p = l.predict(chains)
            ctx.did()
            ctx.check(len(p) == n and all(same(q, best[i:i + 1 + i % 3]) for i, q in enumerate(p)), "predictions")
            truth = [Y[i:i + 1 + i % 3] for i in range(n)]
            wrong = sum(np.sum(best[i:i + 1 + i % 3] != t) for i, t in enumerate(truth))
            ctx.check(abs(l.score(chains, truth) - (1 - wrong / float(sum(map(len, truth))))) < 1e-9, "score")
    m = MultiClassClf(n_features=3, n_classes=3)
    with ctx.case(lambda: dict(samples=n, what="batches")):
        U = np.zeros((3, 3))
        np.add.at(U, Y, X)
        m.initialize(X, np.hstack([Y, [0, 1, 2]])) if n < 3 else m.initialize(X, Y)
        ctx.did()
        ctx.check(np.allclose(m.batch_joint_feature(X, Y), U.ravel()), "joint features of a batch")
        la = m.batch_loss_augmented_inference(X, Y, W.ravel())
        val = X.dot(W.T) + 1
        val[np.arange(n), Y] -= 1
        ctx.check(np.allclose(val[np.arange(n), np.asarray(la)], val.max(axis=1)), "loss-augmented inference of a batch")
        ctx.check(np.array_equal(m.batch_loss(Y, best), (Y != best).astype(float)), "losses of a batch")
        ctx.outcome(n)


def training(ctx, what, args):
    import importlib
    mod = {"P16": "p16_cuttingplane", "P17": "p17_frankwolfe", "P20": "p20_subgradient", "P21": "p21_perceptron"}[what]
    importlib.import_module("mc.checks." + mod).long(ctx, *args)


def shards(tier):
    Th = tier == "thorough"
    out = []
    for kind in KINDS:
        for T in EDGE:
            out.append(("states", (kind, T)))
    for T in EDGE:
        out += [("implicit", (T,)), ("methods", (T,))]
    for shape in ("chain", "back", "star", "binary", "pairs", "none"):
        for n in EDGE:
            if n > 1:
                out.append(("nodes", (shape, n, ("max-product", "ad3", "ad3+", "unary", "lp"))))
        for n in BIG:
            if shape != "star" or n < 40000 or Th:
                out.append(("nodes", (shape, n, ("max-product", "unary"))))
    for h, w in ((1, 300), (300, 1), (128, 256), (181, 182), (200, 200), (256, 257)) + (((1, 70000), (512, 300)) if Th else ()):
        out.append(("grids", (h, w)))
    for n in EDGE + [1000]:
        out.append(("samples", (n,)))
    for n in (127, 128, 129, 255, 256, 257):
        for kind in "NO":
            out.append(("training", ("P16", (kind, "default", .1, n, 3, 2, 1))))
        out.append(("training", ("P17", (n, 3, 2, .1, "default", 1))))
        out.append(("training", ("P20", (n, 3, 2, 2, 1, 24, n % 24))))
        out.append(("training", ("P21", (n, 3, 2, 2, 1, 5, n % 5))))
    return out
