"""One small closed instance of every model, with an independent definition of its joint feature
vector, its loss and its label space.  Nothing here calls the code under test except the
constructors; the definitions are loops over nodes and edges taken from the documentation.
"""
import itertools

import numpy as np

from . import graphs as G


def onehot_unary(xf, y, S):
    """n_states x n_features accumulation, rows by state."""
    F = xf.shape[1]
    out = np.zeros((S, F))
    for i, s in enumerate(y):
        for f in range(F):
            out[int(s), f] += xf[i, f]
    return out.ravel()


def pair_counts(edges, y, S, weights=None):
    out = np.zeros((S, S))
    for k, (a, b) in enumerate(edges):
        out[int(y[int(a)]), int(y[int(b)])] += 1. if weights is None else weights[k]
    return out


def lower_sym(P):
    """Symmetric parameter (a,b), a>=b, listed by rows of the lower triangle."""
    S = len(P)
    out = []
    for a in range(S):
        for b in range(a + 1):
            out.append(P[a, a] if a == b else P[a, b] + P[b, a])
    return np.array(out)


def grid_edge_groups(h, w, neighborhood):
    """right, down, (up-right, down-right) edges of a row-major h x w grid."""
    right = [(r * w + c, r * w + c + 1) for r in range(h) for c in range(w - 1)]
    down = [(r * w + c, (r + 1) * w + c) for r in range(h - 1) for c in range(w)]
    g = [right, down]
    if neighborhood == 8:
        g.append([((r + 1) * w + c, r * w + c + 1) for r in range(h - 1) for c in range(w - 1)])
        g.append([(r * w + c, (r + 1) * w + c + 1) for r in range(h - 1) for c in range(w - 1)])
    return g


class Entry(object):
    """name, make() -> model, xs, plus reference psi/loss/labels."""
    relaxable = True          # y may be a (unary, pairwise) tuple
    supports_cw = False
    has_relaxed_arg = True
    batch_arrays = False      # X, Y are arrays
    latent = False
    exact = "any"             # inference is exact for "any" score, or only "unique" maximisers
    span_only = False         # weights must respect a symmetry

    def __init__(self, name, make, xs, d, **kw):
        self.name, self._make, self.xs, self.d = name, make, xs, d
        for k, v in kw.items():
            setattr(self, k, v)
        self._cache = {}

    def make(self):
        return self._make()

    def __repr__(self):
        return self.name

    def table(self, xi):
        """(labels list, psi matrix) for instance xi."""
        if xi not in self._cache:
            x = self.xs[xi]
            ys = self.labels(x)
            self._cache[xi] = (ys, np.array([self.psi(x, y) for y in ys]).reshape(len(ys), self.d))
        return self._cache[xi]

    def loss_row(self, x, y_true, ys):
        return np.array([self.loss(y_true, y) for y in ys], float)

    def key(self, y):
        return tuple(np.asarray(y).ravel().tolist())

    def proj(self, w):
        return w

    def visible(self, x):
        """indices of nodes that carry loss"""
        return None

    def weights(self, k, values=(1., -1.), n_generic=3):
        for w in G.sparse_vectors(self.d, k, values):
            yield self.proj(w)
        for s in range(n_generic):
            yield self.proj(G.generic(self.d, 100 + s, scale=2))
            yield self.proj(G.generic(self.d, 200 + s, scale=20))


def node_labels(n, S, shape=None):
    out = []
    for t in itertools.product(range(S), repeat=n):
        y = np.array(t, dtype=int).reshape((n,) if shape is None else shape)
        out.append(y)
    return out


def hamming(cw=None):
    def loss(y, yh):
        y, yh = np.asarray(y).ravel(), np.asarray(yh).ravel()
        return float(sum((1. if cw is None else cw[int(a)]) for a, b in zip(y, yh) if int(a) != int(b)))
    return loss


def feats(n, F, seed=0):
    """small integer features, pairwise different rows where possible"""
    rng = np.random.RandomState(seed)
    return rng.randint(-2, 3, size=(n, F)).astype(float)


TREE_GRAPHS = [
    (1, []), (2, []), (2, [(0, 1)]), (2, [(1, 0)]), (3, [(0, 1), (1, 2)]),
    (3, [(2, 1), (0, 1)]), (3, [(0, 2)]), (4, [(0, 3), (1, 3), (3, 2)])]


def graph_entries(S, F, method, directed, cw, graphs=TREE_GRAPHS, exact="any", tag=""):
    from pystruct.models import GraphCRF
    xs = [(feats(n, F, seed=n + 7 * len(e)), G.earr(e)) for n, e in graphs]
    d = S * F + (S * S if directed else S * (S + 1) // 2)

    def psi(x, y):
        P = pair_counts(x[1], y, S)
        return np.hstack([onehot_unary(x[0], y, S), P.ravel() if directed else lower_sym(P)])
    return Entry("GraphCRF(S=%d,F=%d,%s,directed=%s,cw=%s%s)" % (S, F, method, directed, cw, tag),
                 lambda: GraphCRF(n_states=S, n_features=F, inference_method=method,
                                  directed=directed, class_weight=cw),
                 xs, d, psi=psi, labels=lambda x: node_labels(len(x[0]), S), loss=hamming(cw),
                 S=S, cw=cw, exact=exact, edges=lambda x: x[1], nodes=lambda x: len(x[0]),
                 method=method)


def chain_entry(S, F, directed, cw, method=None, exact="any", lens=(1, 2, 3, 4)):
    from pystruct.models import ChainCRF
    xs = [feats(n, F, seed=n) for n in lens]
    d = S * F + (S * S if directed else S * (S + 1) // 2)

    def psi(x, y):
        P = pair_counts([(i, i + 1) for i in range(len(x) - 1)], y, S)
        return np.hstack([onehot_unary(x, y, S), P.ravel() if directed else lower_sym(P)])
    return Entry("ChainCRF(S=%d,F=%d,%s,directed=%s,cw=%s)" % (S, F, method, directed, cw),
                 lambda: ChainCRF(n_states=S, n_features=F, directed=directed, class_weight=cw,
                                  inference_method=method),
                 xs, d, psi=psi, labels=lambda x: node_labels(len(x), S), loss=hamming(cw),
                 S=S, cw=cw, exact=exact,
                 edges=lambda x: G.earr([(i, i + 1) for i in range(len(x) - 1)]),
                 nodes=lambda x: len(x), method=method)


def grid_entry(S, F, method, neighborhood, shapes, directional=False, exact="any"):
    from pystruct.models import GridCRF, DirectionalGridCRF
    xs = [feats(h * w, F, seed=h * 3 + w).reshape(h, w, F) for h, w in shapes]
    nef = 2 if neighborhood == 4 else 4
    d = S * F + (nef * S * S if directional else S * (S + 1) // 2)

    def psi(x, y):
        gs = grid_edge_groups(x.shape[0], x.shape[1], neighborhood)
        yf = np.asarray(y).ravel()
        u = onehot_unary(x.reshape(-1, F), yf, S)
        if directional:
            return np.hstack([u] + [pair_counts(g, yf, S).ravel() for g in gs])
        return np.hstack([u, lower_sym(sum(pair_counts(g, yf, S) for g in gs))])
    cls = DirectionalGridCRF if directional else GridCRF
    return Entry("%s(S=%d,F=%d,%s,nb=%d)" % ("DirectionalGridCRF" if directional else "GridCRF",
                                             S, F, method, neighborhood),
                 lambda: cls(n_states=S, n_features=F, inference_method=method,
                             neighborhood=neighborhood),
                 xs, d, psi=psi,
                 labels=lambda x: node_labels(x.shape[0] * x.shape[1], S, x.shape[:2]),
                 loss=hamming(), S=S, cw=None, exact=exact,
                 edges=lambda x: G.earr([e for g in grid_edge_groups(x.shape[0], x.shape[1],
                                                                     neighborhood) for e in g]),
                 nodes=lambda x: x.shape[0] * x.shape[1], method=method, grid=True)


def edgefeat_entry(S, F, EF, method, cw, sym=None, anti=None, graphs=TREE_GRAPHS, exact="any"):
    from pystruct.models import EdgeFeatureGraphCRF
    xs = []
    for n, e in graphs:
        ef = np.array([[(3 * k + 2 * f) % 5 - 1 for f in range(EF)] for k in range(len(e))],
                      dtype=float).reshape(len(e), EF)
        xs.append((feats(n, F, seed=n + 7 * len(e)), G.earr(e), ef))
    d = S * F + EF * S * S

    def psi(x, y):
        parts = [onehot_unary(x[0], y, S)]
        for f in range(EF):
            M = pair_counts(x[1], y, S, weights=x[2][:, f])
            if sym and f in sym:
                M = (M + M.T) / 2.
            if anti and f in anti:
                M = (M - M.T) / 2.
            parts.append(M.ravel())
        return np.hstack(parts)

    def proj(w):
        w = w.copy()
        for f in range(EF):
            M = w[S * F + f * S * S:S * F + (f + 1) * S * S].reshape(S, S)
            if sym and f in sym:
                M = (M + M.T) / 2.
            if anti and f in anti:
                M = (M - M.T) / 2.
            w[S * F + f * S * S:S * F + (f + 1) * S * S] = M.ravel()
        return w
    e = Entry("EdgeFeatureGraphCRF(S=%d,F=%d,EF=%d,%s,cw=%s,sym=%s,anti=%s)"
              % (S, F, EF, method, cw, sym, anti),
              lambda: EdgeFeatureGraphCRF(n_states=S, n_features=F, n_edge_features=EF,
                                          inference_method=method, class_weight=cw,
                                          symmetric_edge_features=sym,
                                          antisymmetric_edge_features=anti),
              xs, d, psi=psi, labels=lambda x: node_labels(len(x[0]), S), loss=hamming(cw), S=S,
              cw=cw, exact=exact, edges=lambda x: x[1], nodes=lambda x: len(x[0]), method=method)
    e.proj = proj
    return e


def multilabel_entry(L, F, edges, method, exact="any"):
    from pystruct.models import MultiLabelClf
    xs = [np.array(v, float) for v in ([1, 0, -1], [2, 1, 1], [0, 0, 0])]
    xs = [x[:F] for x in xs]
    ne = len(edges)
    d = L * F + 4 * ne

    def psi(x, y):
        parts = [(2. * y[l] - 1.) * x for l in range(L)]
        for a, b in edges:
            M = np.zeros((2, 2))
            M[y[a], y[b]] = 1
            parts.append(M.ravel())
        return np.hstack(parts)
    return Entry("MultiLabelClf(L=%d,F=%d,edges=%s,%s)" % (L, F, edges, method),
                 lambda: MultiLabelClf(n_labels=L, n_features=F,
                                       edges=G.earr(edges), inference_method=method),
                 xs, d, psi=psi, labels=lambda x: node_labels(L, 2), loss=hamming(), S=2, cw=None,
                 exact=exact, edges=lambda x: G.earr(edges), nodes=lambda x: L, method=method,
                 batch_arrays=True)


def binary_entry(F):
    from pystruct.models import BinaryClf
    xs = [np.array(v, float)[:F] for v in ([1, 0, 2], [-1, 1, 0], [2, 2, 1], [0, 0, 0])]
    return Entry("BinaryClf(F=%d)" % F, lambda: BinaryClf(n_features=F), xs, F,
                 psi=lambda x, y: np.array([float(y) * v / 2. for v in x]),
                 labels=lambda x: [-1, 1],
                 loss=lambda y, yh: float(int(y) != int(yh)), S=2, cw=None, relaxable=False,
                 batch_arrays=True, scalar=True, method=None)


def multiclass_entry(S, F, cw=None, rescale_C=False):
    from pystruct.models import MultiClassClf
    xs = [np.array(v, float)[:F] for v in ([1, 0, 2], [-1, 1, 0], [2, 2, 1], [0, 0, 0])]

    def psi(x, y, y_true=None):
        out = np.zeros((S, F))
        out[int(y)] = x
        if rescale_C and y_true is not None:
            out = out * cw[int(y_true)]
        return out.ravel()
    return Entry("MultiClassClf(S=%d,F=%d,cw=%s,rescale_C=%s)" % (S, F, cw, rescale_C),
                 lambda: MultiClassClf(n_features=F, n_classes=S, class_weight=cw,
                                       rescale_C=rescale_C), xs, S * F, psi=psi,
                 labels=lambda x: list(range(S)), loss=hamming(cw), S=S, cw=cw, relaxable=False,
                 batch_arrays=True, scalar=True, rescale_C=rescale_C, method=None)


def _states_map(nspl):
    m = []
    for l, k in enumerate(nspl):
        m += [l] * k
    return np.array(m)


def latentgraph_entry(nspl, F, method, graphs=TREE_GRAPHS, exact="any"):
    from pystruct.models import LatentGraphCRF
    S, smap = sum(nspl), _states_map(nspl)
    xs = [(feats(n, F, seed=n + 7 * len(e)), G.earr(e)) for n, e in graphs if n <= 3]
    d = S * F + S * (S + 1) // 2
    ham = hamming()

    def psi(x, y):
        return np.hstack([onehot_unary(x[0], y, S), lower_sym(pair_counts(x[1], y, S))])
    return Entry("LatentGraphCRF(states=%s,F=%d,%s)" % (nspl, F, method),
                 lambda: LatentGraphCRF(n_labels=len(nspl), n_features=F,
                                        n_states_per_label=list(nspl), inference_method=method),
                 xs, d, psi=psi, labels=lambda x: node_labels(len(x[0]), S),
                 loss=lambda h, hh: ham(smap[np.asarray(h).ravel()], smap[np.asarray(hh).ravel()]),
                 S=S, cw=None, exact=exact, latent=True, edges=lambda x: x[1],
                 nodes=lambda x: len(x[0]), method=method,
                 visible_labels=lambda x: node_labels(len(x[0]), len(nspl)), nspl=nspl,
                 to_label=lambda x, h: smap[np.asarray(h)])


def latentgrid_entry(nspl, F, method, neighborhood, shapes, directional=False, exact="any"):
    from pystruct.models import LatentGridCRF, LatentDirectionalGridCRF
    S, smap = sum(nspl), _states_map(nspl)
    xs = [feats(h * w, F, seed=h * 3 + w).reshape(h, w, F) for h, w in shapes]
    nef = 2 if neighborhood == 4 else 4
    d = S * F + (nef * S * S if directional else S * (S + 1) // 2)
    ham = hamming()

    def psi(x, y):
        gs = grid_edge_groups(x.shape[0], x.shape[1], neighborhood)
        yf = np.asarray(y).ravel()
        u = onehot_unary(x.reshape(-1, F), yf, S)
        if directional:
            return np.hstack([u] + [pair_counts(g, yf, S).ravel() for g in gs])
        return np.hstack([u, lower_sym(sum(pair_counts(g, yf, S) for g in gs))])
    cls = LatentDirectionalGridCRF if directional else LatentGridCRF
    return Entry("%s(states=%s,F=%d,%s,nb=%d)" % (cls.__name__, nspl, F, method, neighborhood),
                 lambda: cls(n_labels=len(nspl), n_features=F, n_states_per_label=list(nspl),
                             inference_method=method, neighborhood=neighborhood),
                 xs, d, psi=psi,
                 labels=lambda x: node_labels(x.shape[0] * x.shape[1], S, x.shape[:2]),
                 loss=lambda h, hh: ham(smap[np.asarray(h).ravel()], smap[np.asarray(hh).ravel()]),
                 S=S, cw=None, exact=exact, latent=True, grid=True,
                 edges=lambda x: G.earr([e for g in grid_edge_groups(x.shape[0], x.shape[1],
                                                                     neighborhood) for e in g]),
                 nodes=lambda x: x.shape[0] * x.shape[1], method=method,
                 visible_labels=lambda x: node_labels(x.shape[0] * x.shape[1], len(nspl), x.shape[:2]), nspl=nspl,
                 to_label=lambda x, h: smap[np.asarray(h)])


LATENT_NODE_GRAPHS = [   # n_visible, n_hidden, edges
    (1, 1, [(0, 1)]), (2, 1, [(0, 2), (1, 2)]), (2, 1, [(2, 0), (0, 1)]),
    (2, 2, [(0, 2), (1, 3), (2, 3)]), (3, 1, [(0, 3), (3, 1), (2, 3)]),
    (2, 0, [(0, 1)]), (1, 1, []), (2, 0, [])]


def latentnode_entry(L, H, F, method, cw=None, latent_feats=False, edge_features=0, exact="any",
                     graphs=LATENT_NODE_GRAPHS, sym=None, anti=None):
    from pystruct.models import LatentNodeCRF, EdgeFeatureLatentNodeCRF
    S = L + H
    NI = S if latent_feats else L
    EF = edge_features
    xs = []
    for nv, nh, e in graphs:
        f = feats(nv + (nh if latent_feats else 0), F, seed=nv + 3 * nh)
        if EF:
            ef = np.array([[(3 * k + 2 * j) % 5 - 1 for j in range(EF)] for k in range(len(e))],
                          float).reshape(len(e), EF)
            xs.append((f, G.earr(e), ef, nh))
        else:
            xs.append((f, G.earr(e), nh))
    d = NI * F + (EF * S * S if EF else S * (S + 1) // 2)
    ham = hamming(cw)

    def nvis(x):
        return x[0].shape[0] - (x[-1] if latent_feats else 0)

    def psi(x, y):
        u = np.zeros((NI, F))
        for i in range(x[0].shape[0]):
            if y[i] < NI:
                u[y[i]] += x[0][i]
        if EF:
            parts = [u.ravel()]
            for j in range(EF):
                M = pair_counts(x[1], y, S, weights=x[2][:, j])
                if sym and j in sym:
                    M = (M + M.T) / 2.
                if anti and j in anti:
                    M = (M - M.T) / 2.
                parts.append(M.ravel())
            return np.hstack(parts)
        return np.hstack([u.ravel(), lower_sym(pair_counts(x[1], y, S))])

    def labels(x):
        nv, nh = nvis(x), x[-1]
        return [np.array(v + tuple(k + L for k in h), dtype=int)
                for v in itertools.product(range(L), repeat=nv)
                for h in itertools.product(range(H), repeat=nh)]

    def make():
        if EF:
            m = EdgeFeatureLatentNodeCRF(n_labels=L, n_features=F, n_edge_features=EF,
                                         n_hidden_states=H, inference_method=method,
                                         latent_node_features=latent_feats,
                                         symmetric_edge_features=sym,
                                         antisymmetric_edge_features=anti)
        else:
            m = LatentNodeCRF(n_labels=L, n_hidden_states=H, n_features=F,
                              inference_method=method, latent_node_features=latent_feats)
        return m
    en = Entry("%s(L=%d,H=%d,F=%d,EF=%d,%s,latent_feats=%s,sym=%s,anti=%s)"
               % ("EdgeFeatureLatentNodeCRF" if EF else "LatentNodeCRF", L, H, F, EF, method,
                  latent_feats, sym, anti), make, xs, d, psi=psi, labels=labels,
               loss=lambda h, hh: ham([int(v) for v in h if v < L], [int(v) for v in hh if v < L]),
               S=S, cw=None, exact=exact, latent=True, edges=lambda x: x[1],
               nodes=lambda x: nvis(x) + x[-1], method=method, nvis=nvis, nL=L,
               visible_labels=lambda x: node_labels(nvis(x), L),
               to_label=lambda x, h: np.asarray(h)[np.asarray(h) < L])
    if EF:
        def proj(w):
            w = w.copy()
            for f in range(EF):
                M = w[NI * F + f * S * S:NI * F + (f + 1) * S * S].reshape(S, S)
                if sym and f in sym:
                    M = (M + M.T) / 2.
                if anti and f in anti:
                    M = (M - M.T) / 2.
                w[NI * F + f * S * S:NI * F + (f + 1) * S * S] = M.ravel()
            return w
        en.proj = proj
    return en


def typed_entry(l_states, l_feats, a_ef, instances, method, l_cw=None, exact="unique"):
    """instances: list of (n_nodes per type, {(t1,t2): edges})"""
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF
    T = len(l_states)
    start = np.cumsum([0] + list(l_states))
    xs = []
    for ii, (nn, edges) in enumerate(instances):
        nf = [feats(n, l_feats[t], seed=5 * ii + t) for t, n in enumerate(nn)]
        le, lf = [], []
        for t1 in range(T):
            for t2 in range(T):
                e = edges.get((t1, t2), [])
                k = a_ef[t1][t2]
                le.append(G.earr(e) if len(e) else None)
                lf.append(np.array([[(3 * q + 2 * j + t1) % 5 - 1 for j in range(k)]
                                    for q in range(len(e))], float).reshape(len(e), k)
                          if len(e) else None)
        xs.append((nf, le, lf))
    d = sum(s * f for s, f in zip(l_states, l_feats)) + \
        sum(a_ef[i][j] * l_states[i] * l_states[j] for i in range(T) for j in range(T))
    cwf = None if l_cw is None else np.hstack(l_cw)

    def labels(x):
        ranges = []
        for t in range(T):
            ranges += [range(start[t], start[t + 1])] * len(x[0][t])
        return [np.array(t, int) for t in itertools.product(*ranges)]

    def psi(x, y):
        off = np.cumsum([0] + [len(f) for f in x[0]])
        parts = []
        for t in range(T):
            parts.append(onehot_unary(x[0][t], y[off[t]:off[t + 1]] - start[t], l_states[t])
                         if l_feats[t] else np.zeros(0))
        for t1 in range(T):
            for t2 in range(T):
                k = a_ef[t1][t2]
                M = np.zeros((k, l_states[t1], l_states[t2]))
                e, f = x[1][t1 * T + t2], x[2][t1 * T + t2]
                if e is not None:
                    for q, (a, b) in enumerate(e):
                        for j in range(k):
                            M[j, y[off[t1] + a] - start[t1], y[off[t2] + b] - start[t2]] += f[q, j]
                parts.append(M.ravel())
        return np.hstack(parts)
    return Entry("NodeType(S=%s,F=%s,EF=%s,%s,cw=%s)" % (l_states, l_feats, a_ef, method, l_cw),
                 lambda: NodeTypeEdgeFeatureGraphCRF(T, list(l_states), list(l_feats),
                                                     [list(r) for r in a_ef],
                                                     inference_method=method,
                                                     l_class_weight=l_cw),
                 xs, d, psi=psi, labels=labels, loss=hamming(cwf), S=None, cw=cwf, exact=exact,
                 typed=True, method=method, T=T, start=start, l_states=l_states,
                 nodes=lambda x: sum(len(f) for f in x[0]))


TYPED_INSTANCES = [
    ((1, 1), {}),
    ((2, 1), {(0, 0): [(0, 1)], (0, 1): [(1, 0)]}),
    ((1, 2), {(0, 1): [(0, 0)], (1, 0): [(1, 0)]}),
    ((2, 2), {(0, 0): [(1, 0)], (1, 0): [(0, 1)], (1, 1): [(0, 1)]})]


def base_entries():
    """Non-latent models with exact inference on forests."""
    out = []
    for method in ("max-product",):
        for S, F in ((2, 1), (3, 2)):
            for directed in (False, True):
                out.append(graph_entries(S, F, method, directed, None))
        out.append(graph_entries(2, 2, method, False, [1., 3.]))
        out.append(graph_entries(3, 1, method, True, [2., .5, 1.]))
    out.append(graph_entries(2, 1, method, True, [2, 1], tag=",int weights"))
    for directed in (True, False):
        out.append(chain_entry(2, 2, directed, None))
        out.append(chain_entry(3, 1, directed, [1., 2., 4.]))
    out.append(chain_entry(4, 2, True, None, lens=(1, 2, 3)))
    out.append(grid_entry(2, 1, "max-product", 4, [(1, 1), (1, 3), (3, 1), (1, 2)]))
    out.append(grid_entry(3, 2, "max-product", 4, [(2, 1), (1, 3)]))
    out.append(grid_entry(2, 1, "max-product", 4, [(1, 1), (1, 3), (3, 1)], directional=True))
    out.append(grid_entry(3, 1, "max-product", 4, [(2, 1), (1, 3)], directional=True))
    out.append(grid_entry(2, 1, "max-product", 8, [(1, 3), (3, 1)], directional=True))
    out.append(grid_entry(2, 2, "max-product", 8, [(1, 3), (3, 1)]))
    out.append(edgefeat_entry(2, 1, 1, "max-product", None))
    out.append(edgefeat_entry(3, 2, 2, "max-product", [1., 2., .5]))
    out.append(edgefeat_entry(2, 1, 3, "max-product", None, sym=[0], anti=[2]))
    out.append(edgefeat_entry(3, 1, 2, "max-product", None, sym=[1], anti=[0]))
    for edges in ([], [(0, 1)], [(2, 0), (1, 2)]):
        out.append(multilabel_entry(3, 2, edges, "max-product"))
    out.append(multilabel_entry(2, 3, [(1, 0)], "max-product"))
    out.append(multilabel_entry(1, 2, [], "max-product"))
    out.append(binary_entry(2))
    out.append(binary_entry(3))
    out.append(multiclass_entry(3, 2))
    out.append(multiclass_entry(2, 3, cw=[1., 3.]))
    out.append(multiclass_entry(4, 1))
    out.append(multiclass_entry(3, 2, cw=[1., 5., .2]))
    out.append(multiclass_entry(3, 2, cw=[2., 1., .5], rescale_C=True))
    return out


LOOPY = [(3, [(0, 1), (1, 2), (2, 0)]), (4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]),
         (3, [(0, 1), (0, 1), (2, 1)])]
BNB = ('ad3', {'branch_and_bound': True})


def loopy_entries():
    """AD3 with branch and bound: exact on any graph (up to ties)."""
    out = [graph_entries(2, 1, BNB, False, None, graphs=LOOPY, exact="unique"),
           graph_entries(3, 1, BNB, True, [1., 2., 3.], graphs=LOOPY[:1], exact="unique"),
           grid_entry(2, 1, BNB, 4, [(2, 2), (2, 3)], exact="unique"),
           grid_entry(2, 1, BNB, 8, [(2, 2), (2, 3)], exact="unique"),
           grid_entry(2, 1, BNB, 4, [(2, 2), (3, 2)], directional=True, exact="unique"),
           grid_entry(2, 1, BNB, 8, [(2, 2), (2, 3)], directional=True, exact="unique"),
           edgefeat_entry(2, 1, 2, BNB, None, graphs=LOOPY, exact="unique"),
           multilabel_entry(3, 2, [(0, 1), (1, 2), (0, 2)], BNB, exact="unique")]
    return out


def tree_lp_entries():
    """'lp' and 'ad3' on forests: exact whenever the maximiser is unique."""
    out = []
    for m in ("lp", "ad3"):
        out.append(graph_entries(2, 1, m, False, None, exact="unique"))
        out.append(graph_entries(3, 1, m, True, [1., 2., 3.], exact="unique"))
        out.append(chain_entry(3, 1, True, None, method=m, exact="unique", lens=(1, 2, 3)))
        out.append(grid_entry(2, 1, m, 4, [(1, 3), (3, 1)], exact="unique"))
        out.append(grid_entry(2, 1, m, 4, [(1, 2), (3, 1)], directional=True, exact="unique"))
        out.append(edgefeat_entry(2, 1, 2, m, [1., 2.], exact="unique"))
        out.append(multilabel_entry(3, 2, [(0, 1), (2, 1)], m, exact="unique"))
    return out


def typed_entries():
    one = [((1,), {}), ((2,), {(0, 0): [(0, 1)]}), ((3,), {(0, 0): [(1, 0), (2, 1)]})]
    out = []
    for m in ("ad3", "ad3+"):
        out.append(typed_entry([2, 3], [1, 2], [[1, 2], [2, 1]], TYPED_INSTANCES, m))
        out.append(typed_entry([3, 2], [2, 1], [[1, 1], [1, 2]], TYPED_INSTANCES, m,
                               l_cw=[[1., 2., 3.], [4., .5]]))
        out.append(typed_entry([2, 2], [1, 1], [[1, 1], [1, 1]], TYPED_INSTANCES[:3], m,
                               l_cw=[[1, 2], [3, 1]]))
        out.append(typed_entry([2], [2], [[2]], one, m))
    out.append(typed_entry([2, 1, 2], [1, 1, 2], [[1, 0, 1], [0, 0, 1], [1, 1, 0]],
                           [((1, 1, 1), {(0, 2): [(0, 0)], (1, 2): [(0, 0)]}),
                            ((2, 1, 1), {(0, 0): [(0, 1)], (2, 0): [(0, 1)], (2, 1): [(0, 0)]})], "ad3"))
    return out


def latent_entries():
    m = "max-product"
    out = [latentgraph_entry((2, 2), 1, m), latentgraph_entry((1, 2, 1), 2, m),
           latentgraph_entry((3, 1), 1, m),
           latentgrid_entry((2, 1), 1, m, 4, [(1, 2), (3, 1)]),
           latentgrid_entry((1, 2), 1, m, 4, [(1, 2), (3, 1)], directional=True),
           latentnode_entry(2, 2, 1, m), latentnode_entry(2, 1, 2, m),
           latentnode_entry(3, 2, 1, m, graphs=LATENT_NODE_GRAPHS[:3]),
           latentnode_entry(2, 2, 1, m, latent_feats=True),
           latentnode_entry(2, 2, 1, m, edge_features=1),
           latentnode_entry(2, 1, 1, m, edge_features=2, sym=[0], anti=[1]),
           latentnode_entry(2, 1, 2, m, edge_features=2, latent_feats=True)]
    return out
