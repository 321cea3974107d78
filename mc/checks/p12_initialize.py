"""Sizes inferred from data equal explicit ones; inconsistent sizes are rejected."""
import itertools

import numpy as np

from .. import graphs as G
from .. import zoo

PROPERTY = "P12"
LEVEL = "model_checking"
RULE = ("one state per (model class, subset of dimensions given explicitly, dataset, probe); after the real "
        "initialize, joint features and predictions must equal those of the fully explicit model; one "
        "state per inconsistent dimension, which must raise ValueError")
BOUNDS = ("every subset of given dimensions x true sizes 1..3 x 3 data set arrangements, for all model "
          "classes; every single-dimension mismatch (off by one in either direction)")
ASSUMPTIONS = ["the training labels contain every state"]


class K(object):
    """A model class with named dimensions and a data set generator."""
    def __init__(self, name, make, data, dims, labels=None, psi=True, cw=None):
        self.name, self.make, self.data, self.dims = name, make, data, dims
        self.cw = cw


def rows(k, F):
    return np.array([[(i * 2 + f * 3 + i * f) % 5 - 2 for f in range(F)] for i in range(k)],
                    float).reshape(k, F)


def cover(n, S, r):
    """labels of three instances of n nodes which together contain all states"""
    return [np.array([(i + j * n + r) % S for i in range(n)]) for j in range(3)]


def classes():
    from pystruct import models as M
    E = G.earr([(0, 1), (1, 2)])
    out = []

    def graph_data(S, F, r, EF=None):
        ns = 3
        if EF is None:
            X = [(rows(ns + j, F)[j:], E) for j in range(3)]
        else:
            X = [(rows(ns + j, F)[j:], E, rows(2, EF) + j) for j in range(3)]
        return X, cover(3, S, r)
    for d in (True, False):
        out.append(K("GraphCRF(directed=%s)" % d,
                     lambda d=d, S=None, F=None, **k: M.GraphCRF(n_states=S, n_features=F, directed=d,
                                                                 inference_method="max-product", **k),
                     lambda S, F, r: graph_data(S, F, r), ("S", "F"), cw="S"))
        out.append(K("ChainCRF(directed=%s)" % d,
                     lambda d=d, S=None, F=None, **k: M.ChainCRF(n_states=S, n_features=F, directed=d, **k),
                     lambda S, F, r: ([rows(3, F), rows(4, F)[1:], rows(5, F)[2:]], cover(3, S, r)),
                     ("S", "F"), cw="S"))
    out.append(K("EdgeFeatureGraphCRF",
                 lambda S=None, F=None, EF=None, **k: M.EdgeFeatureGraphCRF(
                     n_states=S, n_features=F, n_edge_features=EF, inference_method="max-product", **k),
                 lambda S, F, EF, r: graph_data(S, F, r, EF), ("S", "F", "EF"), cw="S"))

    def grid_data(S, F, r):
        X = np.array([rows(3 + j, F)[j:].reshape(3, 1, F) for j in range(3)])
        Y = np.array([y.reshape(3, 1) for y in cover(3, S, r)])
        return (X, Y) if r % 2 else (list(X), list(Y))
    for nb in (4, 8):
        for cls in (M.GridCRF, M.DirectionalGridCRF):
            out.append(K("%s(%d)" % (cls.__name__, nb),
                         lambda cls=cls, nb=nb, S=None, F=None: cls(
                             n_states=S, n_features=F, neighborhood=nb, inference_method="max-product"),
                         grid_data, ("S", "F")))
    out.append(K("MultiLabelClf",
                 lambda L=None, F=None: M.MultiLabelClf(n_labels=L, n_features=F,
                                                        inference_method="max-product"),
                 lambda L, F, r: (rows(4, F), np.array([[(i + j + r) % 2 for j in range(L)]
                                                        for i in range(4)])), ("L", "F")))
    out.append(K("BinaryClf", lambda F=None: M.BinaryClf(n_features=F),
                 lambda F, r: (rows(4, F), np.array([1, -1, 1, -1]) * (1 - 2 * (r % 2))), ("F",)))
    out.append(K("MultiClassClf", lambda S=None, F=None, **k: M.MultiClassClf(n_classes=S, n_features=F, **k),
                 lambda S, F, r: (rows(4, F), (np.arange(4) + r) % S), ("S", "F"), cw="S"))
    out.append(K("LatentGraphCRF", lambda L=None, F=None: M.LatentGraphCRF(
        n_labels=L, n_features=F, n_states_per_label=2, inference_method="max-product"),
        lambda L, F, r: graph_data(L, F, r), ("L", "F")))
    for cls in (M.LatentGridCRF, M.LatentDirectionalGridCRF):
        out.append(K(cls.__name__, lambda cls=cls, L=None, F=None: cls(
            n_labels=L, n_features=F, n_states_per_label=2, inference_method="max-product"),
            grid_data_l(grid_data), ("L", "F")))

    def ln_data(L, F, r):
        E = G.earr([(0, 3), (1, 3), (2, 3)])
        return [(rows(3 + j, F)[j:], E, 1) for j in range(3)], cover(3, L, r)
    out.append(K("LatentNodeCRF", lambda L=None, F=None, **k: M.LatentNodeCRF(
        n_labels=L, n_features=F, n_hidden_states=2, inference_method="max-product", **k),
        ln_data, ("L", "F"), cw="L"))
    return out


def grid_data_l(f):
    return lambda L, F, r: f(L, F, r)


def nclasses():
    return 14 + 2


def probe(ctx, model, ref, X, Y):
    """same joint features and predictions"""
    d = ref.size_joint_feature
    ctx.check(model.size_joint_feature == d, "joint feature size %r instead of %r"
              % (model.size_joint_feature, d))
    latent = hasattr(ref, "label_from_latent")
    for x, y in zip(X, Y):
        if latent:
            h = ref.latent(x, y, np.zeros(d))
            ctx.check(np.array_equal(h, model.latent(x, y, np.zeros(d))), "latent states differ")
            y = h
        ctx.check(np.array_equal(model.joint_feature(x, y), ref.joint_feature(x, y)),
                  "joint features differ from the explicit model")
        for s in range(2):
            w = G.generic(d, 40 + s, scale=1)
            ctx.check(np.array_equal(model.inference(x, w), ref.inference(x, w)),
                      "predictions differ from the explicit model", w=w)
            ctx.check(np.array_equal(model.loss_augmented_inference(x, y, w),
                                     ref.loss_augmented_inference(x, y, w)),
                      "loss-augmented inference differs from the explicit model", w=w)
            ctx.did(3)


def run(ctx, ci):
    ks = classes()
    if ci >= len(ks):
        return
    k = ks[ci]
    sizes = {"S": (1, 2, 3), "F": (1, 2, 3), "EF": (1, 2), "L": (1, 2, 3)}
    nd = len(k.dims)
    for true in itertools.product(*[sizes[d] for d in k.dims]):
        tv = dict(zip(k.dims, true))
        for r in range(3):
            X, Y = k.data(*(list(true) + [r]))
            for mask in itertools.product((0, 1), repeat=nd):
                given = {d: v for d, v, m in zip(k.dims, true, mask) if m}
                cws = [None]
                if k.cw:
                    cws.append([float(2 + i) for i in range(tv[k.cw])])
                for cw in cws:
                    kw = {"class_weight": cw} if cw else {}
                    with ctx.case(lambda: dict(model=k.name, given=given, true=tv, X=X, Y=Y, class_weight=cw)):
                        ref = k.make(**dict(tv, **kw))
                        m = k.make(**dict(given, **kw))
                        m.initialize(X, Y)
                        ctx.did()
                        probe(ctx, m, ref, X, Y)
                        m.initialize(X, Y)
                        probe(ctx, m, ref, X, Y)
                        ref.initialize(X, Y)
                        probe(ctx, m, ref, X, Y)
                        ctx.outcome((k.name, true))
            # one wrong dimension
            for j, d in enumerate(k.dims):
                for delta in (-1, 1):
                    if true[j] + delta < 1:
                        continue
                    for rest in itertools.product((0, 1), repeat=nd - 1):
                        mask = rest[:j] + (1,) + rest[j:]
                        given = {q: v for q, v, m in zip(k.dims, true, mask) if m}
                        given[d] += delta
                        with ctx.case(lambda: dict(model=k.name, given=given, true=tv, X=X, Y=Y)):
                            m = k.make(**given)
                            ctx.did()
                            raises(ctx, lambda: m.initialize(X, Y), "initialize accepted data with %s=%d, "
                                   "model has %d" % (d, true[j], given[d]))
            # model used with data it was not made for, weights of a wrong size
            with ctx.case(lambda: dict(model=k.name, true=tv, what="weights of a wrong size")):
                m = k.make(**tv)
                D = m.size_joint_feature
                y = Y[0]
                if hasattr(m, "label_from_latent"):
                    y = m.latent(X[0], y, np.zeros(D))
                for bad in {0, D - 1, D + 1, 2 * D}:
                    w = np.zeros(bad)
                    if bad == 0 and not hasattr(m, "_check_size_w"):
                        continue
                    raises(ctx, lambda: m.inference(X[0], w), "weights of size %d accepted, model needs %d"
                           % (bad, D))
                    raises(ctx, lambda: m.loss_augmented_inference(X[0], y, w), "weights of size %d "
                           "accepted by loss-augmented inference, model needs %d" % (bad, D))
                    ctx.did(2)
            if k.cw:
                for delta in (-1, 1):
                    with ctx.case(lambda: dict(model=k.name, true=tv, what="class weights of a wrong size")):
                        n = tv[k.cw] + delta
                        raises(ctx, lambda: k.make(**dict(tv, class_weight=[1.] * n)), "%d class weights "
                               "accepted for %d states" % (n, n - delta))

                        def late():
                            m = k.make(class_weight=[1.] * n)
                            m.initialize(X, Y)
                        raises(ctx, late, "%d class weights accepted for %d states" % (n, n - delta))
                        ctx.did(2)
            if k.name not in ("BinaryClf", "MultiClassClf", "MultiLabelClf") and "Grid" not in k.name:
                for delta in (-1, 1):
                    F = tv["F"] + delta
                    if F < 1:
                        continue
                    with ctx.case(lambda: dict(model=k.name, true=tv, what="instance with %d features" % F)):
                        m = k.make(**tv)
                        X2, _ = k.data(*([F if d == "F" else v for d, v in tv.items()] + [r]))
                        w = np.zeros(m.size_joint_feature)
                        y = Y[0]
                        if hasattr(m, "label_from_latent"):
                            y = m.latent(X[0], y, np.zeros(m.size_joint_feature))
                        raises(ctx, lambda: m.inference(X2[0], w), "instance with %d features accepted, "
                               "model has %d" % (F, tv["F"]))
                        raises(ctx, lambda: m.joint_feature(X2[0], y), "joint feature of an instance with "
                               "%d features, model has %d" % (F, tv["F"]))
                        ctx.did(2)


def raises(ctx, f, msg, exc=ValueError):
    try:
        r = f()
    except exc:
        ctx.outcome("rejected")
        return
    ctx.check(False, msg, got=r)


def edge_features(ctx):
    from pystruct.models import EdgeFeatureGraphCRF, EdgeFeatureLatentNodeCRF
    for EF in (1, 2, 3):
        idx = list(range(EF + 1))
        subsets = [list(s) for n in range(EF + 2) for s in itertools.combinations(idx, n)]
        for sym in subsets:
            for anti in subsets:
                bad = bool(set(sym) & set(anti)) or any(i >= EF for i in sym + anti)
                for late in (False, True):
                    with ctx.case(dict(EF=EF, symmetric=sym, antisymmetric=anti, late=late)):
                        X = [(rows(2, 1), G.earr([(0, 1)]), rows(1, EF))]
                        Y = [np.array([0, 1])]

                        def build():
                            m = EdgeFeatureGraphCRF(2, 1, None if late else EF, symmetric_edge_features=sym,
                                                    antisymmetric_edge_features=anti,
                                                    inference_method="max-product")
                            m.initialize(X, Y)
                            return m
                        ctx.did()
                        if bad:
                            raises(ctx, build, "contradictory edge feature symmetries accepted")
                        else:
                            ctx.check(build().size_joint_feature == 2 + 4 * EF, "wrong size")
                    if set(sym) & set(anti) and not late:
                        with ctx.case(dict(EF=EF, symmetric=sym, antisymmetric=anti, latent=True)):
                            raises(ctx, lambda: EdgeFeatureLatentNodeCRF(
                                2, 1, EF, symmetric_edge_features=sym, antisymmetric_edge_features=anti),
                                "contradictory edge feature symmetries accepted")
    m = EdgeFeatureGraphCRF(2, 1, 2, inference_method="max-product")
    w = np.zeros(m.size_joint_feature)
    for ne in (1, 2, 3):
        for nf in (1, 2, 3):
            for EF in (1, 2, 3):
                x = (rows(4, 1), G.earr([(0, 1), (1, 2), (2, 3)][:ne]), rows(nf, EF))
                with ctx.case(dict(edges=ne, edge_feature_rows=nf, edge_features=EF)):
                    ctx.did()
                    if ne == nf and EF == 2:
                        m.inference(x, w)
                        m.joint_feature(x, np.zeros(4, int))
                        continue
                    raises(ctx, lambda: m.inference(x, w), "edge features of a wrong size accepted")
                    raises(ctx, lambda: m.joint_feature(x, np.zeros(4, int)), "edge features of a wrong size")


def typed(ctx):
    """Constructor and data validation of the multi-type model."""
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF as N
    from pystruct.models.typed_crf import InconsistentLabel
    bad = (ValueError, InconsistentLabel)
    good = dict(n_types=2, l_n_states=[2, 3], l_n_features=[1, 2], a_n_edge_features=[[1, 2], [2, 1]],
                l_class_weight=[[1., 1.], [1., 2., 3.]])
    with ctx.case(good):
        N(**good)
        ctx.did()
    muts = [dict(n_types=1), dict(n_types=3), dict(l_n_states=[2]), dict(l_n_states=[2, 3, 1]),
            dict(l_n_features=[1]), dict(l_n_features=[1, 2, 3]), dict(a_n_edge_features=[[1, 2]]),
            dict(a_n_edge_features=[[1, 2], [1, 1]]), dict(l_class_weight=[[1., 1.]]),
            dict(l_class_weight=[[1.], [1., 2., 3.]]), dict(l_class_weight=[[1., 2.], [1., 2.]]),
            dict(l_class_weight=[[1., 2., 3.], [1., 2., 3.]])]
    for mu in muts:
        with ctx.case(dict(good, **mu)):
            raises(ctx, lambda: N(**dict(good, **mu)), "inconsistent model sizes accepted")
            ctx.did()

    def inst():
        return ([rows(2, 1), rows(2, 2)],
                [G.earr([(0, 1)]), G.earr([(1, 0)]), None, G.earr([(0, 1)])],
                [rows(1, 1), rows(1, 2), None, rows(1, 1)])
    y = np.array([0, 1, 2, 4])
    m = N(**good)
    cases = []
    for t in (0, 1):
        x = inst()
        x[0][t] = rows(2, 3)
        cases.append(("features of type %d" % t, x, y))
    x = inst()
    cases.append(("one feature array", ([x[0][0]], x[1], x[2]), y))
    cases.append(("three edge arrays", (x[0], x[1][:3], x[2]), y))
    cases.append(("three edge feature arrays", (x[0], x[1], x[2][:3]), y))
    for q, e in ((0, [(0, 2)]), (0, [(2, 0)]), (0, [(-1, 0)]), (0, [(0, -1)]), (1, [(0, 2)]), (1, [(2, 0)]),
                 (3, [(2, 1)]), (3, [(1, 2)])):
        x = inst()
        x[1][q] = G.earr(e)
        cases.append(("edge %r of type pair %d" % (e, q), x, y))
    for q in (0, 1, 3):
        x = inst()
        x[2][q] = rows(2, [1, 2, None, 1][q])
        cases.append(("two feature rows for one edge, pair %d" % q, x, y))
        x = inst()
        x[2][q] = rows(1, 3)
        cases.append(("edge feature count, pair %d" % q, x, y))
        x = inst()
        x[1][q] = np.zeros((1, 3), int)
        cases.append(("edges with three columns, pair %d" % q, x, y))
    for v in ([0, 1, 2], [0, 1, 2, 4, 4], [-1, 1, 2, 4], [0, 2, 2, 4], [0, 1, 1, 4], [0, 1, 2, 5],
              [2, 1, 0, 4]):
        cases.append(("labels %r" % v, inst(), np.array(v)))
    with ctx.case("valid"):
        m.initialize([inst()], [y])
        m.initialize([inst(), inst()], [y, y])
        m.initialize(inst(), y)
        m.initialize([inst()])
        m.joint_feature(inst(), y)
        ctx.did(5)
    for what, x, yy in cases:
        for pos in (0, 1, 2):
            with ctx.case(lambda: dict(what=what, position=pos)):
                X, Y = [inst(), inst()], [y, y]
                X.insert(pos, x)
                Y.insert(pos, yy)
                raises(ctx, lambda: m.initialize(X, Y), "initialize accepted %s" % what, bad)
                ctx.did()
        with ctx.case(lambda: dict(what=what, single=True)):
            raises(ctx, lambda: m.initialize(x, yy), "initialize accepted %s" % what, bad)
            raises(ctx, lambda: m.joint_feature(x, yy), "joint_feature accepted %s" % what, bad)
            ctx.did(2)


def multilabel_edges(ctx, L):
    """MultiLabelClf: label graphs given as arrays, as lists, by name or not at all."""
    from pystruct.models import MultiLabelClf
    from pystruct.learners import OneSlackSSVM

    def fit(m, X, Y):
        return OneSlackSSVM(m, C=1., max_iter=20, tol=1e-3).fit(X, Y)
    for F in (1, 2):
        X = rows(4, F)
        Y = np.array([[(i + j) % 2 for j in range(L)] for i in range(4)])
        for es in G.simple_graphs(L):
            forms = dict(tuples=list(es), lists=[list(e) for e in es], tuple=tuple(es), int32=G.earr(es).astype(np.int32))
            if not es:
                forms["None"] = None
            if len(es) == L * (L - 1) // 2 and L > 1:
                forms["full"] = "full"
            for name, edges in forms.items():
                for given in (dict(), dict(n_labels=L), dict(n_features=F), dict(n_labels=L, n_features=F)):
                    with ctx.case(lambda: dict(L=L, F=F, edges=edges, given=given)):
                        ref = MultiLabelClf(L, F, edges=G.earr(es), inference_method="ad3")
                        m = MultiLabelClf(edges=edges, inference_method="ad3", **given)
                        m.initialize(X, Y)
                        ctx.did()
                        probe(ctx, m, ref, X, Y)
                        m.initialize(X, Y)
                        probe(ctx, m, ref, X, Y)
                        ctx.outcome((L, F, len(es)))
            with ctx.case(lambda: dict(L=L, F=F, edges=list(es), what="training")):
                a = fit(MultiLabelClf(edges=list(es), inference_method="ad3"), X, Y)
                b = fit(MultiLabelClf(edges=G.earr(es), inference_method="ad3"), X, Y)
                ctx.check(np.array_equal(a.w, b.w), "training with a list of edges differs from the array")
                ctx.did(2)
        for name in ("tree", "chow_liu"):
            with ctx.case(dict(L=L, F=F, edges=name)):
                if L < 2:
                    continue
                try:
                    m = MultiLabelClf(edges=name, inference_method="max-product")
                    m.initialize(X, Y)
                    ok = m.size_joint_feature == L * F + 4 * (L - 1)
                except (AttributeError, ValueError):
                    ok = False
                ctx.check(ok, "edges=%r does not give a model with the edges of a tree" % name, key="multilabel-tree")


def shards(tier):
    return [("run", (i,)) for i in range(nclasses())] + [("edge_features", ()), ("typed", ())] + [
        ("multilabel_edges", (L,)) for L in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))]
