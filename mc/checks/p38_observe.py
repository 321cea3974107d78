"""Watching training does not change it: verbosity, loss reporting, loggers."""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np

from .. import graphs as G
from .. import zoo as Z

PROPERTY = "P38"
LEVEL = "model_checking"
RULE = ("one state per (learner, option, model, data set, iteration limit, verbosity, loss reporting, logger): the learner is trained for real and "
        "compared with one that is not watched")
BOUNDS = ("all learners and 1..5 options each; binary, multi-class, multi-label, graph, chain, grid, edge-feature, multi-type and latent models (exact inference); 1, 3 and 30 "
          "iterations; verbosity 0..12, show_loss_every 0..3, loggers {none, recording, saving, pickling, predicting}: all pairs of values of the three, "
          "and all triples on two models")
ASSUMPTIONS = ["loggers that do not change the learner", "relaxed inference by the interior-point LP solver is left out: its last digits vary from call to call"]

ATTRS = ("w", "objective_curve_", "primal_objective_curve_", "cached_constraint_", "alphas", "l", "l_avg", "w_avg", "iterations_", "H_init_")


def datasets():
    from pystruct import models as M
    X = np.array([[1., 0, 1], [0, 1, 1], [-1, 0, 1], [1, 1, 1]])
    e = G.earr([(0, 1)])
    out = {
        "binary": (lambda: M.BinaryClf(), X, np.array([1, -1, 1, -1])),
        "multi": (lambda: M.MultiClassClf(), X, np.array([0, 1, 2, 1])),
        "multilabel": (lambda: M.MultiLabelClf(edges=G.earr([(0, 1)]), inference_method="max-product"), X, np.array([[0, 1], [1, 1], [0, 0], [1, 0]])),
        "chain": (lambda: M.ChainCRF(), [X[:2], X[2:], X[:1]], [np.array([0, 1]), np.array([1, 1]), np.array([1])]),
        "graph": (lambda: M.GraphCRF(inference_method="max-product"), [(X[:2], e), (X[2:], e), (X[:1], e[:0])],
                  [np.array([0, 1]), np.array([1, 1]), np.array([1])]),
        "grid": (lambda: M.GridCRF(inference_method="max-product"), [X[:2].reshape(1, 2, 3), X[2:].reshape(2, 1, 3)],
                 [np.array([[0, 1]]), np.array([[1], [1]])]),
        "edge": (lambda: M.EdgeFeatureGraphCRF(inference_method="max-product"),
                 [(X[:2], e, np.ones((1, 2))), (X[2:], e, np.array([[0., 1.]]))], [np.array([0, 1]), np.array([1, 1])]),
        "typed": (lambda: M.NodeTypeEdgeFeatureGraphCRF(2, [2, 2], [3, 3], [[1, 1], [1, 1]], inference_method="ad3"),
                  [([X[:2], X[2:3]], [e, G.earr([(0, 0)]), e[:0], e[:0]], [np.ones((1, 1)), np.ones((1, 1)), np.zeros((0, 1)), np.zeros((0, 1))]),
                   ([X[1:2], X[3:]], [e[:0], G.earr([(0, 0)]), e[:0], e[:0]], [np.zeros((0, 1)), np.ones((1, 1)), np.zeros((0, 1)), np.zeros((0, 1))])],
                  [np.array([0, 1, 2]), np.array([1, 3])]),
        "latent": (lambda: M.LatentGraphCRF(n_states_per_label=2, inference_method="max-product"),
                   [(X[:2], e), (X[2:], e), (X[1:3], e), (X[[0, 3]], e)],
                   [np.array([0, 0]), np.array([1, 1]), np.array([0, 1]), np.array([1, 0])]),
        "latentnode": (lambda: M.LatentNodeCRF(n_labels=2, n_features=3, n_hidden_states=2, inference_method="max-product"),
                       [(X[:2], G.earr([(0, 2), (1, 2)]), 1), (X[2:], G.earr([(0, 2), (1, 2)]), 1)], [np.array([0, 1]), np.array([1, 1])]),
    }
    return out


LEARNERS = {
    "NSlackSSVM": [dict(), dict(batch_size=1), dict(check_constraints=False), dict(inactive_window=1), dict(negativity_constraint=[0]), dict(C=100.)],
    "OneSlackSSVM": [dict(), dict(inference_cache=2), dict(check_constraints=True), dict(inactive_window=1, C=100.), dict(negativity_constraint=[0])],
    "FrankWolfeSSVM": [dict(random_state=1), dict(batch_mode=True), dict(random_state=1, check_dual_every=1, line_search=False),
                       dict(sample_method="seq", do_averaging=False)],
    "SubgradientSSVM": [dict(), dict(batch_size=2, momentum=.5), dict(shuffle=True, averaging="linear"), dict(break_on_no_constraints=False, learning_rate=.1)],
    "StructuredPerceptron": [dict(), dict(batch=True), dict(average=True), dict(decay_exponent=-1, decay_t0=1)],
    "LatentSSVM": [dict(base="OneSlackSSVM"), dict(base="NSlackSSVM"), dict(base="SubgradientSSVM"), dict(base="OneSlackSSVM", inference_cache=2)],
    "SubgradientLatentSSVM": [dict(), dict(averaging="squared", momentum=0.), dict(break_on_no_constraints=False, C=10.)],
}
VERBOSE = (0, 1, 2, 3, 4, 5, 6, 7, 12)
EVERY = (0, 1, 2, 3)
LOGGERS = ("none", "record", "save", "pickle", "predict")


def train(name, opts, data, n, verbose, every, logger, jobs=1):
    import pystruct.learners as L
    from pystruct.utils import SaveLogger
    make, X, Y = datasets()[data]
    seen = []
    d = None
    np.random.seed(3)
    kw = dict(opts)
    if logger == "save":
        d = tempfile.mkdtemp(prefix="verif_obs_")
        log = SaveLogger(os.path.join(d, "m%d.pickle"), save_every=2, verbose=verbose)
    elif logger == "none":
        log = None
    else:
        def log(l, it="?"):
            seen.append(it)
            if logger == "pickle":
                old, l.logger = l.logger, None
                try:
                    pickle.dumps(l)
                finally:
                    l.logger = old
            if logger == "predict":
                l.predict(X)
                l.score(X, Y)
    try:
        m = make()
        if name == "LatentSSVM":
            base = kw.pop("base")
            bo = dict(max_iter=n, verbose=verbose, n_jobs=jobs, **kw)
            lr = L.LatentSSVM(getattr(L, base)(m, show_loss_every=every, **bo), latent_iter=3, logger=log)
        else:
            if name != "StructuredPerceptron":
                kw["show_loss_every"] = every
            lr = getattr(L, name)(m, max_iter=n, verbose=verbose, logger=log, n_jobs=jobs, **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            if data.startswith("latent") and name in ("NSlackSSVM", "OneSlackSSVM", "FrankWolfeSSVM", "SubgradientSSVM", "StructuredPerceptron"):
                m.initialize(X, Y)
                H = m.init_latent(X, Y)
                lr.fit(X, H, initialize=False)
            else:
                lr.fit(X, Y)
            pred = lr.predict(X)
    finally:
        if d:
            shutil.rmtree(d)
    return lr, pred


def result(lr, pred):
    base = getattr(lr, "base_ssvm", lr)
    out = {a: getattr(base, a) for a in ATTRS if hasattr(base, a)}
    if hasattr(base, "timestamps_"):
        out["timestamps"] = len(base.timestamps_)
    out["pred"] = pred
    return out


def flat(v):
    if isinstance(v, (list, tuple)):
        return [z for q in v for z in flat(q)]
    return [np.asarray(v)]


def differ(a, b):
    if set(a) != set(b):
        return "attributes %s" % sorted(set(a) ^ set(b))
    for k in a:
        p, q = flat(a[k]), flat(b[k])
        if len(p) != len(q) or not all(x.shape == y.shape and np.allclose(np.asarray(x, float), np.asarray(y, float), rtol=1e-9, atol=1e-9)
                                       for x, y in zip(p, q) if x.dtype != object):
            return k
    return None


def watch(ctx, name, oi, data, full):
    import joblib
    opts = LEARNERS[name][oi]
    for n in (1, 3, 30):
        ref = result(*train(name, opts, data, n, 0, 0, "none"))
        curves = {}
        combos = list(itertools.product(VERBOSE, EVERY, LOGGERS)) if full else \
            [(v, e, l) for v, e, l in itertools.product(VERBOSE, EVERY, LOGGERS) if (v == 0) + (e == 0) + (l == "none") >= 1]
        if name == "StructuredPerceptron":
            combos = [c for c in combos if c[1] == 0]
        if data == "typed" or n == 30:
            combos = combos[::3]
        for v, every, log in combos:
            with ctx.case(lambda: dict(learner=name, options=opts, model=data, max_iter=n, verbose=v, show_loss_every=every, logger=log)):
                lr, pred = train(name, opts, data, n, v, every, log)
                ctx.did()
                bad = differ(ref, result(lr, pred))
                ctx.check(bad is None, "watching changes %s" % bad)
                base = getattr(lr, "base_ssvm", lr)
                if name != "StructuredPerceptron" and name != "LatentSSVM":
                    ctx.check(hasattr(base, "loss_curve_") == bool(every), "training losses are recorded: %r" % hasattr(base, "loss_curve_"))
                c = getattr(base, "loss_curve_", None)
                if c is not None:
                    curves.setdefault(every, c)
                    ctx.check(np.allclose(c, curves[every]), "training losses depend on how training is watched", got=c, expected=curves[every])
                ctx.outcome((name, v, log))
        if name != "StructuredPerceptron" and name != "LatentSSVM" and 1 in curves:
            with ctx.case(lambda: dict(learner=name, options=opts, model=data, max_iter=n, what="loss curves")):
                for e in (2, 3):
                    if e in curves:
                        ctx.check(np.allclose(curves[e], curves[1][::e]), "reporting every %d-th loss gives other losses" % e, got=curves[e], every=curves[1])


def workers(ctx, name, oi, data):
    import joblib
    opts = LEARNERS[name][oi]
    if name in ("FrankWolfeSSVM", "StructuredPerceptron") or "batch_size" in opts and name == "SubgradientSSVM":
        return
    with joblib.parallel_backend("threading"):
        ref = result(*train(name, opts, data, 3, 0, 0, "none", 2))
        for v in VERBOSE[1:]:
            with ctx.case(lambda: dict(learner=name, options=opts, model=data, max_iter=3, verbose=v, n_jobs=2)):
                with contextlib.redirect_stderr(io.StringIO()):
                    lr, pred = train(name, opts, data, 3, v, 1, "none", 2)
                ctx.did()
                bad = differ(ref, result(lr, pred))
                ctx.check(bad is None, "watching changes %s" % bad)
                ctx.outcome((name, v, "jobs"))


def shards(tier):
    out = []
    for name in LEARNERS:
        for oi in range(len(LEARNERS[name])):
            for data in ("binary", "multi", "multilabel", "chain", "graph", "grid", "edge", "typed", "latent", "latentnode"):
                if "Latent" in name and data not in ("latent", "latentnode"):
                    continue
                if name == "LatentSSVM" and data == "latentnode" and oi == 2:
                    continue
                out.append(("watch", (name, oi, data, tier == "thorough" or data in ("multi", "latent"))))
                if data in ("multi", "chain", "latent"):
                    out.append(("workers", (name, oi, data)))
    return out
