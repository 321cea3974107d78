"""Learners as estimators: parameters, copies, pickles and model selection."""
import itertools
import pickle

import numpy as np

from .. import table as T
from .p11_purity import freeze, same as fsame
from .p25_history import spaces

PROPERTY = "P30"
LEVEL = "model_checking"
RULE = ("one state per (learner, parameter values, sequence of copying operations, data set): parameters, weights, curves and "
        "predictions are compared with those of a learner constructed with the same parameters and fitted on the same data; "
        "model selection: one state per (learner, folds, parameter grid, data set), scores recomputed by hand")
BOUNDS = ("all learners; every parameter with 1-4 other values, alone and in all pairs; all sequences of up to 2 (quick) or 3 "
          "(thorough) of get/set parameters, clone, pickle, copy, fit, predict; tabular, multi-class, graph and latent models; "
          "grid search and cross validation over C, max_iter and learner options with 2 and 3 folds")
ASSUMPTIONS = ["switch_to, which is meant to change the model, and n_jobs (P28, P29) are not varied"]

GRID = {
    "NSlackSSVM": dict(max_iter=(3, 50), C=(.1, 10.), check_constraints=(False,), negativity_constraint=((0,),),
                       break_on_bad=(True,), show_loss_every=(1, 2), batch_size=(1, -1), tol=(.3, 1e-6), inactive_threshold=(1e-2,),
                       inactive_window=(0, 1)),
    "OneSlackSSVM": dict(max_iter=(3, 50), C=(.1, 10.), check_constraints=(True,), negativity_constraint=((0,),),
                         break_on_bad=(True,), show_loss_every=(1, 2), tol=(.3, 1e-6), inference_cache=(1, 3),
                         inactive_threshold=(1e-2,), inactive_window=(0, 1), cache_tol=(.1,)),
    "FrankWolfeSSVM": dict(max_iter=(1, 4), C=(.1, 10.), batch_mode=(True,), line_search=(False,), check_dual_every=(1, 3),
                           tol=(.3,), do_averaging=(False,), sample_method=("seq", "rnd"), random_state=(0, 5), show_loss_every=(1,)),
    "SubgradientSSVM": dict(max_iter=(1, 4), C=(.1, 10.), momentum=(.5,), learning_rate=(.3,), show_loss_every=(1,),
                            decay_exponent=(0, .5), break_on_no_constraints=(False,), batch_size=(1, -1, .5), decay_t0=(1,),
                            averaging=("linear", "squared"), shuffle=(True,)),
    "StructuredPerceptron": dict(max_iter=(1, 4), batch=(True,), decay_exponent=(-1, .5), decay_t0=(1,), average=(True, 0, 2, -1)),
    "SubgradientLatentSSVM": dict(max_iter=(1, 4), C=(.1, 10.), momentum=(.5,), learning_rate=(.3,), show_loss_every=(1,),
                                  decay_exponent=(0,), decay_t0=(1,), break_on_no_constraints=(False,), averaging=("linear", "squared")),
    "LatentSSVM": dict(latent_iter=(1, 2)), }
BASE = {"NSlackSSVM": dict(max_iter=100), "OneSlackSSVM": dict(max_iter=100), "FrankWolfeSSVM": dict(max_iter=3, random_state=3, check_dual_every=1),
        "SubgradientSSVM": dict(max_iter=3), "StructuredPerceptron": dict(max_iter=3), "SubgradientLatentSSVM": dict(max_iter=3),
        "LatentSSVM": dict(latent_iter=3)}
OPS = ("params", "set", "clone", "pickle", "deepcopy", "fit", "other", "use")


def make(name, model, kw):
    import pystruct.learners as L
    kw = dict(BASE[name], **kw)
    if name == "LatentSSVM":
        base = {k[11:]: v for k, v in kw.items() if k.startswith("base_ssvm__")}
        own = {k: v for k, v in kw.items() if not k.startswith("base_ssvm__")}
        return L.LatentSSVM(L.OneSlackSSVM(model, **dict(dict(max_iter=50), **base)), **own)
    return getattr(L, name)(model, **kw)


def default(name, model):
    """the learner with the default values of the parameters"""
    import pystruct.learners as L
    return L.LatentSSVM(L.OneSlackSSVM(model)) if name == "LatentSSVM" else getattr(L, name)(model)


def params(lr):
    out = {}
    for k, v in lr.get_params(deep=True).items():
        if k in ("model", "base_ssvm", "base_ssvm__model"):
            continue
        out[k] = v
    return out


def fit(S, lr, k):
    np.random.seed(11)
    if type(lr).__name__ == "SubgradientLatentSSVM" and not hasattr(lr, "w"):
        m = lr.model
        if S.initialize:
            m.initialize(*S.sets[k][:2])
        lr.w = np.array([((7 * j) % 5 - 2.13) / 2 for j in range(m.size_joint_feature)])
    return S.fit(lr, k)


def observe(S, lr, k):
    X, Y = S.sets[k][:2]
    out = dict(w=np.array(lr.w, float))
    for n in ("objective_curve_", "primal_objective_curve_", "loss_curve_"):
        if hasattr(lr, n):
            out[n] = np.array(getattr(lr, n), float)
    out["predictions"] = freeze([np.asarray(y) for y in lr.predict(X)])
    out["score"] = float(lr.score(X, Y))
    return out


def same(a, b):
    if sorted(a) != sorted(b):
        return False
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.allclose(a[k], b[k], rtol=1e-9, atol=1e-10):
                return False
        elif not fsame(a[k], b[k]):
            return False
    return True


def configurations(name, pairs):
    one = [(k, v) for k, vs in GRID[name].items() for v in vs]
    if name == "LatentSSVM":
        one += [("base_ssvm__C", .1), ("base_ssvm__tol", .3), ("base_ssvm__inference_cache", 3), ("base_ssvm__max_iter", 2)]
    yield {}
    for k, v in one:
        yield {k: v}
    for (a, va), (b, vb) in itertools.combinations(one, 2) if pairs else ():
        if a != b:
            yield {a: va, b: vb}


def fresh_model(S, lr):
    """no weights: SubgradientLatentSSVM continues from those it has"""
    if type(lr).__name__ == "SubgradientLatentSSVM" and hasattr(lr, "w"):
        del lr.w


def protocol(ctx, name, sname, depth, pairs, part, parts):
    from sklearn.base import clone
    import copy
    q = 0
    for s, S in enumerate(spaces(sname)[:1]):
        seqs = [t for n in range(1, depth + 1) for t in itertools.product(OPS, repeat=n)]
        for ci, kw in enumerate(configurations(name, pairs)):
            want = None
            for si, ops in enumerate(seqs):
                q += 1
                if q % parts != part or (len(kw) == 2 and (si + ci) % 9) or (len(kw) == 1 and len(ops) > 1 and (si + ci) % 4 and parts > 1
                                                                            and depth < 3):
                    continue
                with ctx.case(lambda: dict(S._desc, learner=name, parameters=dict(BASE[name], **kw), operations=list(ops), data=S.sets)):
                    if want is None:
                        lr = make(name, S.make(), kw)
                        P0 = params(lr)
                        for k, v in dict(BASE[name], **kw).items():
                            ctx.check(P0.get(k) == v, "get_params gives another value than the constructor got for %s" % k, got=P0.get(k))
                        r = fit(S, lr, "A")
                        ctx.check(r is lr, "fit does not return the learner")
                        want = observe(S, lr, "A"), P0
                    sequence(ctx, S, name, kw, ops, want, clone, copy)


def sequence(ctx, S, name, kw, ops, want, clone, copy):
    lr = make(name, S.make(), kw)
    fitted = None
    P0 = want[1]
    for op in ops:
        if op == "params":
            lr = type(lr)(**{k: v for k, v in lr.get_params(deep=False).items()})
            fitted = None
        elif op == "set":
            d = default(name, S.make())
            r = d.set_params(**P0)
            ctx.check(r is d, "set_params does not return the learner")
            lr, fitted = d, None
        elif op == "clone":
            old, before = lr, {k: freeze(v) for k, v in vars(lr).items() if isinstance(v, (np.ndarray, float, int, list))}
            lr = clone(lr)
            fitted = None
            ctx.check(type(lr) is type(old) and lr is not old, "clone is of another type")
            ctx.check(not hasattr(lr, "objective_curve_") and not hasattr(lr, "loss_curve_"), "clone has results of training")
            after = {k: freeze(v) for k, v in vars(old).items() if isinstance(v, (np.ndarray, float, int, list))}
            ctx.check(fsame(freeze(sorted(before.items())), freeze(sorted(after.items()))), "clone changed the original")
        elif op == "pickle":
            lr = pickle.loads(pickle.dumps(lr))
        elif op == "deepcopy":
            lr = copy.deepcopy(lr)
        elif op in ("fit", "other"):
            if fitted is not None and name == "SubgradientLatentSSVM":
                fresh_model(S, lr)
            fitted = "A" if op == "fit" else "B"
            fit(S, lr, fitted)
        elif op == "use" and fitted:
            lr.predict(S.sets["C"][0])
            lr.score(*S.sets["C"][:2])
        ctx.did()
        P = params(lr)
        ctx.check(sorted(P) == sorted(P0) and all(type(P[k]) == type(P0[k]) and P[k] == P0[k] for k in P0), "%s changed the parameters" % op,
                  before=P0, after=P)
    if fitted != "A":
        fresh_model(S, lr)
        fit(S, lr, "A")
        ctx.did()
    got = observe(S, lr, "A")
    ctx.check(same(got, want[0]), "the result differs from that of a learner constructed with the same parameters", got=got, expected=want[0])
    ctx.outcome((name, ops[-1], np.round(got["w"], 6).tolist()))


SEARCH = {"NSlackSSVM": [dict(C=[.05, 1.], batch_size=[1, 100])], "OneSlackSSVM": [dict(C=[.05, 1.], inference_cache=[0, 2])],
          "FrankWolfeSSVM": [dict(C=[.05, 1.], line_search=[True, False])], "SubgradientSSVM": [dict(C=[.05, 1.], momentum=[0., .5])],
          "StructuredPerceptron": [dict(max_iter=[1, 3], average=[True, False])],
          "LatentSSVM": [dict(base_ssvm__C=[.05, 1.], latent_iter=[1, 2])]}


def first(e, x, y):
    for h in e.labels(x):
        if np.array_equal(np.ravel(e.to_label(x, h)), np.ravel(y)):
            return h


def search(ctx, name, ename):
    from sklearn.model_selection import GridSearchCV, KFold, cross_val_score
    from .p16_cuttingplane import datasets, real_entries
    from . import p23_latentlearn as p23
    lat = name == "LatentSSVM"
    e = (p23.entries() if lat else real_entries())[ename]
    if lat:
        inst = [(i, y) for i, x in enumerate(e.xs) for y in e.visible_labels(x)]
    else:
        inst = [(i, y) for i in range(len(e.xs)) for y in e.table(i)[0]]
    for off, step, folds in itertools.product((0, 1, 4), (1, 3, 5, 7), (2, 3)):
        ds = [inst[(off + step * k) % len(inst)] for k in range(10)]
        X, Y = [e.xs[i] for i, _ in ds], [y for _, y in ds]
        if getattr(e, "batch_arrays", False):
            X, Y = np.array(X), np.array(Y)
        kf = KFold(folds)
        sub = lambda A, idx: A[idx] if isinstance(A, np.ndarray) else [A[i] for i in idx]
        grid = SEARCH[name][0]
        states = lambda Z: {int(v) for y in Z for v in np.ravel(y)}
        if any(states(sub(Y, tr)) != states([y for _, y in inst]) for tr, _ in kf.split(X)):     # models insist on all states
            continue
        keys = sorted(grid)

        def make_one(kw):
            m = e.make()
            if lat:
                m.init_latent = lambda X, Y: [first(e, x, y) for x, y in zip(X, Y)]    # instead of random clusters
            return make(name, m, kw)
        with ctx.case(lambda: dict(model=e.name, learner=name, grid=grid, folds=folds, X=X, Y=Y)):
            want = []
            for vals in itertools.product(*[grid[k] for k in keys]):
                sc = []
                for tr, te in kf.split(X):
                    lr = make_one(dict(zip(keys, vals)))
                    lr.fit(sub(X, tr), sub(Y, tr))
                    sc.append(lr.score(sub(X, te), sub(Y, te)))
                want.append(sc)
            want = np.array(want)
            for vals, w in zip(itertools.product(*[grid[k] for k in keys]), want):
                got = cross_val_score(make_one(dict(zip(keys, vals))), X, Y, cv=kf, error_score="raise")
                ctx.did(folds)
                ctx.check(np.allclose(got, w), "cross validation gives other scores than fitting and scoring by hand",
                          parameters=vals, got=got, expected=w)
            g = GridSearchCV(make_one({}), grid, cv=kf, error_score="raise", refit=True)
            g.fit(X, Y)
            ctx.did(folds * len(want))
            ctx.check(np.allclose(g.cv_results_["mean_test_score"], want.mean(axis=1)), "grid search gives other scores than "
                      "fitting and scoring by hand", got=g.cv_results_["mean_test_score"], expected=want.mean(axis=1))
            best = make_one(g.best_params_)
            best.fit(X, Y)
            ctx.check(abs(g.score(X, Y) - best.score(X, Y)) < 1e-9, "the refitted learner has another score",
                      got=g.score(X, Y), expected=best.score(X, Y))
            ctx.outcome((name, np.round(want, 3).tolist()))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for name in GRID:
        lat = "Latent" in name
        for sname in (("latentgraph22", "latentnode") if lat else ("table2", "multi", "graph")):
            parts = 2
            for p in range(parts):
                out.append(("protocol", (name, sname, 3 if Th else 2, True, p, parts)))
    for name in SEARCH:
        for en in (("graph22", "node") if name == "LatentSSVM" else ("multi", "graph", "edge", "multilabel", "binary", "chain")):
            out.append(("search", (name, en)))
    return out
