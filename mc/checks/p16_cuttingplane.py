"""Cutting-plane learners reach the optimum of the regularised structured hinge objective."""
import itertools
import warnings

import numpy as np

from .. import graphs as G
from .. import table as T
from .. import zoo
from .p04_prediction import entries

PROPERTY = "P16"
LEVEL = "model_checking"
RULE = ("one state per (training problem, learner, options): the real fit() is run and the objective of the "
        "learned weights, computed from the full tables, is compared with an independent primal QP over all "
        "labels of all samples")
BOUNDS = ("all tabular problems with feature-difference vectors from {-1,0,1}^d: d=1..2, 2..3 labels, 1..3 "
          "samples; C in {0.1, 1, 10}; options batch_size, check_constraints, inactive_window, "
          "inactive_threshold, inference_cache, cache_tol, show_loss_every, switch_to, n_jobs; real models "
          "(binary, multi-class, multi-label, graph, chain, edge-feature, grid) on all small data sets; "
          "generic problems of 15..30 (thorough: 100) samples with up to several hundred iterations")
ASSUMPTIONS = ["tol=1e-7; quadratic programs are solved to about 1e-6 by the library",
               "exact inference"]

NS = {"default": {}, "batch1": dict(batch_size=1), "batch2": dict(batch_size=2),
      "batchall": dict(batch_size=-1), "nocheck": dict(check_constraints=False),
      "window1": dict(inactive_window=1), "window3thr": dict(inactive_window=3, inactive_threshold=1e-3),
      "window0": dict(inactive_window=0), "loss": dict(show_loss_every=1), "bad": dict(break_on_bad=True)}
OS = {"default": {}, "check": dict(check_constraints=True), "window1": dict(inactive_window=1),
      "window0": dict(inactive_window=0), "window3thr": dict(inactive_window=3, inactive_threshold=1e-3),
      "cache1": dict(inference_cache=1), "cache3": dict(inference_cache=3),
      "cachetol": dict(inference_cache=3, cache_tol=.1), "loss": dict(show_loss_every=1)}


def learner(kind, model, C, opts, tol=1e-7, max_iter=2000):
    from pystruct.learners import NSlackSSVM, OneSlackSSVM
    if kind == "N":
        return NSlackSSVM(model, C=C, tol=tol, max_iter=max_iter, **opts)
    return OneSlackSSVM(model, C=C, tol=tol, max_iter=max_iter, **opts)


def slackness(P, opt, C, tol=1e-7):
    """accuracy of the learned weights: cvxopt stops at relative gap 1e-6, so that w is accurate to sqrt(2e-6 opt)"""
    w_err = np.sqrt(2e-6 * (1e-1 + opt))
    return 1e-5 * (1 + opt) + 3 * tol * C * P.n + w_err * C * np.sqrt((P.delta ** 2).sum(axis=2)).max(axis=1).sum()


def fit_and_check(ctx, kind, oname, P, C, desc=None):
    opts = (NS if kind == "N" else OS)[oname]
    with ctx.case(desc or (lambda: dict(P.desc(), learner=kind, options=oname, C=C))):
        m = P.model()
        lr = learner(kind, m, C, opts)
        r = lr.fit(P.X, P.Y)
        ctx.did()
        ctx.check(r is lr, "fit does not return the learner")
        w = np.asarray(lr.w)
        ctx.check(w.shape == (P.d,) and np.all(np.isfinite(w)), "invalid weights", w=w)
        opt, wo = P.optimum(C)
        val = P.objective(w, C)
        ctx.check(val <= opt + slackness(P, opt, C), "objective %r of the learned weights, optimum %r"
                  % (val, opt), w=w, best=wo)
        ctx.check(np.allclose(w, wo, atol=5e-2 * (1 + np.abs(wo).max())), "weights differ from the unique "
                  "minimiser", w=w, best=wo)
        ctx.outcome(tuple(np.round(wo, 2)))


def space(name, tier_T):
    """problem lists; every one is a complete enumeration"""
    H2, H3 = [[1.]], [[1., 1.]]
    if name == "d1K2n1":
        return list(T.problems(1, 2, 1, [1., .5, 3.], values=(-2, -1, 0, 1, 2)))
    if name == "d1K3n1":
        return list(T.problems(1, 3, 1, [[1., 1.], [1., 2.]], values=(-2, -1, 0, 1, 2)))
    if name == "d2K2n1":
        return list(T.problems(2, 2, 1, [1., 2.], values=(-2, -1, 0, 1, 2)))
    if name == "d2K2n2":
        return list(T.problems(2, 2, 2, [1., 3.]))
    if name == "d2K3n1":
        return list(T.problems(2, 3, 1, [[1., 1.], [1., 2.]]))
    if name == "d1K2n3":
        return list(T.problems(1, 2, 3, [1.], values=(-2, -1, 0, 1, 2)))
    if name == "d2K2n3":
        return list(T.problems(2, 2, 3, [1.]))
    if name == "d1K3n2":
        return list(T.problems(1, 3, 2, [[1., 2.]], values=(-1, 0, 1, 2)))
    if name == "d2K3n2":
        return list(T.problems(2, 3, 2, [[1., 1.]], values=(-1, 0, 1)))
    if name == "d3K2n2":
        return list(T.problems(3, 2, 2, [1.]))
    if name == "d2K3z":       # labels without loss
        return list(T.problems(2, 3, 1, [[0., 1.], [0., 0.]])) + list(T.problems(1, 3, 2, [[0., 1.]]))
    if name == "d2K4n1":
        return list(T.problems(2, 4, 1, [[1., 2., 1.]]))
    raise KeyError(name)


def tables(ctx, kind, name, oname, C, part, nparts):
    for i, P in enumerate(space(name, False)):
        if i % nparts == part:
            fit_and_check(ctx, kind, oname, P, C)


def larger(ctx, kind, oname, C, n, K, d, a0, a1):
    """every affine family: wrong label q of sample i has the difference vector number (a * (i K + q) + b) mod N"""
    D = [v for v in itertools.product((-2, -1, 0, 1, 2), repeat=d % 10)]
    N = len(D)
    for a in range(a0, a1):
        for b in (0, N // 3):
            if d < 10:
                delta = np.array([[D[(a * (i * K + q) + b + i) % N] for q in range(K - 1)] for i in range(n)], float)
            else:       # multi-class data: sample i has the feature vector number a i + b
                delta = np.zeros((n, K - 1, K * (d - 10)))
                for i in range(n):
                    for q, j in enumerate(j for j in range(K) if j != i % K):
                        for lab, sign in ((i % K, 1), (j, -1)):
                            delta[i, q, lab * (d - 10):(lab + 1) * (d - 10)] = sign * np.array(D[(a * i + b) % N])
            fit_and_check(ctx, kind, oname, T.Problem(delta / 2., [1. + (q % 2) for q in range(K - 1)]), C)


def generic(n, K, d, seed):
    """one large problem without ties; d > 10: multi-class data"""
    if d < 10:
        delta = np.array([G.generic(d, 1000 * seed + 10 * i + q, scale=4) for i in range(n) for q in range(K - 1)]).reshape(n, K - 1, d)
    else:
        delta = np.zeros((n, K - 1, K * (d - 10)))
        for i in range(n):
            x = G.generic(d - 10, 1000 * seed + i, scale=3)
            for q, j in enumerate(j for j in range(K) if j != i % K):
                delta[i, q, (i % K) * (d - 10):(i % K + 1) * (d - 10)] = x
                delta[i, q, j * (d - 10):(j + 1) * (d - 10)] = -x
    return T.Problem(delta, [1. + (q % 2) for q in range(K - 1)])


def long(ctx, kind, oname, C, n, K, d, seed):
    """runs of up to several hundred iterations"""
    P = generic(n, K, d, seed)
    opts = (NS if kind == "N" else OS)[oname]
    with ctx.case(lambda: dict(P.desc(), learner=kind, options=oname, C=C)):
        lr = learner(kind, P.model(), C, opts)
        lr.fit(P.X, P.Y)
        ctx.did(len(lr.objective_curve_))
        opt, wo = P.optimum(C)
        w = np.asarray(lr.w)
        val = P.objective(w, C)
        # measured errors are below 1e-6 of the optimum
        ctx.check(val <= opt + 1e-4 * (1 + opt) + 3e-7 * C * P.n, "objective %r of the learned weights, optimum %r" % (val, opt),
                  w=w, best=wo)
        ctx.check(np.allclose(w, wo, atol=2e-3 * (1 + np.abs(wo).max())), "weights differ from the unique minimiser", w=w, best=wo)
        ctx.outcome((kind, n, K, d, seed, C))


# -- real models ----------------------------------------------------------------------------------------

def real_problem(e, idx, ys):
    """full table of a data set of zoo instances: delta, loss as (n, K, d) padded with zeros"""
    rows, losses = [], []
    rescale = getattr(e, "rescale_C", False)
    for xi, y in zip(idx, ys):
        lab, Psi = e.table(xi)
        x = e.xs[xi]
        if rescale:
            Psi = np.array([e.psi(x, z, y) for z in lab])
            t = e.psi(x, y, y)
        else:
            t = Psi[[e.key(z) for z in lab].index(e.key(y))]
        rows.append(t - Psi)
        losses.append(e.loss_row(x, y, lab))
    K = max(len(r) for r in rows)
    delta = np.zeros((len(rows), K, e.d))
    loss = np.zeros((len(rows), K))
    for i, (r, l) in enumerate(zip(rows, losses)):
        delta[i, :len(r)] = r
        loss[i, :len(r)] = l
    return delta, loss


class RealProblem(T.Problem):
    def __init__(self, e, idx, ys):
        self.e = e
        self.delta, self.used = real_problem(e, idx, ys)
        if getattr(e, "rescale_C", False):
            # a weighted instance contributes its weight times its unweighted slack
            self.used = np.array([[e.cw[int(y)] * (l > 0) for l in row] for y, row in zip(ys, self.used)])
        self.n, _, self.d = self.delta.shape
        self.X = [e.xs[i] for i in idx]
        self.Y = list(ys)
        if hasattr(e, "scalar") or getattr(e, "batch_arrays", False):
            self.X, self.Y = np.array(self.X), np.array(self.Y)
        self.idx = idx

    def model(self):
        return self.e.make()

    def desc(self):
        return dict(model=self.e.name, X=list(self.X), Y=list(self.Y))


REAL = {}


def real_entries():
    if not REAL:
        bnb = ("ad3", {"branch_and_bound": True})
        g2 = [(1, []), (2, [(0, 1)]), (2, [(1, 0)]), (3, [(0, 1), (2, 1)])]
        tri = [(3, [(0, 1), (1, 2), (0, 2)]), (2, [(0, 1)])]
        REAL["binary"] = zoo.binary_entry(2)
        REAL["multi"] = zoo.multiclass_entry(3, 2)
        REAL["multicw"] = zoo.multiclass_entry(2, 2, cw=[1., 3.])
        REAL["multiresc"] = zoo.multiclass_entry(3, 2, cw=[1., 3., .5], rescale_C=True)
        REAL["graph"] = zoo.graph_entries(2, 1, "max-product", False, None, graphs=g2)
        REAL["graphdir"] = zoo.graph_entries(2, 1, "max-product", True, None, graphs=g2)
        REAL["graphcw"] = zoo.graph_entries(3, 1, "max-product", False, [1., 2., .5], graphs=g2[:3])
        REAL["graphbnb"] = zoo.graph_entries(2, 1, bnb, False, None, graphs=tri)
        REAL["chain"] = zoo.chain_entry(2, 2, False, None, lens=(2, 3))
        REAL["edge"] = zoo.edgefeat_entry(2, 1, 2, "max-product", None, graphs=g2)
        REAL["grid"] = zoo.grid_entry(2, 1, "max-product", 4, [(1, 3), (2, 1)], directional=False)
        REAL["multilabel"] = zoo.multilabel_entry(2, 2, [(0, 1)], "max-product")
    return REAL


def datasets(e, n):
    """cyclic family of data sets of n labelled instances: every labelled instance occurs in every position"""
    items = [(xi, y) for xi in range(len(e.xs)) for y in e.table(xi)[0]]
    N = len(items)
    for s in range(N):
        for step in ((0,) if n == 1 else (1, 2, N // 2 or 1)):
            yield [items[(s + step * j) % N] for j in range(n)]


def real(ctx, kind, ename, n, C, oname, stride):
    e = real_entries()[ename]
    import pystruct.learners  # noqa
    for q, ds in enumerate(datasets(e, n)):
        if q % stride:
            continue
        P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
        opts = (NS if kind == "N" else OS)[oname]
        with ctx.case(lambda: dict(P.desc(), learner=kind, options=oname, C=C)):
            lr = learner(kind, P.model(), C, opts)
            lr.fit(P.X, P.Y, initialize=False)
            ctx.did()
            opt, wo = P.optimum(C)
            w = np.asarray(lr.w)
            val = P.objective(w, C)
            ctx.check(val <= opt + slackness(P, opt, C), "objective %r of the learned weights, "
                      "optimum %r" % (val, opt), w=w, best=wo)
            ctx.outcome(tuple(np.round(wo, 2)))


def equality(ctx, typed):
    """when the cache regards two solutions as the same one: labelings and relaxed solutions, one or several node types"""
    from pystruct.learners import OneSlackSSVM
    equal = getattr(OneSlackSSVM, "constraint_equal", None)
    if equal is None:
        return
    vals = [[1., 0.], [0., 1.], [.5, .5]]
    pws = [[1., 0., 0., 0.], [.5, 0., 0., .5], [0., .5, .5, 0.], [.25] * 4]
    sols = []
    if typed:
        for a, b in itertools.product(vals, repeat=2):
            for k in (0, 1):        # edges of one or both kinds
                for q in itertools.product(pws, repeat=k + 1):
                    sols.append(lambda a=a, b=b, q=q, k=k: ([np.array([a]), np.array([b, b])],
                                                            [np.array([v]).reshape(1, 4) for v in q] + [np.zeros((0, 4))] * (1 - k)))
    else:
        for a, b in itertools.product(vals, repeat=2):
            for q in pws:
                sols.append(lambda a=a, b=b, q=q: (np.array([a, b]), np.array([q])))
            for q in itertools.product(pws[1:3], repeat=2):
                sols.append(lambda a=a, b=b, q=q: (np.array([a, b]), np.array(q)))
        for y in itertools.product(range(2), repeat=2):
            sols.append(lambda y=y: np.array(y))
        for y in itertools.product(range(2), repeat=4):
            sols.append(lambda y=y: np.array(y).reshape(2, 2))

    def flat(s):
        return [z for part in s for z in (part if isinstance(part, list) else [part])] if isinstance(s, tuple) else [s]
    for i, f in enumerate(sols):
        for j, g in enumerate(sols):
            a, b = f(), g()
            if isinstance(a, tuple) and isinstance(b, tuple) and [z.shape for z in flat(a)] != [z.shape for z in flat(b)]:
                continue        # solutions of different samples are not compared
            if not isinstance(a, tuple) and not isinstance(b, tuple) and a.shape != b.shape:
                continue
            with ctx.case(lambda: dict(first=f(), second=g())):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = equal(a, b)
                ctx.did()
                want = isinstance(a, tuple) == isinstance(b, tuple) and all(np.array_equal(p, q) for p, q in zip(flat(a), flat(b)))
                ctx.check(bool(r) == want, "regarded as %s" % ("equal" if r else "different"))
                ctx.outcome((isinstance(a, tuple), want))


def shards(tier):
    Th = tier == "thorough"
    out = [("equality", (False,)), ("equality", (True,))]
    full = ["d2K3z", "d1K2n1", "d1K3n1", "d2K2n1", "d2K2n2", "d2K3n1", "d1K2n3", "d1K3n2", "d2K2n3"] + \
        (["d2K3n2", "d3K2n2", "d2K4n1"] if Th else [])
    for kind in "NO":
        for name in full:
            for C in (.1, 1., 10.):
                parts = 6 if Th else 1
                for p in range(parts):
                    out.append(("tables", (kind, name, "default", C, p, parts)))
        for oname in (NS if kind == "N" else OS):
            if oname == "default":
                continue
            for name in (full if Th else ["d2K2n2", "d1K3n2", "d1K2n3", "d2K3z"]):
                for C in ((.1, 1., 10.) if Th else (1.,)):
                    out.append(("tables", (kind, name, oname, C, 0, 1 if Th else 3)))
            for a in range(0, 60 if Th else 20, 10):
                for n, K, d in ((7, 4, 3), (10, 3, 2), (12, 4, 12)):
                    for C in ((.1, 1., 10.) if Th else (1.,)):
                        out.append(("larger", (kind, oname, C, n, K, d, a + 1, a + 11)))
            for n, K, d, C in ((20, 4, 6, 1.), (30, 4, 15, 10.), (30, 4, 15, 1.), (15, 3, 9, 100.)) + (((60, 5, 16, 1.), (100, 3, 8, 1.)) if Th else ()):
                for seed in range(1, 9 if Th else 3):
                    out.append(("long", (kind, oname, C, n, K, d, seed)))
        for ename in ("binary", "multi", "multicw", "multiresc", "graph", "graphdir", "graphcw", "graphbnb", "chain",
                      "edge", "grid", "multilabel"):
            for n in (1, 2, 3):
                for C in ((.1, 1., 10.) if Th else (1.,)):
                    out.append(("real", (kind, ename, n, C, "default", 1 if Th else 3)))
            for oname in (NS if kind == "N" else OS):
                if Th or ename in ("graph", "multi") or (ename == "multiresc" and "cache" in oname):
                    out.append(("real", (kind, ename, 3, 1., oname, 3 if Th else 7)))
    return out
