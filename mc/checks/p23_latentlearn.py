"""Latent learners: completion, convex step, objective, stopping, prediction, score."""
import itertools

import numpy as np

from .. import table as T
from .. import zoo
from ..core import SkipCase

PROPERTY = "P23"
LEVEL = "model_checking"
RULE = ("one state per (latent model, data set, initial hidden states, learner, options); every step of the alternation "
        "observed in the real fit() is compared with tables of all hidden states: completion, optimum of the completed "
        "problem (independent QP), latent objective, stopping; subgradient runs are compared with an explicit "
        "evaluation of the documented rule; prediction and score with brute force")
BOUNDS = ("latent graph, latent node and edge-feature latent node models with 1..2 visible nodes, 2..4 hidden states; all "
          "data sets of 1..2 instances, all consistent initial hidden states; NSlack, OneSlack (with and without cache) "
          "and subgradient solvers; C in {.5, 10}; 1..4 alternations; 1..4 subgradient passes with all option "
          "combinations; n_jobs in {1, 2 (threads)}")
ASSUMPTIONS = ["exact inference (trees); quadratic programs accurate to about 1e-4 relative",
               "subgradient runs in which two labelings have equal scores are skipped"]
EPS = 1e-7


def entries():
    m = "max-product"
    one = [(1, []), (2, [(0, 1)])]
    nod = zoo.LATENT_NODE_GRAPHS
    return {"graph22": zoo.latentgraph_entry((2, 2), 1, m, graphs=one),
            "graph12": zoo.latentgraph_entry((1, 2), 1, m, graphs=one),
            "graph121": zoo.latentgraph_entry((1, 2, 1), 1, m, graphs=one),
            "node": zoo.latentnode_entry(2, 2, 1, m, graphs=nod[:3]),
            "nodefeat": zoo.latentnode_entry(2, 2, 1, m, latent_feats=True, graphs=nod[:2]),
            "edge": zoo.latentnode_entry(2, 2, 1, m, edge_features=1, graphs=nod[:2])}


class Latent(object):
    """A data set with tables of all hidden states of every instance."""
    def __init__(self, e, ds):
        self.e, self.X, self.Y, self.idx = e, [e.xs[i] for i, _ in ds], [y for _, y in ds], [i for i, _ in ds]
        self.n, self.d = len(ds), e.d
        self.hs, self.psi, self.loss, self.cons, self.index = [], [], [], [], []
        for (i, y), x in zip(ds, self.X):
            hs, Psi = e.table(i)
            lab = [np.asarray(e.to_label(x, h)).ravel() for h in hs]
            cons = [k for k, l in enumerate(lab) if np.array_equal(l, np.ravel(y))]
            self.hs.append(hs)
            self.psi.append(Psi)
            self.loss.append(np.array([e.loss(hs[cons[0]], h) for h in hs]))
            self.cons.append(cons)
            self.index.append({e.key(h): k for k, h in enumerate(hs)})

    def completed(self, H):
        """(delta, loss) of the convex problem with the hidden states H (indices), equal numbers of labelings"""
        K = max(len(h) for h in self.hs)
        delta, loss = np.zeros((self.n, K, self.d)), np.zeros((self.n, K))
        for i, h in enumerate(H):
            k = len(self.hs[i])
            delta[i, :k] = self.psi[i][h] - self.psi[i]
            loss[i, :k] = self.loss[i]
        return delta, loss

    def convex(self, w, H, C):
        return .5 * w.dot(w) + C * sum(np.max(self.loss[i] + self.psi[i].dot(w)) - self.psi[i][h].dot(w)
                                       for i, h in enumerate(H))

    def best(self, w):
        return [self.cons[i][int(np.argmax(self.psi[i][self.cons[i]].dot(w)))] for i in range(self.n)]

    def latent_objective(self, w, C):
        return self.convex(w, self.best(w), C)

    def desc(self):
        return dict(model=self.e.name, X=self.X, Y=self.Y)


def sets(e, n):
    inst = [(i, y) for i, x in enumerate(e.xs) for y in e.visible_labels(x)]
    for ds in itertools.combinations_with_replacement(inst, n):
        present = {int(v) for _, y in ds for v in np.ravel(y)}
        if len(present) == (e.nL if hasattr(e, "nL") else len(e.nspl)):
            yield list(ds)


BASES = {"N": {}, "Nnocheck": dict(check_constraints=False), "Nbatch": dict(batch_size=2),
         "Nwindow": dict(inactive_window=1),
         "O": {}, "Ocache": dict(inference_cache=3), "Owindow": dict(inactive_window=1), "Ocheck": dict(check_constraints=True),
         "S": dict(learning_rate=.1)}


def base(name, model, C):
    from pystruct.learners import NSlackSSVM, OneSlackSSVM, SubgradientSSVM
    if name[0] == "N":
        return NSlackSSVM(model, C=C, tol=1e-6, max_iter=2000, **BASES[name])
    if name[0] == "O":
        return OneSlackSSVM(model, C=C, tol=1e-6, max_iter=2000, **BASES[name])
    return SubgradientSSVM(model, C=C, max_iter=4, **BASES[name])


def alternate(ctx, ename, n, bname, C, limits, stride, part):
    from pystruct.learners import LatentSSVM
    e = entries()[ename]
    q = 0
    for ds in sets(e, n):
        L = Latent(e, ds)
        for H0 in itertools.product(*L.cons):
            for limit in limits:
                q += 1
                if q % stride != part:
                    continue
                with ctx.case(lambda: dict(L.desc(), H_init=[L.hs[i][h] for i, h in enumerate(H0)], base=bname, C=C,
                                           latent_iter=limit)):
                    one_run(ctx, L, H0, bname, C, limit)


def one_run(ctx, L, H0, bname, C, limit):
    from pystruct.learners import LatentSSVM
    e = L.e
    m = e.make()
    m.initialize(L.X, L.Y)
    b = base(bname, m, C)
    fits, logs = [], []
    inner = b.fit

    def fit(X, H, **kw):
        ctx.check(len(X) == L.n, "training data changed")
        hs = [L.index[i].get(e.key(h)) for i, h in enumerate(H)]
        r = inner(X, H, **kw)
        fits.append((hs, np.array(b.w)))
        return r
    b.fit = fit
    lr = LatentSSVM(b, latent_iter=limit, logger=lambda l, it: logs.append((it, np.array(l.w))))
    r = lr.fit(L.X, L.Y, H_init=[L.hs[i][h] for i, h in enumerate(H0)])
    ctx.did()
    ctx.check(r is lr, "fit does not return the learner")
    ctx.check(1 <= len(fits) <= limit, "%d convex problems for latent_iter=%d" % (len(fits), limit))
    ctx.check([l[0] for l in logs] == list(range(len(fits))), "logger calls", got=[l[0] for l in logs])
    ctx.check(fits[0][0] == list(H0), "the given initial hidden states were not used")
    objective = None
    for t, (H, w) in enumerate(fits):
        ctx.check(np.array_equal(w, logs[t][1]), "logged weights")
        ctx.check(all(h is not None for h in H), "invalid hidden states in alternation %d" % t)
        for i, h in enumerate(H):
            ctx.check(h in L.cons[i], "hidden states of alternation %d belong to other labels" % t)
            if t:
                wo = fits[t - 1][1]
                sc = L.psi[i].dot(wo)
                ctx.check(sc[h] >= sc[L.cons[i]].max() - 1e-7 * (1 + np.abs(wo).max()),
                          "hidden states of alternation %d are not the best for the weights" % t)
        if t:
            ctx.check(H != fits[t - 1][0], "alternation %d solves the same problem again" % t)
        if bname[0] != "S":
            opt, wb = T.optimum(*L.completed(H), C)
            val = L.convex(w, H, C)
            eps = 2e-4 * (1 + opt) + 1e-5 * C * L.n
            ctx.check(val <= opt + eps, "alternation %d ends with objective %r of the completed problem, its optimum is %r"
                      % (t, val, opt), w=w, best=wb)
            lat = L.latent_objective(w, C)
            ctx.check(objective is None or lat <= objective + eps, "the latent objective grows from %r to %r" % (objective, lat))
            objective = lat
    w = np.array(lr.w)
    ctx.check(np.array_equal(w, fits[-1][1]), "final weights are not the ones of the last alternation")
    if len(fits) < limit:
        for i, h in enumerate(fits[-1][0]):
            sc = L.psi[i].dot(w)
            ctx.check(sc[h] >= sc[L.cons[i]].max() - 1e-7 * (1 + np.abs(w).max()), "stopped although the hidden states "
                      "of sample %d change" % i)
    predictions(ctx, L, lr, w)
    ctx.outcome((bname, tuple(tuple(f[0]) for f in fits)))


def predictions(ctx, L, lr, w):
    e = L.e
    H = lr.predict_latent(L.X)
    Yp = lr.predict(L.X)
    ctx.check(len(H) == len(Yp) == L.n, "number of predictions")
    err, top = 0., 0.
    for i in range(L.n):
        k = L.index[i].get(e.key(H[i]))
        ctx.check(k is not None, "invalid predicted states")
        sc = L.psi[i].dot(w)
        ctx.check(sc[k] >= sc.max() - 1e-7 * (1 + np.abs(w).max()), "predicted states are not the best")
        ctx.check(np.array_equal(np.ravel(Yp[i]), np.ravel(e.to_label(L.X[i], L.hs[i][k]))), "predicted labels are "
                  "not those of the predicted states")
        err += np.sum(np.ravel(Yp[i]) != np.ravel(L.Y[i]))
        top += np.size(L.Y[i])
    s = lr.score(L.X, L.Y)
    ctx.check(abs(s - (1 - err / top)) < 1e-12, "score %r, expected %r" % (s, 1 - err / top))


def kmeans(ctx, ename, bname):
    """without given hidden states the model's own initialisation is used"""
    from pystruct.learners import LatentSSVM
    e = entries()[ename]
    for ds in sets(e, 3):
        L = Latent(e, ds)
        labs = np.hstack([np.ravel(y) for y in L.Y])
        if not hasattr(e, "nspl"):
            if sum(x[-1] for x in L.X) < e.S - e.nL:
                continue
        elif any(np.sum(labs == l) < k for l, k in enumerate(e.nspl)):
            continue
        with ctx.case(lambda: L.desc()):
            m = e.make()
            m.initialize(L.X, L.Y)
            np.random.seed(0)
            H = m.init_latent(L.X, L.Y)
            H = [L.index[i].get(e.key(h)) for i, h in enumerate(H)]
            np.random.seed(0)
            m2 = e.make()
            b = base(bname, m2, 1.)
            lr = LatentSSVM(b, latent_iter=2)
            lr.fit(L.X, L.Y)
            ctx.did()
            got = [L.index[i].get(e.key(h)) for i, h in enumerate(lr.H_init_)]
            ctx.check(all(g in c for g, c in zip(got, L.cons)), "initial hidden states are inconsistent", got=got)
            ctx.check(got == H, "initialisation differs from init_latent", got=got, expected=H)


# -- subgradient ----------------------------------------------------------------------------------------

GRID = dict(learning_rate=("auto", .1), decay_exponent=(1, 0, .5), decay_t0=(10, 1), momentum=(0., .5),
            averaging=(None, "linear", "squared"), break_on_no_constraints=(True, False), n_jobs=(1, 2))


class Tie(Exception):
    pass


def top(L, i, w, aug):
    """index of the unique maximiser (labelings with equal features and loss count as one)"""
    cand = range(len(L.hs[i])) if aug else L.cons[i]
    sc = np.array([L.psi[i][k].dot(w) + (L.loss[i][k] if aug else 0) for k in cand])
    best = [k for k, s in zip(cand, sc) if s > sc.max() - 1e-8 * (1 + np.abs(sc).max())]
    f = L.psi[i][best[0]]
    if any(not np.array_equal(L.psi[i][k], f) or (aug and L.loss[i][k] != L.loss[i][best[0]]) for k in best):
        raise Tie()
    return best[0]


def rule(L, w0, C, o, passes):
    n = L.n
    lr0 = C * n if o["learning_rate"] == "auto" else o["learning_rate"]
    w, grads, its, out, objs = w0.copy(), [], [], [], []

    def avg():
        t = np.arange(1, len(its) + 1.)
        if o["averaging"] == "linear":
            return (t[:, None] * np.array(its)).sum(0) / t.sum()
        if o["averaging"] == "squared":
            return ((t ** 2)[:, None] * np.array(its)).sum(0) / (t ** 2).sum()
        return w.copy()
    if o["n_jobs"] == 1:
        groups = [[i] for i in range(n)]
    else:
        from .p20_subgradient import even_slices
        groups = even_slices(n, o["n_jobs"])
    for p in range(passes):
        positive, total = 0, 0.
        for g in groups:
            step = np.zeros(L.d)
            for i in g:
                h, k = top(L, i, w, False), top(L, i, w, True)
                delta = L.psi[i][h] - L.psi[i][k]
                s = L.loss[i][k] - delta.dot(w)
                if abs(s) < 1e-9 and (L.loss[i][k] or np.any(delta)):
                    raise Tie()
                positive += s > 1e-9
                total += max(0., s)
                step = step + delta
            grads.append(step / len(g) - w / (C * n))
            t, m = len(grads), o["momentum"]
            dirn = sum((1 - m) * m ** (t - 1 - q) * grads[q] for q in range(t))
            rate = lr0 / (t - 1 + o["decay_t0"]) ** o["decay_exponent"] if o["decay_exponent"] else lr0
            w = w + rate * dirn
            its.append(w)
        if positive == 0 and o["break_on_no_constraints"]:
            break
        out.append(avg())
        objs.append(total)
    return out, avg(), objs


def subgradient(ctx, ename, n, part, nparts):
    from pystruct.learners import SubgradientLatentSSVM
    from joblib import parallel_backend
    e = entries()[ename]
    keys = sorted(GRID)
    options = [dict(zip(keys, v)) for v in itertools.product(*[GRID[k] for k in keys])]
    q = 0
    for ds in sets(e, n):
        L = Latent(e, ds)
        for start in range(3):
            for rep in range(6):
                q += 1
                if q % nparts != part:
                    continue
                o = options[(q * 29) % len(options)]
                if n == 1 and o["n_jobs"] == 2 and q % 2:
                    o = dict(o, n_jobs=1)
                C, passes = (.5, 1., 10.)[q % 3], 1 + q % 4
                w0 = [np.zeros(e.d), e.proj(zoo.G.generic(e.d, 5 + start, scale=1)),
                      e.proj(zoo.G.generic(e.d, 50 + start, scale=3))][start]
                with ctx.case(lambda: dict(L.desc(), options=o, C=C, passes=passes, w0=w0)):
                    m = e.make()
                    m.initialize(L.X, L.Y)
                    logs = []
                    lr = SubgradientLatentSSVM(m, max_iter=passes, C=C, show_loss_every=1,
                                               logger=lambda l, it: logs.append((it, np.array(l.w))), **o)
                    lr.w = w0.copy()
                    with parallel_backend("threading"):
                        r = lr.fit(L.X, L.Y)
                    ctx.did()
                    ctx.check(r is lr, "fit does not return the learner")
                    w = np.array(lr.w)
                    obj = L.latent_objective(w, C)
                    ctx.check(abs(lr.objective_curve_[-1] - obj) <= 1e-7 * (1 + obj), "final objective %r, the weights "
                              "have %r" % (lr.objective_curve_[-1], obj))
                    predictions(ctx, L, lr, w)
                    ctx.check(logs[-1][0] == "final" and np.array_equal(logs[-1][1], w), "final log entry")
                    its = [l[0] for l in logs[:-1]]
                    ctx.check(its == list(range(len(its))), "logged passes", got=its)
                    ctx.check(len(lr.objective_curve_) == len(logs), "%d objectives, %d log entries"
                              % (len(lr.objective_curve_), len(logs)))
                    for k, (it, wk) in enumerate(logs[:-1]):
                        ys = [np.ravel(e.to_label(x, L.hs[i][int(np.argmax(L.psi[i].dot(wk)))])) for i, x in enumerate(L.X)]
                        if all(unique(L.psi[i].dot(wk)) for i in range(L.n)):
                            want = sum(np.sum(a != np.ravel(b)) for a, b in zip(ys, L.Y)) / float(sum(np.size(y) for y in L.Y))
                            ctx.check(abs(lr.loss_curve_[k] - want) < 1e-12, "training loss %r, expected %r"
                                      % (lr.loss_curve_[k], want))
                    try:
                        want, final, objs = rule(L, w0, C, o, passes)
                    except Tie:
                        raise SkipCase()
                    ctx.check(len(want) == len(its), "%d passes were logged, the rule makes %d" % (len(its), len(want)))
                    for k, wk in enumerate(want):
                        ctx.check(np.allclose(logs[k][1], wk, rtol=1e-7, atol=1e-9), "weights after pass %d differ from "
                                  "the rule" % (k + 1), got=logs[k][1], expected=wk)
                    ctx.check(np.allclose(w, final, rtol=1e-7, atol=1e-9), "final weights differ from the rule",
                              got=w, expected=final)
                    ctx.outcome(tuple(np.round(final, 5)))


def unique(sc):
    s = np.sort(sc)
    return len(s) < 2 or s[-1] - s[-2] > 1e-9


def accessors(ctx):
    from pystruct.learners import LatentSSVM, OneSlackSSVM, NSlackSSVM
    e = entries()["graph12"]
    for cls in (OneSlackSSVM, NSlackSSVM):
        for attr, val in (("C", 7.), ("n_jobs", 3), ("verbose", 2), ("w", np.arange(3.))):
            with ctx.case(dict(learner=cls.__name__, attribute=attr)):
                b = cls(e.make(), C=1.)
                b.w = np.ones(3)
                before = {k: getattr(b, k) for k in ("C", "n_jobs", "verbose", "w")}
                lr = LatentSSVM(b)
                setattr(lr, attr, val)
                ctx.did()
                for k in before:
                    got, want = getattr(b, k), val if k == attr else before[k]
                    ctx.check(np.array_equal(got, want), "setting %s changed %s of the solver to %r" % (attr, k, got))
                    ctx.check(np.array_equal(getattr(lr, k), want), "%s is not the solver's" % k)
    for init in (True, False):
        with ctx.case(dict(initialize=init)):
            m = e.make()
            calls = []
            inner = m.initialize
            ds = next(iter(sets(e, 2)))
            L = Latent(e, ds)
            inner(L.X, L.Y)
            m.initialize = lambda X, Y: calls.append(1)
            LatentSSVM(base("O", m, 1.), latent_iter=1).fit(L.X, L.Y, H_init=[L.hs[i][c[0]] for i, c in enumerate(L.cons)],
                                                           initialize=init)
            ctx.did()
            ctx.check(len(calls) == int(init), "initialize=%s: the model was initialised %d times" % (init, len(calls)))


def shards(tier):
    Th = tier == "thorough"
    out = [("accessors", ())]
    for ename in entries():
        for bname in BASES:
            for n in (1, 2):
                if ename == "graph121" and n == 1:
                    continue
                for C in (.5, 10.):
                    stride = (1 if Th else {"graph22": 29, "graph12": 5, "node": 23}.get(ename, 13)) if n == 2 else 1 if Th else 2
                    out.append(("alternate", (ename, n, bname, C, (1, 2, 4), stride, (1 if C == .5 else 0) % stride)))
        for n in (1, 2, 3) if Th else (1, 2):
            for part in range(4):
                out.append(("subgradient", (ename, n, part, 4)))
        for bname in ("N", "O", "S"):
            out.append(("kmeans", (ename, bname)))
    return out
