"""Frank-Wolfe learning: certificates bracket the optimum on every sampling order, and it converges."""
import itertools

import numpy as np

from .. import table as T
from .p16_cuttingplane import RealProblem, datasets, generic, real_entries, space

PROPERTY = "P17"
LEVEL = "model_checking"
RULE = ("one state per (training problem, options, sampling schedule): the real fit() is run under a scripted "
        "random source; every recorded dual and primal objective is compared with the optimum of an "
        "independent primal QP, and the final weights with it")
BOUNDS = ("tabular problems with feature-difference vectors from {-1,0,1}^d (d=1..2, 2..3 labels, 1..3 samples); "
          "all sequences of sampling orders of the first two passes (perm: every permutation, rnd: every index "
          "sequence) repeated afterwards; batch mode, line search, averaging, check_dual_every 1..10, C, tol; real "
          "models on all small data sets; generic problems of 7..25 samples with up to 150 passes")
ASSUMPTIONS = ["exact inference", "the random source is used through the numpy RandomState interface"]


class Scripted(np.random.RandomState):
    """A RandomState whose permutations and index draws follow a script (then repeat it)."""
    def __init__(self, script):
        np.random.RandomState.__init__(self, 0)
        self.script, self.pos, self.drawn = script, 0, []

    def _next(self, n):
        r = np.array(self.script[self.pos % len(self.script)])
        self.pos += 1
        return r if len(r) == n and r.max() < n else np.arange(n)

    def shuffle(self, x):
        x[:] = np.asarray(x)[self._next(len(x))]

    def permutation(self, x):
        x = np.arange(x) if np.isscalar(x) else np.asarray(x)
        return x[self._next(len(x))]

    def randint(self, low, high=None, size=None, dtype=int):
        if size is None or not np.isscalar(size):
            return np.random.RandomState.randint(self, low, high, size)
        lo, hi = (0, low) if high is None else (low, high)
        self.drawn.append((lo, hi))
        return lo + self._next(size) % (hi - lo)

    def __deepcopy__(self, memo):
        return self


def run_one(ctx, P, C, opts, desc, script=None, expect=True):
    from pystruct.learners import FrankWolfeSSVM
    with ctx.case(desc):
        kw = dict(opts)
        if script is not None:
            kw["random_state"] = rs = Scripted(script)
        log = []
        lr = FrankWolfeSSVM(P.model(), C=C, logger=lambda l, it: log.append(it), **kw)
        r = lr.fit(P.X, P.Y, initialize=False)
        ctx.did()
        ctx.check(r is lr, "fit does not return the learner")
        if script is not None:
            ctx.check(all(d == (0, P.n) for d in rs.drawn), "sample indices are drawn from %r, there are %d samples" % (set(rs.drawn), P.n))
        w = np.asarray(lr.w)
        ctx.check(w.shape == (P.d,) and np.all(np.isfinite(w)), "invalid weights", w=w)
        opt, wo = P.optimum(C)
        eps = 1e-6 * (1 + opt)
        val = P.objective(w, C)
        dual, primal = np.array(lr.objective_curve_), np.array(lr.primal_objective_curve_)
        ctx.check(len(dual) == len(primal) and len(dual) >= 1, "curves of different length",
                  dual=len(dual), primal=len(primal))
        ctx.check(dual.max() <= opt + eps, "a recorded dual objective %r exceeds the optimum %r"
                  % (dual.max(), opt))
        ctx.check(primal.min() >= opt - eps, "a recorded primal objective %r is below the optimum %r"
                  % (primal.min(), opt))
        ctx.check(abs(primal[-1] - val) <= eps, "the final primal objective is %r, the weights have %r"
                  % (primal[-1], val))
        batch, ls = kw.get("batch_mode", False), kw.get("line_search", True)
        avg = kw.get("do_averaging", True) and not batch
        if ls and not avg:
            ctx.check(np.all(np.diff(dual) >= -eps), "the dual objective decreases", dual=dual[:50])
        tol = kw.get("tol", .001)
        iters = sum(1 for i in log if i != "final")
        if iters < kw["max_iter"]:
            # the last recorded gap certifies the stopping tolerance
            gap = (primal[-2] if len(primal) > 1 else primal[-1]) - dual[-1]
            ctx.check(gap <= (tol * C * P.n if batch else tol) + eps, "stopped with duality gap %r" % gap)
            if not batch:
                ctx.check(val <= opt + tol + eps, "stopped with objective %r, optimum %r, tol %r"
                          % (val, opt, tol))
        elif expect:
            # convergence rate of the method: dual suboptimality <= 2 (curvature + h0) / (k + 2)
            R2 = (np.asarray(P.delta) ** 2).sum(axis=2).max()
            curv = 4 * C * C * R2 * P.n * (P.n if batch else 1)
            k = iters
            bound = 2 * (curv + opt) / (k + 2)
            ctx.check(opt - dual[-1] <= bound + eps, "after %d passes the dual objective is %r, the optimum %r"
                      % (k, dual[-1], opt))
            if ls:
                ctx.check(val <= opt + 2 * np.sqrt(bound * (1 + curv)) + bound + eps,
                          "after %d passes the objective is %r, the optimum %r" % (k, val, opt))
        ctx.outcome((tuple(np.round(wo, 2)), iters))
        if (kw.get("sample_method") == "seq" or script is not None and rs.pos == iters) and not getattr(P.model(), "rescale_C", False):
            want = reference(P, C, kw, iters, script)
            if want is not None:
                ctx.did()
                ctx.check(np.abs(w - want).max() <= 1e-6 * (1 + np.abs(want).max()),
                          "the weights after %d passes are not those of the documented algorithm" % iters, w=w, expected=want)


def reference(P, C, kw, passes, script):
    """Algorithms 2 and 3 of the reference paper (Lacoste-Julien et al.), written from the paper.  None if a most
    violated label is ambiguous (ties depend on rounding)."""
    m, n = P.model(), P.n
    batch, ls, avg = kw.get("batch_mode", False), kw.get("line_search", True), kw.get("do_averaging", True)
    lam = 1. / (n * C)
    psi = [np.asarray(m.joint_feature(x, y), float) for x, y in zip(P.X, P.Y)]

    def oracle(i, w):
        """w_s, l_s of the most violated label of sample i (in the scaling of the paper)"""
        v = np.hstack([0., P.used[i] - P.delta[i].dot(w)])
        D = np.vstack([np.zeros(P.d), P.delta[i]])
        L = np.hstack([0., P.used[i]])
        close = np.where(v >= v.max() - 1e-7 * (1 + np.abs(v).max()))[0]
        if np.any(w) and not (np.allclose(D[close], D[close[0]]) and np.allclose(L[close], L[close[0]])):
            return None
        y = m.loss_augmented_inference(P.X[i], P.Y[i], w)
        return (psi[i] - m.joint_feature(P.X[i], y)) / (lam * n), m.loss(P.Y[i], y) / float(n)

    def step(wd, ld, w, k):
        """exact line search on the dual"""
        den = lam * wd.dot(wd)
        num = lam * wd.dot(w) - ld
        if den < 1e-12:
            return None if abs(num) > 1e-12 else 0.
        return min(1., max(0., num / den))
    if batch:
        w, l = np.zeros(P.d), 0.
        for k in range(passes):
            o = [oracle(i, w) for i in range(n)]
            if any(q is None for q in o):
                return None
            ws, lsum = sum(q[0] for q in o), sum(q[1] for q in o)
            g = step(w - ws, l - lsum, w, k) if ls else 2. / (k + 2.)
            if g is None:
                return None
            w, l = (1 - g) * w + g * ws, (1 - g) * l + g * lsum
        return w
    W, L = np.zeros((n, P.d)), np.zeros(n)
    total, norm, k = np.zeros(P.d), 0., 0
    for p in range(passes):
        order = range(n)
        if script is not None:
            order = script[p % len(script)]
        for i in order:
            w = W.sum(axis=0)
            o = oracle(i, w)
            if o is None:
                return None
            g = step(W[i] - o[0], L[i] - o[1], w, k) if ls else 2. * n / (k + 2. * n)
            if g is None:
                return None
            W[i], L[i] = (1 - g) * W[i] + g * o[0], (1 - g) * L[i] + g * o[1]
            k += 1
            # averaging: iterate k has weight proportional to k
            total += k * W.sum(axis=0)
            norm += k
    return total / norm if avg and k else W.sum(axis=0)


OPTS = {"default": dict(max_iter=40, tol=1e-3, check_dual_every=1),
        "every10": dict(max_iter=45, tol=1e-2),
        "every3tol": dict(max_iter=60, tol=.05, check_dual_every=3),
        "noavg": dict(max_iter=40, tol=1e-6, do_averaging=False, check_dual_every=1),
        "nols": dict(max_iter=60, tol=1e-3, line_search=False, check_dual_every=2),
        "nolsnoavg": dict(max_iter=60, tol=1e-3, line_search=False, do_averaging=False, check_dual_every=1),
        "batch": dict(max_iter=150, tol=1e-4, batch_mode=True),
        "batchnols": dict(max_iter=150, tol=1e-3, batch_mode=True, line_search=False)}


def tables(ctx, name, oname, C, stride):
    for i, P in enumerate(space(name, False)):
        if i % stride:
            continue
        kw = dict(OPTS[oname], sample_method="seq")
        run_one(ctx, P, C, kw, lambda: dict(P.desc(), options=kw, C=C))


def long(ctx, n, K, d, C, oname, seed):
    """larger generic problems: data order, and every rotation of it as an explicit schedule"""
    P = generic(n, K, d, seed)
    kw = dict(OPTS[oname], sample_method="seq")
    run_one(ctx, P, C, kw, lambda: dict(P.desc(), options=kw, C=C))
    if oname[:5] != "batch":
        kp = dict(OPTS[oname], sample_method="perm")
        for step in (k for k in range(1, min(n, 6)) if np.gcd(k, n) == 1):
            sc = [[(step * i + r) % n for i in range(n)] for r in range(0, n, 3)]
            run_one(ctx, P, C, kp, lambda: dict(P.desc(), options=kp, C=C, orders=sc), sc)


def schedules(ctx, name, oname, method, C, stride):
    for i, P in enumerate(space(name, False)):
        if i % stride:
            continue
        n = P.n
        kw = dict(OPTS[oname], sample_method=method)
        if method == "perm":
            ones = list(itertools.permutations(range(n)))
            scripts = list(itertools.product(ones, repeat=2))
        else:
            ones = list(itertools.product(range(n), repeat=n))
            scripts = [[a, b] for a in ones for b in ones if len(set(a) | set(b)) == n]
            scripts = scripts[::max(1, len(scripts) // 40)]
        for sc in scripts:
            sc = [list(s) for s in sc]
            run_one(ctx, P, C, kw, lambda: dict(P.desc(), options=kw, C=C, orders=sc), sc,
                    expect=method == "perm")


def seeds(ctx, name, C):
    """random_state: int, None, generator; the same seed gives the same weights"""
    from pystruct.learners import FrankWolfeSSVM
    for i, P in enumerate(space(name, False)[::9]):
        for method in ("perm", "rnd"):
            for seed in range(3):
                kw = dict(max_iter=7, sample_method=method, random_state=seed)
                with ctx.case(lambda: dict(P.desc(), options=kw, C=C)):
                    ws = []
                    for rs in (seed, seed, np.random.RandomState(seed)):
                        np.random.seed(17 + len(ws))
                        kw["random_state"] = rs
                        ws.append(FrankWolfeSSVM(P.model(), C=C, **kw).fit(P.X, P.Y).w)
                        ctx.did()
                    ctx.check(np.array_equal(ws[0], ws[1]) and np.array_equal(ws[0], ws[2]),
                              "different weights for the same seed", ws=ws)


def real(ctx, ename, n, C, oname, stride):
    e = real_entries()[ename]
    for q, ds in enumerate(datasets(e, n)):
        if q % stride:
            continue
        P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
        kw = dict(OPTS[oname], sample_method="seq")
        run_one(ctx, P, C, kw, lambda: dict(P.desc(), options=kw, C=C))


def shards(tier):
    Th = tier == "thorough"
    out = []
    small = ["d1K2n1", "d2K2n1", "d2K2n2", "d2K3n1", "d1K2n3", "d1K3n2", "d2K2n3"]
    for name in small:
        for oname in OPTS:
            for C in (.1, 1., 10.):
                if Th or C == 1. or oname in ("default", "batch"):
                    out.append(("tables", (name, oname, C, 1 if Th else 2)))
    for name in ("d2K2n2", "d1K2n3") + (("d2K2n3", "d1K3n2") if Th else ()):
        for method in ("perm", "rnd"):
            for oname in ("default", "noavg", "nols") if Th else ("default", "noavg"):
                for C in (.1, 1., 10.) if Th else (1.,):
                    out.append(("schedules", (name, oname, method, C, 1 if Th else 4)))
    for n, K, d, C in ((12, 3, 12, 1.), (25, 4, 5, .1), (7, 2, 3, 10.)):
        for oname in OPTS:
            for seed in range(1, 9 if Th else 3):
                out.append(("long", (n, K, d, C, oname, seed)))
    out += [("seeds", (name, 1.)) for name in ("d2K2n3", "d1K3n2")]
    for ename in ("binary", "multi", "multicw", "multiresc", "graph", "graphdir", "graphcw", "graphbnb", "chain",
                  "edge", "grid", "multilabel"):
        for n in (1, 2, 3):
            for oname in (OPTS if Th else ("default", "noavg", "batch")):
                for C in (.1, 1., 10.) if Th else (1.,):
                    out.append(("real", (ename, n, C, oname, 1 if Th else 5)))
    return out
