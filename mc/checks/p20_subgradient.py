"""Subgradient training follows the documented update rule."""
import itertools

import numpy as np

from .. import sched
from .. import table as T
from .p16_cuttingplane import RealProblem, datasets, generic, real_entries, space

PROPERTY = "P20"
LEVEL = "model_checking"
RULE = ("one state per (training problem, options): the weights after every iteration of the real fit() are compared "
        "with an explicit evaluation of the documented rule (steps, decay, momentum as an explicit sum, averages as "
        "explicit weighted means of all iterates)")
BOUNDS = ("tabular problems with difference vectors from {-1,0,1}^d (d=1..2; 2..3 labels, 1..3 samples), 1 to 5 passes; "
          "full product of learning_rate {auto, .1}, decay_exponent {0, .5, 1}, decay_t0 {1, 10}, momentum {0, .5}, "
          "averaging {None, linear, squared}, batch_size {None, 1, 2, -1}, stopping on/off; C; every order chosen by "
          "shuffle (observed, must be a permutation in every pass); real models on small data sets; 2..4 workers on up to 7 samples; "
          "generic problems of 7..25 samples with up to 120 passes")
ASSUMPTIONS = ["runs in which some margin is met exactly up to rounding are skipped"]
GRID = dict(learning_rate=("auto", .1), decay_exponent=(1, 0, .5), decay_t0=(10, 1), momentum=(0., .5),
            averaging=(None, "linear", "squared"), batch_size=(None, 1, 2, -1), break_on_no_constraints=(True, False))


class Tie(Exception):
    pass


def even_slices(n, size):
    k = -(-n // size)
    cuts = [n // k + (1 if i < n % k else 0) for i in range(k)]
    at = np.concatenate([[0], np.cumsum(cuts)])
    return [list(range(a, b)) for a, b in zip(at[:-1], at[1:])]


def reference(P, C, o, passes, orders=None, resume=None):
    """weights reported after every pass (list), by the documented rule"""
    n, d = P.n, P.d
    lr0 = C * n if o["learning_rate"] == "auto" else o["learning_rate"]
    w = np.zeros(d)
    grads, iterates, out = [], [], []

    def slacks(i, w):
        v = P.used[i] - P.delta[i].dot(w)
        top = np.append(v, 0)
        s = np.sort(top)[::-1]
        k = int(np.argmax(v))
        if len(s) > 1 and s[0] - s[1] < 1e-9:
            # equal candidates: only harmless if they have the same features
            same = [q for q in range(len(v)) if abs(v[q] - s[0]) < 1e-9]
            f = [P.delta[i][q] for q in same] + ([np.zeros(d)] if abs(s[0]) < 1e-9 else [])
            if any(not np.array_equal(f[0], g) for g in f) or len({P.used[i][q] for q in same}) > 1 or \
                    abs(s[0]) < 1e-9:
                raise Tie()
        return (v[k], P.delta[i][k], P.used[i][k]) if v[k] > 0 else (0., np.zeros(d), 0.)

    def avg():
        t = np.arange(1, len(iterates) + 1)
        if o["averaging"] == "linear":
            return (t[:, None] * np.array(iterates)).sum(0) / t.sum()
        if o["averaging"] == "squared":
            return ((t ** 2)[:, None] * np.array(iterates)).sum(0) / (t ** 2).sum()
        return iterates[-1].copy()

    stopped = False
    for p in range(passes):
        order = list(orders[p]) if orders else list(range(n))
        workers = o.get("n_jobs", 1)
        groups = even_slices(n, workers if workers > 1 else 1 if o["batch_size"] in (None, 1) else n if o["batch_size"] == -1 else o["batch_size"])
        positive = 0
        for g in groups:
            idx = [order[j] for j in g]
            parts = [slacks(i, w) for i in idx]
            tot = sum(q[2] for q in parts) - w.dot(sum(q[1] for q in parts))
            if len(idx) > 1 and any(q[0] > 0 for q in parts) and abs(tot) < 1e-9:
                raise Tie()
            positive += any(q[0] > 0 for q in parts)
            # a mini-batch steps along the mean, a group of workers along the sum of its samples
            grads.append(sum(q[1] for q in parts) / (len(idx) if workers == 1 else 1) - w / (C * n))
            t = len(grads)
            m = o["momentum"]
            step = sum((1 - m) * m ** (t - 1 - s) * grads[s] for s in range(t))
            rate = lr0 / (t - 1 + o["decay_t0"]) ** o["decay_exponent"] if o["decay_exponent"] else lr0
            w = w + rate * step
            iterates.append(w)
        if positive == 0 and o["break_on_no_constraints"]:
            stopped = True
            break
        out.append(avg())
    return out, avg(), stopped


def compare(ctx, P, C, o, passes, model, desc, shuffled=False, seed=0):
    from pystruct.learners import SubgradientSSVM
    with ctx.case(desc):
        logs = []
        lr = SubgradientSSVM(model, C=C, max_iter=passes, shuffle=shuffled,
                             logger=lambda l, it: logs.append((it, np.array(l.w))), **o)
        orders = None
        if shuffled:
            seen = []
            inner = model.loss_augmented_inference

            def spy(x, y, w, relaxed=None):
                seen.append(int(x[0]))
                return inner(x, y, w, relaxed)
            # the final objective also performs inference in data order; it comes after each pass
            model.loss_augmented_inference = spy
            np.random.seed(seed)
        if o.get("n_jobs", 1) > 1:
            plan = sched.Plan()
            with sched.parallel(plan):
                lr.fit(P.X, P.Y, initialize=False)
            ctx.check(plan.calls > 0, "no parallel call although n_jobs=%d" % o["n_jobs"])
        else:
            lr.fit(P.X, P.Y, initialize=False)
        ctx.did()
        if shuffled:
            chunks = [seen[k:k + P.n] for k in range(0, len(seen), P.n)]
            orders = chunks[0::2]          # every second chunk: evaluation of the objective
            for c in orders:
                ctx.check(sorted(c) == list(range(P.n)), "a pass over shuffled data visits %r" % c)
            orders = orders + [list(range(P.n))] * passes
        try:
            want, final, stopped = reference(P, C, o, passes, orders)
        except Tie:
            from ..core import SkipCase
            raise SkipCase()
        its = [l[0] for l in logs[:-1]]
        ctx.check(its == list(range(len(want))), "%d passes were logged, the rule makes %d" % (len(its), len(want)))
        for k, w in enumerate(want):
            ctx.check(np.allclose(logs[k][1], w, rtol=1e-7, atol=1e-9), "weights after pass %d differ from the update "
                      "rule" % (k + 1), got=logs[k][1], expected=w)
        ctx.check(np.allclose(lr.w, final, rtol=1e-7, atol=1e-9), "final weights differ from the update rule",
                  got=lr.w, expected=final)
        ctx.outcome(tuple(np.round(final, 6)))


def grid():
    keys = sorted(GRID)
    for vals in itertools.product(*[GRID[k] for k in keys]):
        yield dict(zip(keys, vals))


def tables(ctx, name, C, passes, mod, rem, stride):
    Ps = space(name, False)[::stride]
    for q, o in enumerate(grid()):
        if q % mod != rem:
            continue
        for P in Ps:
            compare(ctx, P, C, o, passes, P.model(), lambda: dict(P.desc(), options=o, C=C, passes=passes))


def shuffles(ctx, name, passes, part, stride):
    for i, P in enumerate(space(name, False)):
        if i % stride != part:
            continue
        for seed in range(6):
            for avg in (None, "linear"):
                o = dict(learning_rate="auto", decay_exponent=1, decay_t0=10, momentum=0., averaging=avg,
                         batch_size=None, break_on_no_constraints=True)
                compare(ctx, P, 1., o, passes, P.model(), lambda: dict(P.desc(), options=o, shuffle_seed=seed),
                        shuffled=True, seed=seed)


def real(ctx, ename, n, mod, rem):
    e = real_entries()[ename]
    G = list(grid())
    q = 0
    for ds in datasets(e, n):
        for rep in range(2):
            q += 1
            if q % mod != rem:
                continue
            o = G[(q * 37) % len(G)]
            P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
            compare(ctx, P, 1., o, 3, P.model(), lambda: dict(P.desc(), options=o))


def long(ctx, n, K, d, passes, seed, mod, rem):
    """many passes over larger generic data sets"""
    P = generic(n, K, d, seed)
    for q, o in enumerate(grid()):
        if q % mod != rem:
            continue
        C = (.01, .1, 1.)[q % 3]
        compare(ctx, P, C, o, passes, P.model(), lambda: dict(P.desc(), options=o, C=C, passes=passes))


def parallel_grid():
    for o in grid():
        if o["batch_size"] is None:
            for jobs in (2, 3, 4):
                yield dict(o, n_jobs=jobs)


def workers(ctx, name, n, C, passes, mod, rem, stride):
    """n_jobs > 1: one step per group of workers"""
    G = list(parallel_grid())
    if n is None:
        Ps = space(name, False)[::stride]
        for q, o in enumerate(G):
            if q % mod == rem:
                for P in Ps:
                    compare(ctx, P, C, o, passes, P.model(), lambda: dict(P.desc(), options=o, C=C, passes=passes))
        return
    e = real_entries()[name]
    for q, ds in enumerate(itertools.islice(datasets(e, n), 0, 4000 * stride, stride)):
        if q >= 400:
            break
        if q % mod != rem:
            continue
        o = G[(q * 37) % len(G)]
        P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
        compare(ctx, P, C, o, passes, P.model(), lambda: dict(P.desc(), options=o))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for name, C, passes, stride in (("d2K2n2", 1., 4, 11), ("d1K2n3", 1., 4, 3), ("d1K3n2", .5, 3, 19),
                                    ("d2K3n1", 2., 5, 13)):
        M = 4
        for rem in range(M):
            out.append(("tables", (name, C, passes + (2 if Th else 0), M, rem, 1 if Th else stride)))
    for name, stride in (("d1K2n3", 9), ("d2K2n2", 37), ("d2K3n1", 53)):
        for rem in range(2):
            out.append(("workers", (name, None, 1., 3, 2, rem, stride if not Th else stride // 4)))
    for ename in ("multi", "multiresc", "graph", "binary"):
        for n in (4, 5, 7):
            out.append(("workers", (ename, n, 1., 3, 1, 0, {4: 7, 5: 31, 7: 211}[n])))
    for n, K, d, passes in ((12, 3, 12, 40), (25, 4, 5, 15), (7, 2, 3, 120)):
        for seed in (1, 2):
            for rem in range(2):
                out.append(("long", (n, K, d, passes, seed, 2 if Th else 24, 7 * rem % (2 if Th else 24))))
    for part in range(3):
        out.append(("shuffles", ("d1K2n3", 3, part, 3)))
        out.append(("shuffles", ("d2K2n2", 3, part, 6)))
    for ename in ("binary", "multi", "multicw", "multiresc", "graph", "graphdir", "chain", "edge", "grid", "multilabel"):
        for n in (2, 3):
            for rem in range(2):
                out.append(("real", (ename, n, 2 if Th else 6, rem)))
    return out
