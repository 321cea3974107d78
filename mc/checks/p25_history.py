"""Training does not depend on what the learner or the model did before."""
import itertools

import numpy as np

from .. import table as T
from .. import zoo
from . import p23_latentlearn as p23
from .p16_cuttingplane import real_entries

PROPERTY = "P25"
LEVEL = "model_checking"
RULE = ("one state per history: a sequence of operations on one learner (and one model) followed by fit on a data set; "
        "weights, curves, number of time stamps, predictions and scores afterwards are compared with those of a new "
        "learner with a new model and the same parameters")
BOUNDS = ("all sequences of up to 2 (quick) or 3 (thorough) operations from: fit on data set A, B or C (different sizes), fit "
          "interrupted at the k-th call of the model, fit that fails with an error of the model, predict, score, change and "
          "restore C, limited number of iterations, fit of another learner that shares the model; final fit on A, B or C; "
          "all learners with their main options; tabular, multi-class, graph, chain and latent models")
ASSUMPTIONS = ["SubgradientLatentSSVM continues from its current weights, if it has some, by design",
               "the options switch_to and warm_start are for continuing and are not used"]

LEARNERS = {
    "N": ("NSlackSSVM", dict(tol=1e-6, max_iter=200)), "Nw": ("NSlackSSVM", dict(inactive_window=1, max_iter=200)),
    "Nb": ("NSlackSSVM", dict(batch_size=1, show_loss_every=1, max_iter=200)),
    "N2": ("NSlackSSVM", dict(max_iter=2)),
    "O": ("OneSlackSSVM", dict(tol=1e-6, max_iter=200)), "Oc": ("OneSlackSSVM", dict(inference_cache=2, max_iter=200)),
    "Ow": ("OneSlackSSVM", dict(inactive_window=1, show_loss_every=1, max_iter=200)),
    "O2": ("OneSlackSSVM", dict(max_iter=2, inference_cache=2)),
    "F": ("FrankWolfeSSVM", dict(sample_method="seq", max_iter=5, check_dual_every=2)),
    "Fn": ("FrankWolfeSSVM", dict(sample_method="seq", max_iter=3, do_averaging=False, check_dual_every=1)),
    "Fp": ("FrankWolfeSSVM", dict(sample_method="perm", max_iter=3, random_state=3, line_search=False, check_dual_every=1)),
    "Fb": ("FrankWolfeSSVM", dict(batch_mode=True, max_iter=5)),
    "S": ("SubgradientSSVM", dict(max_iter=3, momentum=.5)),
    "Sa": ("SubgradientSSVM", dict(max_iter=3, averaging="linear", show_loss_every=1)),
    "Sq": ("SubgradientSSVM", dict(max_iter=3, averaging="squared", momentum=.5, batch_size=2)),
    "P": ("StructuredPerceptron", dict(max_iter=3)),
    "Pa": ("StructuredPerceptron", dict(max_iter=3, average=True)),
    "P1": ("StructuredPerceptron", dict(max_iter=3, average=1)),
    "Pl": ("StructuredPerceptron", dict(max_iter=3, average=-1)),
    "Pb": ("StructuredPerceptron", dict(max_iter=3, batch=True, decay_exponent=-.5)),
    "L": ("SubgradientLatentSSVM", dict(max_iter=3, averaging="linear", momentum=.5)),
    "LN": ("NSlackSSVM", dict(max_iter=100, inactive_window=2)),
    "LO": ("OneSlackSSVM", dict(max_iter=100, inference_cache=2)),
    "LS": ("SubgradientSSVM", dict(max_iter=3, momentum=.5)), }
OPS = ("fitA", "fitB", "fitC", "stop1", "stop4", "stop7", "fail2", "fail5", "use", "C", "short", "other")


def build(lname, model):
    import pystruct.learners as L
    cls, kw = LEARNERS[lname]
    lr = getattr(L, cls)(model, **kw)
    if hasattr(lr, "C"):
        lr.C = 1.
    if lname in ("LN", "LO", "LS"):
        lr = L.LatentSSVM(lr, latent_iter=3)
    return lr


class Failure(Exception):
    pass


class Space(object):
    """Three data sets of different sizes for one model."""
    def __init__(self, make, sets, desc, initialize, kw=None):
        self.make, self.sets, self._desc, self.initialize = make, sets, desc, initialize
        self.kw = kw or {}

    def fit(self, lr, k):
        X, Y = self.sets[k][:2]
        kw = {}
        if len(self.sets[k]) > 2:
            kw["H_init"] = [np.array(h) for h in self.sets[k][2]]
        return lr.fit(X, Y, initialize=self.initialize, **kw)


def spaces(name):
    out = []
    if name.startswith("table"):
        d, K = (2, 2) if name == "table2" else (1, 3)
        Ds = T.deltas(d)
        N = len(Ds)
        for a in (1, 2, 4):
            delta = np.array([[Ds[(a * (i * (K - 1) + q) + i) % N] for q in range(K - 1)] for i in range(6)])
            P = T.Problem(delta, [1. + q for q in range(K - 1)])
            sets = {"A": ([0, 1, 2], ), "B": ([3, 1],), "C": ([5, 4, 0, 2],)}
            sets = {k: ([P.X[i] for i in v[0]], [P.Y[i] for i in v[0]]) for k, v in sets.items()}
            out.append(Space(P.model, sets, dict(P.desc(), sets="A=012 B=31 C=5402"), False))
    elif name.startswith("latent"):
        e = p23.entries()[name[6:]]
        ds = list(p23.sets(e, 2))
        for s in (0, len(ds) // 3):
            sets = {}
            for q, k in enumerate("ABC"):
                L = p23.Latent(e, ds[(s + 5 * q) % len(ds)])
                n = 2
                H = [L.hs[i][L.cons[i][(q + i) % len(L.cons[i])]] for i in range(n)]
                sets[k] = (L.X[:n], L.Y[:n], H)
            out.append(Space(e.make, sets, dict(model=e.name), True))
    else:
        e = real_entries()[name]
        items = [(xi, y) for xi in range(len(e.xs)) for y in e.table(xi)[0]]
        for s in (0, 3):
            sets = {}
            for q, (k, n) in enumerate((("A", 3), ("B", 2), ("C", 4))):
                sel = [items[(s + q + j * (2 * q + len(items) // 4 + 1)) % len(items)] for j in range(n)]
                X, Y = [e.xs[i] for i, _ in sel], [y for _, y in sel]
                if hasattr(e, "scalar") or getattr(e, "batch_arrays", False):
                    X, Y = np.array(X), np.array(Y)
                sets[k] = (X, Y)
            out.append(Space(e.make, sets, dict(model=e.name), name not in ("multi", "graph", "chain")))
    return out


def spy(model, at, exc):
    """the at-th inference of the model raises exc"""
    left, names = [at], []

    def wrap(f):
        def g(*a, **k):
            left[0] -= 1
            if left[0] == 0:
                raise exc()
            return f(*a, **k)
        return g
    for n in ("loss_augmented_inference", "inference"):
        names.append(n)
        setattr(model, n, wrap(getattr(model, n)))

    def restore():
        for n in names:
            delattr(model, n)
    return restore


def apply(S, lname, lr, model, op):
    if op[:3] == "fit":
        S.fit(lr, op[3])
    elif op[:4] in ("stop", "fail"):
        restore = spy(model, int(op[4:]), KeyboardInterrupt if op[:4] == "stop" else Failure)
        try:
            S.fit(lr, "C")
        except (KeyboardInterrupt, Failure):
            pass
        finally:
            restore()
    elif op == "use":
        if hasattr(lr, "w"):
            lr.predict(S.sets["B"][0])
            lr.score(*S.sets["B"][:2])
    elif op == "C":
        if hasattr(lr, "C"):
            c = lr.C
            lr.C = .1
            S.fit(lr, "A")
            lr.C = c
    elif op == "short":
        t = lr.base_ssvm if hasattr(lr, "base_ssvm") else lr
        c = t.max_iter
        t.max_iter = 1
        S.fit(lr, "B")
        t.max_iter = c
    elif op == "other":
        o = build("L" if lname[0] == "L" else "P" if lname[0] == "N" else "N", model)
        np.random.seed(1)
        S.fit(o, "A")


def observe(S, lname, lr, k):
    X, Y = S.sets[k][:2]
    out = dict(w=np.array(lr.w))
    for name in ("objective_curve_", "primal_objective_curve_", "loss_curve_", "cached_constraint_"):
        if hasattr(lr, name):
            out[name] = np.array(getattr(lr, name), float)
    if hasattr(lr, "timestamps_"):
        ts = np.array(lr.timestamps_[1:])
        out["timestamps"] = len(ts)
        out["times increase"] = bool(np.all(np.diff(ts) >= 0)) and bool(np.all(ts >= 0))
    if hasattr(lr, "constraints_"):
        out["constraints"] = [len(c) for c in lr.constraints_] if lname[0] == "N" else len(lr.constraints_)
    out["predictions"] = [np.asarray(y[0] if isinstance(y, tuple) else y) for y in lr.predict(X)]
    out["score"] = lr.score(X, Y)
    return out


def same(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-10)
    if isinstance(a, float):
        return abs(a - b) <= 1e-9
    return a == b


def histories(ctx, sname, lname, depth, part, parts):
    for s, S in enumerate(spaces(sname)):
        fresh = {}
        for k in "ABC":
            lr = build(lname, S.make())
            if lname != "L":
                S.fit(lr, k)
                fresh[k] = observe(S, lname, lr, k)
        i = 0
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                for k in "ABC":
                    i += 1
                    if i % parts != part:
                        continue
                    with ctx.case(lambda: dict(S._desc, learner=LEARNERS[lname], wrapper=lname, history=list(ops),
                                               final_fit=k, space=s, data={q: v for q, v in S.sets.items()})):
                        one(ctx, S, lname, ops, k, fresh)


def one(ctx, S, lname, ops, k, fresh):
    model = S.make()
    lr = build(lname, model)
    np.random.seed(7)
    for op in ops:
        apply(S, lname, lr, model, op)
        ctx.did()
    if lname == "L":
        if not hasattr(lr, "w"):        # without weights it starts at random ones
            S.fit(lr, "A")
        w0 = np.array(lr.w)
        ref = build(lname, S.make())
        ref.w = w0.copy()
        S.fit(ref, k)
        want = observe(S, lname, ref, k)
    else:
        want = fresh[k]
    r = S.fit(lr, k)
    ctx.did()
    ctx.check(r is lr, "fit does not return the learner")
    got = observe(S, lname, lr, k)
    ctx.check(sorted(got) == sorted(want), "attributes differ from those of a new learner", got=sorted(got),
              expected=sorted(want))
    for name in want:
        ctx.check(same(got[name], want[name]), "%s differs from that of a new learner" % name, got=got[name],
                  expected=want[name])
    ctx.outcome((ops[-1], k, np.round(got["w"], 6).tolist()))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for lname in LEARNERS:
        lat = lname[0] == "L"
        for sname in (("latentgraph22", "latentnode", "latentedge") if lat else ("table2", "table13", "multi", "graph", "chain")):
            depth = 3 if Th else 2
            if sname.startswith("table") or Th:
                parts, run = (24, 8) if Th else (4, 4)
            else:
                parts, run = (6, 1) if not lat else (3, 3)
            for p in range(run):
                out.append(("histories", (sname, lname, depth, p, parts)))
    return out
