"""Parallel training and shared models: results do not depend on the schedule of the workers."""
import itertools
import pickle

import numpy as np

from .. import sched, zoo
from . import p23_latentlearn as p23
from .p04_prediction import entries
from .p11_purity import freeze, operations, same
from .p16_cuttingplane import RealProblem, datasets, real_entries

PROPERTY = "P28"
LEVEL = "model_checking"
RULE = ("one state per (set of concurrent operations, schedule): the real operations run in threads under a deterministic "
        "scheduler that switches between them at executed lines of pystruct; every result is compared with the result "
        "of the operation alone; learners: one state per (training run, execution order or schedule of all parallel calls)")
BOUNDS = ("operations on one shared model: all pairs of inference, relaxed and loss-augmented inference, "
          "joint feature and latent completion on different instances; all schedules with one switch, and with two "
          "switches at every third line (quick: every 32nd of the former, 9th line and every 48th of the latter); learners with n_jobs > 1: all orders of up to 4 tasks, on copies "
          "(processes) and shared objects (threads), one and two switches")
ASSUMPTIONS = ["switches happen between lines of Python code of pystruct; extension modules are atomic"]


def concurrent(ctx, group, ei, bound, step, part, parts):
    e = entries(group)[ei]
    ops = [o for o in operations(e) if o[0] not in ("pickle", "loss")]
    alone, lines = [], []
    s = sched.Scheduler()
    for name, f, a in ops:
        m = e.make()
        alone.append(freeze(s.run([lambda: f(m, a)], [])[0]))
        lines.append(s.tasks[0].lines)
    q = 0
    for i, j in itertools.product(range(len(ops)), repeat=2):
        if bound == 1:
            plans = [[(0, k), (1, None)] for k in range(1, lines[i] + 1)]
        else:
            plans = [[(0, k), (1, l), (0, None)] for k in range(1 + (i + j) % step, lines[i] + 1, step)
                     for l in range(1, lines[j] + 1, step)]
        for plan in plans:
            q += 1
            if q % parts != part:
                continue
            with ctx.case(lambda: dict(model=e.name, operations=[ops[i][0], ops[j][0]], args=[ops[i][2], ops[j][2]],
                                       schedule=plan)):
                m = e.make()
                r = s.run([lambda: ops[i][1](m, ops[i][2]), lambda: ops[j][1](m, ops[j][2])], plan)
                ctx.did(2)
                for k, (o, res) in enumerate(zip((i, j), r)):
                    ctx.check(same(freeze(res), alone[o]), "%s gives a different result if it runs concurrently with %s"
                              % (ops[o][0], ops[j if k == 0 else i][0]), got=res, alone=alone[o])
                ctx.outcome((group, ei, i, j, s.switches))


LEARNERS = {
    "N": ("NSlackSSVM", dict(tol=1e-4, max_iter=20)), "Nb": ("NSlackSSVM", dict(batch_size=2, max_iter=20, show_loss_every=1)),
    "O": ("OneSlackSSVM", dict(tol=1e-4, max_iter=20)), "Oc": ("OneSlackSSVM", dict(inference_cache=2, max_iter=20,
                                                                             show_loss_every=1)),
    "S": ("SubgradientSSVM", dict(max_iter=3, momentum=.5)), "Sa": ("SubgradientSSVM", dict(max_iter=3, averaging="linear")),
    "P": ("StructuredPerceptron", dict(max_iter=4, batch=True)),
    "Pa": ("StructuredPerceptron", dict(max_iter=4, batch=True, average=True)),
    "L": ("SubgradientLatentSSVM", dict(max_iter=3)),
    "LN": ("NSlackSSVM", dict(max_iter=20)), "LO": ("OneSlackSSVM", dict(max_iter=20))}
PARALLEL_STEPS = ("S", "Sa", "L")      # their updates depend on the number of workers by design


def build(lname, model, jobs):
    import pystruct.learners as L
    cls, kw = LEARNERS[lname]
    lr = getattr(L, cls)(model, n_jobs=jobs, **kw)
    if lname in ("LN", "LO"):
        lr = L.LatentSSVM(lr, latent_iter=3)
    return lr


def problems(lname):
    if lname[0] == "L":
        for en in ("graph22", "node"):
            e = p23.entries()[en]
            inst = [(i, y) for i, x in enumerate(e.xs) for y in e.visible_labels(x)]
            for s in range(3):
                ds = [inst[(s + 3 * k) % len(inst)] for k in range(4)]
                L = p23.Latent(e, ds)
                if len({int(v) for y in L.Y for v in np.ravel(y)}) < 2:
                    continue
                H = [L.hs[i][L.cons[i][(s + i) % len(L.cons[i])]] for i in range(4)]
                yield e, L.X, L.Y, dict(H_init=H) if lname != "L" else {}
    else:
        for en in ("graph", "multi", "multiresc", "binary", "chain", "edge", "multilabel"):
            if en == "multiresc" and lname[0] == "P":       # rescale_C is about C, which perceptrons do not have
                continue
            e = real_entries()[en]
            for s, ds in enumerate(itertools.islice(datasets(e, 4), 1, 60, 25)):
                P = RealProblem(e, [i for i, _ in ds], [y for _, y in ds])
                yield e, P.X, P.Y, dict(initialize=False)


def result(lname, lr, X, Y):
    out = [np.array(lr.w, float)]
    for n in ("objective_curve_", "primal_objective_curve_", "loss_curve_"):
        if hasattr(lr, n):
            out.append(np.array(getattr(lr, n), float))
    out.append(freeze([np.asarray(y[0] if isinstance(y, tuple) else y) for y in lr.predict(X)]))
    out.append(float(lr.score(X, Y)))
    if hasattr(lr, "_objective") and lname not in ("LN", "LO"):
        out.append(float(lr._objective(X, Y)))
    return out


def train(e, lname, X, Y, kw, plan):
    m = e.make()
    jobs = 1 if plan is None else 3
    lr = build(lname, m, jobs)
    if lname == "L":
        m.initialize(X, Y)
        lr.w = np.array([((7 * k) % 5 - 2.13) / 2 for k in range(e.d)])
    if plan is None:
        lr.fit(X, Y, **kw)
        return result(lname, lr, X, Y)
    with sched.parallel(plan):
        lr.fit(X, Y, **kw)
        return result(lname, lr, X, Y)


def close(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-8)
    if isinstance(a, float):
        return abs(a - b) <= 1e-7 * (1 + abs(a))
    return same(a, b)


def learners(ctx, lname, step, part, parts):
    for q, (e, X, Y, kw) in enumerate(problems(lname)):
        if q % parts != part or (step > 1 and q % 3 != len(lname) % 3):
            continue
        base = sched.Plan()
        want = train(e, lname, X, Y, kw, base)
        with ctx.case(lambda: dict(model=e.name, X=X, Y=Y, learner=LEARNERS[lname], wrapper=lname, n_jobs=1)):
            ctx.check(base.calls > 0, "n_jobs has no effect (no parallel call)")
            if lname not in PARALLEL_STEPS:
                got = train(e, lname, X, Y, kw, None)
                ctx.did()
                ctx.check(all(close(a, b) for a, b in zip(got, want)), "training with several workers gives another result "
                          "than with one", one=got, several=want)
        probe = sched.Plan(preempt=[None])
        train(e, lname, X, Y, kw, probe)
        plans = [dict(order=o, copies=c) for k, o in enumerate(itertools.permutations(range(4))) for c in (False, True)
                 if step == 1 or k % 2 == c]
        plans += [dict(preempt=[k, None]) for k in range(1, probe.lines + 1, step)]
        plans += [dict(preempt=[k, l, None, None]) for k in range(1, probe.lines + 1, 5 * step)
                  for l in range(1, probe.lines + 1, 5 * step)]
        for pl in plans:
            with ctx.case(lambda: dict(model=e.name, X=X, Y=Y, learner=LEARNERS[lname], wrapper=lname, schedule=pl)):
                got = train(e, lname, X, Y, kw, sched.Plan(**pl))
                ctx.did()
                ctx.check(len(got) == len(want) and all(close(a, b) for a, b in zip(got, want)), "the result depends on the "
                          "schedule of the workers", got=got, expected=want)
                ctx.outcome((lname, np.round(got[0], 5).tolist(), tuple(pl)))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for lname in LEARNERS:
        for p in range(8):
            out.append(("learners", (lname, 1 if Th else 37, p, 8)))
    for g in ("base", "typed", "latent", "tree_lp"):
        for ei, e in enumerate(entries(g)):
            parts = 1 if Th else 32
            out.append(("concurrent", (g, ei, 1, 1, ei % parts, parts)))
            parts = 1 if Th else 48
            out.append(("concurrent", (g, ei, 2, 3 if Th else 9, ei % parts, parts)))
    return out
