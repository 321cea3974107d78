"""Model operations are functions: no dependence on what was called before, no effect on arguments."""
import copy
import itertools
import pickle

import numpy as np

from .. import zoo
from .p04_prediction import entries

PROPERTY = "P11"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, sequence of operations): every result in the sequence on "
        "one shared model must equal the result of that operation on a fresh model, and the caller's "
        "arrays must be unchanged and unaliased")
BOUNDS = ("all operation sequences of length 3 (thorough 4) over an alphabet of 6..9 operations "
          "(inference, relaxed inference, loss-augmented inference, joint feature, losses, batch "
          "operations, latent completion, initialise, pickling the model) on alternating instances and "
          "weights")
ASSUMPTIONS = []


def freeze(o):
    """deep, comparable snapshot"""
    if isinstance(o, np.ndarray):
        return ("a", o.shape, tuple(np.asarray(o, float).ravel().tolist()) if o.dtype != object
                else tuple(freeze(v) for v in o))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(freeze(v) for v in o)
    if isinstance(o, np.generic):
        return o.item()
    return o


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    return a == b


def close_views(r, args):
    """arrays of the result that share memory with an argument"""
    def arrs(o):
        if isinstance(o, np.ndarray):
            yield o
        elif isinstance(o, (list, tuple)):
            for v in o:
                for a in arrs(v):
                    yield a
    ar = list(arrs(args))
    return any(np.shares_memory(p, q) for p in arrs(r) for q in ar if p.size and q.size)


def operations(e):
    """list of (name, f(model, args) -> result, args)"""
    xs = [i for i in range(len(e.xs)) if len(e.table(i)[0]) > 1 or len(e.xs) == 1]
    pick = [xs[0], xs[-1]]
    ops = []
    wa, wb = e.proj(zoo.G.generic(e.d, 3, scale=1)), e.proj(zoo.G.generic(e.d, 4, scale=1))
    for t, (xi, w) in enumerate(zip(pick, (wa, wb))):
        ys = e.table(xi)[0]
        x, y, h = e.xs[xi], ys[(t + 1) % len(ys)], ys[(2 * t + 2) % len(ys)]
        if getattr(e, "scalar", False):
            y, h = np.int64(y), np.int64(h)
        ops.append(("inference", lambda m, a: m.inference(a[0], a[1]), (x, w)))
        ops.append(("loss_augmented_inference", lambda m, a: m.loss_augmented_inference(a[0], a[1], a[2]),
                    (x, y, w)))
        if e.rescale_C if hasattr(e, "rescale_C") else False:
            ops.append(("joint_feature", lambda m, a: m.joint_feature(a[0], a[1], a[2]), (x, h, y)))
        else:
            ops.append(("joint_feature", lambda m, a: m.joint_feature(a[0], a[1]), (x, h)))
        if t == 0:
            ops.append(("loss", lambda m, a: m.loss(a[0], a[1]), (y, h)))
            if e.relaxable:
                ops.append(("relaxed", lambda m, a: m.inference(a[0], a[1], relaxed=True), (x, w)))
            if e.latent:
                v = e.visible_labels(x)
                ops.append(("latent", lambda m, a: m.latent(a[0], a[1], a[2]), (x, v[-1], w)))
            ops.append(("pickle", lambda m, a: len(pickle.dumps(m)) > 0, ()))
            if not (e.batch_arrays or getattr(e, "grid", False)):
                ops.append(("batch", lambda m, a: m.batch_inference(a[0], a[1]), ([x, x], w)))
    return ops


def run(ctx, group, ei, depth, part, nparts):
    e = entries(group)[ei]
    ops = operations(e)
    base = []
    for name, f, a in ops:
        with ctx.case(lambda: dict(model=e.name, operation=name, args=a)):
            before = freeze(a)
            r = f(e.make(), a)
            ctx.did()
            ctx.check(freeze(a) == before, "%s changed its arguments" % name, before=before)
            ctx.check(not close_views(r, a), "%s returned a view of its arguments" % name)
            base.append(freeze(r))
    if len(base) < len(ops):
        return
    frozen = [freeze(a) for _, _, a in ops]
    c = 0
    for seq in itertools.product(range(len(ops)), repeat=depth):
        c += 1
        if c % nparts != part:
            continue
        with ctx.case(lambda: dict(model=e.name, operations=[ops[i][0] for i in seq],
                                   args=[ops[i][2] for i in seq])):
            m = e.make()
            for k, i in enumerate(seq):
                r = ops[i][1](m, ops[i][2])
                ctx.did()
                ctx.check(same(freeze(r), base[i]), "step %d (%s) gives a different result than on a fresh "
                          "model" % (k, ops[i][0]), got=r, fresh=base[i])
                ctx.check(freeze(ops[i][2]) == frozen[i], "step %d (%s) changed its arguments"
                          % (k, ops[i][0]))
            ctx.outcome((group, ei, base[seq[-1]]))


def shards(tier):
    T = tier == "thorough"
    out = []
    for g in ("base", "typed", "latent", "tree_lp"):
        for ei, e in enumerate(entries(g)):
            d = 2 if g == "tree_lp" and not T else (4 if T and g in ("base", "latent") else 3)
            n = 8 if d == 4 else 1
            for p in range(n):
                out.append(("run", (g, ei, d, p, n)))
    return out
