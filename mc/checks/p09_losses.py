"""Task losses: weighted Hamming distance over visible labels, bounds, zero iff equal."""
import numpy as np

from .. import zoo
from .. import large
from .p04_prediction import entries

PROPERTY = "P09"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, ground truth, prediction); the real loss, batch "
        "loss, maximum loss and (latent models) base loss are compared with loops over nodes")
BOUNDS = ("every pair of labelings where there are at most 64 labelings, otherwise every ground truth "
          "against 24 cyclic predictions; the model configurations of P04, labelings of up to 300 nodes and 300 states; label dtypes int64/int32/int8")
ASSUMPTIONS = ["class weights are positive"]


def scalar(v):
    return float(np.asarray(v))


def run(ctx, group, ei):
    e = entries(group)[ei]
    model = e.make()
    scal = getattr(e, "scalar", False)
    for xi, x in enumerate(e.xs):
        ys = e.labels(x)
        n = len(ys)
        step = max(1, n * n // (24 * n)) if n > 64 else 1
        for i, y in enumerate(ys):
            if scal:
                y = np.int64(y)
            tot = 0.
            for j in range(i % step, n, step):
                yh = np.int64(ys[j]) if scal else ys[j]
                with ctx.case(lambda: dict(model=e.name, y=y, y_hat=yh)):
                    got = scalar(model.loss(y, yh))
                    ctx.did()
                    want = e.loss(y, yh)
                    ctx.check(abs(got - want) < 1e-9, "loss %r, expected %r" % (got, want))
                    ctx.outcome(got)
                    vy = np.asarray(y if not e.latent else e.to_label(x, y)).ravel()
                    vh = np.asarray(yh if not e.latent else e.to_label(x, yh)).ravel()
                    ctx.check((got == 0) == np.array_equal(vy, vh), "loss %r of %s labels"
                              % (got, "equal" if np.array_equal(vy, vh) else "different"))
                    if not scal:
                        for dt in (np.int32, np.int8):
                            g2 = scalar(model.loss(y.astype(dt), yh.astype(dt)))
                            ctx.check(abs(g2 - want) < 1e-9, "loss depends on the label dtype", got=g2)
                    tot = max(tot, got)
            with ctx.case(lambda: dict(model=e.name, y=y)):
                vis = y if not e.latent else e.to_label(x, y)
                m = scalar(model.max_loss(vis))
                ctx.did()
                cw = e.cw
                want = float(sum(1. if cw is None else cw[int(t)] for t in np.asarray(vis).ravel()))
                ctx.check(abs(m - want) < 1e-9, "max_loss %r, expected %r" % (m, want))
                ctx.check(m >= tot - 1e-9, "max_loss %r below an attained loss %r" % (m, tot))
                if e.latent:
                    m = scalar(model.max_loss(y))
                    ctx.check(abs(m - want) < 1e-9, "max_loss of a full labeling %r, expected %r" % (m, want))
            # one batch: y against all its predictions
            with ctx.case(lambda: dict(model=e.name, y=y, batch=True)):
                H = [ys[j] for j in range(i % step, n, step)]
                Y = [ys[i]] * len(H)
                if e.batch_arrays:
                    H, Y = np.array(H), np.array(Y)
                    if not scal:
                        got = model.batch_loss(Y, H)
                    else:
                        got = model.batch_loss(Y, H)
                else:
                    got = model.batch_loss(Y, H)
                ctx.did()
                got = np.array([scalar(g) for g in got])
                want = np.array([e.loss(a, b) for a, b in zip(Y, H)])
                ctx.check(got.shape == want.shape and np.allclose(got, want),
                          "batch losses differ from the single ones", got=got, expected=want)
        if not e.latent:
            continue
        vs = e.visible_labels(x)
        for i, a in enumerate(vs):
            for b in vs[:: max(1, len(vs) // 64)]:
                with ctx.case(lambda: dict(model=e.name, y=a, y_hat=b, base=True)):
                    got = scalar(model.base_loss(a, b))
                    ctx.did()
                    ctx.check(abs(got - np.sum(a != b)) < 1e-9, "base loss %r, expected %r"
                              % (got, np.sum(a != b)))


def big(ctx, ei):
    e, pot = large.entries(ei)
    model = e.make()
    for x in e.xs:
        ys = large.labelings(e, x, many=True)
        for y in ys:
            want = float(sum(1. if e.cw is None else e.cw[int(t)] for t in y.ravel()))
            with ctx.case(lambda: dict(model=e.name, y=y)):
                m = scalar(model.max_loss(y))
                ctx.did()
                ctx.check(abs(m - want) < 1e-9 * (1 + want), "max_loss %r, expected %r" % (m, want))
            for yh in ys:
                with ctx.case(lambda: dict(model=e.name, y=y, y_hat=yh)):
                    got = scalar(model.loss(y, yh))
                    ctx.did()
                    want = e.loss(y, yh)
                    ctx.check(abs(got - want) < 1e-9 * (1 + want), "loss %r, expected %r" % (got, want))
                    ctx.outcome(got)
                    if e.S < 120:
                        for dt in ("int8", "uint8"):
                            g2 = scalar(model.loss(y.astype(dt), yh.astype(dt)))
                            ctx.check(abs(g2 - want) < 1e-9 * (1 + want), "loss depends on the label dtype", got=g2)


def shards(tier):
    return [("run", (g, ei)) for g in ("base", "typed", "latent") for ei in range(len(entries(g)))] + \
        [("big", (ei,)) for ei in range(large.count())]
