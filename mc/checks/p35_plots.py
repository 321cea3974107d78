"""Plots show the recorded data: learning curves of every learner, grids cell by cell."""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from .. import graphs as G

PROPERTY = "P35"
LEVEL = "model_checking"
RULE = ("one state per (learner, options, data set, number of passes or point of interruption, x axis): the learner is trained for real, "
        "plot_learning called, and the drawn lines read back from the figure; one state per grid and plot_grid argument")
BOUNDS = ("8 learner configurations x 3 data sets x 0..8 iterations x show_loss_every 0..3 x both axes, interruption "
          "after every iteration, latent learners, saved and loaded models; grids of 1..4 x 1..4 cells")
ASSUMPTIONS = ["matplotlib with a back end without display"]

LEARNERS = {"N": ("NSlackSSVM", {}), "Nb": ("NSlackSSVM", dict(batch_size=1)), "O": ("OneSlackSSVM", {}),
            "Oc": ("OneSlackSSVM", dict(inference_cache=3)), "S": ("SubgradientSSVM", {}),
            "FW": ("FrankWolfeSSVM", dict(random_state=0)), "FW1": ("FrankWolfeSSVM", dict(random_state=0, check_dual_every=1)),
            "FWb": ("FrankWolfeSSVM", dict(batch_mode=True)), "P": ("StructuredPerceptron", {})}


def plt():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as p
    return p


def multi(k):
    from pystruct.models import MultiClassClf
    X = np.array([[1., 0], [0, 1], [-1, 0], [1, 1], [-1, 1.]])
    return MultiClassClf(n_features=2, n_classes=3), X, np.array([[0, 1, 2, 1, 0], [0, 1, 2, 0, 2], [0, 0, 1, 2, 1]][k])


def drawn(fig):
    return [[(np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label()) for l in ax.lines]
            for ax in fig.axes]


def show(learner, **kw):
    from pystruct.plot_learning import plot_learning
    p = plt()
    p.close("all")
    with contextlib.redirect_stdout(io.StringIO()) as out:
        plot_learning(learner, **kw)
    r = drawn(p.gcf()), [a.get_xlabel() for a in p.gcf().axes]
    p.close("all")
    return r[0], r[1], out.getvalue()


def judge(ctx, lr, time):
    lines, xlabels, text = show(lr, **({} if time else dict(time=False)))
    ctx.did()
    base = getattr(lr, "base_ssvm", lr)
    loss = getattr(base, "loss_curve_", None)
    if not hasattr(base, "objective_curve_"):
        ctx.check(any(len(l) and np.array_equal(l[0][1], loss) for l in lines), "the training error is not drawn")
        return
    obj = np.array(base.objective_curve_)
    primal = np.array(base.primal_objective_curve_) if hasattr(base, "primal_objective_curve_") else None
    run = ~np.array(base.cached_constraint_)[:len(obj)] if hasattr(base, "cached_constraint_") else None
    # which axes hold the objectives, which the losses: by what they show
    rest = list(range(len(lines)))
    if loss is not None:
        ctx.check(len(lines) == 2, "%d plots instead of two" % len(lines))
        cand = [i for i in rest if len(lines[i]) == 1 and np.array_equal(lines[i][0][1], loss)]
        ctx.check(cand, "the training error is not drawn", recorded=loss)
        mine = cand[-1]
        rest.remove(mine)
    else:
        ctx.check(len(lines) == 1, "a second plot without training error")
    first = list(lines[rest[0]])
    label = xlabels[rest[0]]
    for x, y, name in first:
        ctx.check(len(x) == len(y), "points without position")
        ctx.check(np.all(np.diff(x) >= 0) and np.all(np.isfinite(x)), "x decreases", x=x)
        if time and hasattr(base, "timestamps_"):
            ctx.check(np.all(np.isin(x, np.array(base.timestamps_[1:]) / 60.)), "x is not a recorded time in minutes", x=x)
        else:
            ctx.check(np.all(np.isin(x, np.arange(len(obj)))), "x is not an iteration", x=x)

    def take(want, what, at=None, name=None):
        for i, (x, y, n) in enumerate(first):
            if np.array_equal(y, want) and (at is None or np.array_equal(x, at)) and (name is None or n == name):
                return first.pop(i)
        ctx.check(False, what, recorded=want, positions=at, drawn=[(list(x), list(y), n) for x, y, n in first])
    named = [n for _, _, n in first]
    xs, _, _ = take(obj, "the objective is not drawn", None if time else np.arange(len(obj)), "dual" if "dual" in named else None)
    if primal is not None:
        cached = [n for n in named if n.startswith("cached")]
        _, _, n1 = take(primal, "the primal objective is not drawn", xs, cached[0] if run is not None and cached else None)
        if run is not None:
            _, _, n2 = take(primal[run], "the inference runs are not marked", xs[run])
            ctx.check(n1 != n2, "the two primal curves have one label")
    ctx.check(not first, "further curves", drawn=first)
    ctx.check(abs(xs[-1] - (base.timestamps_[-1] / 60. if time else len(obj) - 1)) < 1e-12, "the last point is not at the end of training")
    if time and hasattr(base, "timestamps_"):
        t = np.array(base.timestamps_)
        ctx.check(np.allclose(xs, np.append(t[2:len(obj) + 1], t[-1]) / 60., rtol=0, atol=1e-12), "a point is not at the time it was recorded",
                  x=xs, recorded=t)
    if run is not None:
        ctx.check("%f" % (primal[run][-1] - obj[-1]) in text, "printed gap", text=text)
    ctx.check("%f" % obj[-1] in text, "printed objective", text=text)
    ctx.check("time" in label if time else "iter" in label.lower(), "label of the x axis %r" % label)
    if loss is not None:
        every = base.show_loss_every
        at = xs[:-1:every] if every else xs[:0]
        if len(at) == len(loss):
            ctx.check(np.array_equal(lines[mine][0][0], at), "the training error is not drawn at the iterations it belongs to",
                      got=lines[mine][0][0], iterations=at)
    ctx.outcome((len(obj), None if loss is None else len(loss), time))


def runs(ctx, name, k):
    import pystruct.learners as L
    cls, kw = LEARNERS[name]
    for n in range(9):
        for every in (0, 1, 2, 3) if name != "P" else (None,):
            for stop in [None] + ([j for j in range(n)] if n == 4 else []):
                m, X, Y = multi(k)
                opts = dict(kw, max_iter=n) if every is None else dict(kw, max_iter=n, show_loss_every=every)
                with ctx.case(lambda: dict(learner=cls, options=opts, data=k, interrupted_after=stop)):
                    def log(l, it):
                        if it == stop:
                            raise KeyboardInterrupt
                    lr = getattr(L, cls)(m, logger=None if stop is None else log, **opts)
                    with contextlib.redirect_stdout(io.StringIO()):
                        lr.fit(X, Y)
                    lr.logger = None
                    for time in (True, False):
                        judge(ctx, lr, time)


def latent(ctx):
    import pystruct.learners as L
    from pystruct.models import LatentGraphCRF
    X = [(np.array([[1.], [2.]]), G.earr([(0, 1)])), (np.array([[-1.], [0.]]), G.earr([(0, 1)])), (np.array([[3.], [-2.]]), G.earr([(0, 1)]))]
    Y = [np.array([0, 1]), np.array([1, 0]), np.array([1, 1])]
    for base in ("N", "O", "Oc"):
        for li in (1, 2, 3):
            for n in (1, 3, 50):
                for every in (0, 1):
                    for time in (True, False):
                        with ctx.case(lambda: dict(base=base, latent_iter=li, max_iter=n, show_loss_every=every, time=time)):
                            m = LatentGraphCRF(n_labels=2, n_features=1, n_states_per_label=2, inference_method="max-product")
                            b = getattr(L, LEARNERS[base][0])(m, max_iter=n, show_loss_every=every, **LEARNERS[base][1])
                            lr = L.LatentSSVM(b, latent_iter=li)
                            with contextlib.redirect_stdout(io.StringIO()):
                                lr.fit(X, Y)
                            if li == 1:
                                judge(ctx, lr, time)
                            else:       # warm starts: no alignment is promised
                                lines, _, _ = show(lr, time=time)
                                ctx.did()
                                ctx.check(any(np.array_equal(l[1], b.objective_curve_) for ls in lines for l in ls), "objective of the base learner")
    for n in range(5):
        for every in (0, 1, 2):
            for time in (True, False):
                with ctx.case(lambda: dict(learner="SubgradientLatentSSVM", max_iter=n, show_loss_every=every, time=time)):
                    m = LatentGraphCRF(n_labels=2, n_features=1, n_states_per_label=2, inference_method="max-product")
                    lr = L.SubgradientLatentSSVM(m, max_iter=n, show_loss_every=every)
                    with contextlib.redirect_stdout(io.StringIO()):
                        lr.fit(X, Y)
                    judge(ctx, lr, time)


def saved(ctx, name):
    """the command line form: python -m pystruct.plot_learning FILE"""
    import pystruct.learners as L
    from pystruct import plot_learning as module
    from pystruct.utils import SaveLogger
    d = tempfile.mkdtemp(prefix="verif_plot_")
    argv = sys.argv
    try:
        for n in (1, 3):
            with ctx.case(lambda: dict(learner=name, max_iter=n, what="saved")):
                f = os.path.join(d, "m%d.pickle" % n)
                m, X, Y = multi(0)
                lr = getattr(L, LEARNERS[name][0])(m, max_iter=n, logger=SaveLogger(f), **LEARNERS[name][1])
                p = plt()
                with contextlib.redirect_stdout(io.StringIO()):
                    lr.fit(X, Y)
                    want = show(lr)[0]
                    p.close("all")
                    sys.argv = ["plot_learning", f]
                    module.main()
                got = drawn(p.gcf())
                p.close("all")
                ctx.did()
                ctx.check(len(got) == len(want) and all(np.array_equal(a[1], b[1]) for g, w in zip(got, want) for a, b in zip(g, w)),
                          "the plot of the saved model differs")
    finally:
        sys.argv = argv
        shutil.rmtree(d)


def grids(ctx):
    from pystruct.utils import plot_grid
    p = plt()
    for h, w in itertools.product(range(1, 5), repeat=2):
        for seed in range(2):
            x = (np.arange(h * w).reshape(h, w) * (3 + 2 * seed)) % 7
            for own in (False, True):
                for kw in (dict(), dict(border_color="red"), dict(cmap="gray", linewidth=3)):
                    with ctx.case(lambda: dict(grid=x, axes=own, options=kw)):
                        x0 = x.copy()
                        ax = p.subplots()[1] if own else None
                        r = plot_grid(x, axes=ax, **kw)
                        ctx.did()
                        ctx.check(not own or r is ax, "other axes returned")
                        img = r.images[-1]
                        ctx.check(np.array_equal(np.array(img.get_array()), x) and np.array_equal(x, x0), "another grid is shown")
                        ctx.check(np.allclose(r.get_xticks(), np.arange(1, w) - .5) and np.allclose(r.get_yticks(), np.arange(1, h) - .5),
                                  "borders are not between the cells")
                        ctx.check(not any(t.get_text() for t in list(r.get_xticklabels()) + list(r.get_yticklabels())), "tick labels")
                        lines = [l for l in r.get_xgridlines() + r.get_ygridlines()]
                        from matplotlib.colors import to_rgba
                        ctx.check(all(to_rgba(l.get_color()) == to_rgba(kw.get("border_color", "black")) and
                                      l.get_linewidth() == kw.get("linewidth", 1) for l in lines), "borders look different")
                        ctx.check("cmap" not in kw or img.get_cmap().name == kw["cmap"], "other colors")
                        ctx.outcome((h, w))
                        p.close("all")


def shards(tier):
    return [("runs", (n, k)) for n in LEARNERS for k in (0, 1, 2)] + [("latent", ()), ("grids", ())] + [
        ("saved", (n,)) for n in LEARNERS]
