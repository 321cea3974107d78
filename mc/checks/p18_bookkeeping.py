"""Recorded training curves are honest: dual <= optimum <= primal, final entries describe the final weights."""
import numpy as np

from .. import graphs as G
from .. import table as T
from .. import zoo
from .p16_cuttingplane import NS, OS, RealProblem, datasets, generic, learner, real_entries, space

PROPERTY = "P18"
LEVEL = "model_checking"
RULE = ("one state per (training problem, learner, options, iteration limit): the curves recorded by the real "
        "fit() are compared with objectives recomputed from the full tables and with the optimum of an "
        "independent QP; with relaxed inference on loopy graphs the recorded dual and primal must meet")
BOUNDS = ("tabular problems of P16 (d=1..2, 2..3 labels, 1..3 samples), iteration limits 1..4 and unlimited, every "
          "option of the cutting-plane learners, subgradient and perceptron learners; triangles, K4 and 2x2..2x3 "
          "grids with LP-relaxed inference; generic problems of 15..30 samples with several hundred iterations")
ASSUMPTIONS = ["the quadratic programs are solved to about 1e-6"]


def mean_loss(P, w, m):
    return sum(m.loss(y, m.inference(x, w)) for x, y in zip(P.X, P.Y)) / float(sum(m.max_loss(y) for y in P.Y))


def long(ctx, kind, oname, limit, C, n, K, d, seed):
    cutting(ctx, kind, [generic(n, K, d, seed)], oname, limit, C, 1)


def cutting(ctx, kind, name, oname, limit, C, stride):
    opts = (NS if kind == "N" else OS)[oname]
    for i, P in enumerate(name if isinstance(name, list) else space(name, False)):
        if i % stride:
            continue
        with ctx.case(lambda: dict(P.desc(), learner=kind, options=oname, C=C, max_iter=limit)):
            snaps = []
            model, found = P.model(), []
            lai = model.loss_augmented_inference

            def observed(x, y, w, **kw):
                found.append((int(np.ravel(x)[0]), np.array(w)))
                return lai(x, y, w, **kw)
            if kind == "N":
                model.loss_augmented_inference = observed
            lr = learner(kind, model, C, opts, tol=1e-7, max_iter=limit)
            size = opts.get("inference_cache", 0)

            def log(l, it):
                snaps.append((it, np.array(l.w), len(l.objective_curve_), len(l.primal_objective_curve_), len(found)))
                for c in getattr(l, "inference_cache_", None) or []:
                    ctx.check(len(c) <= size, "%d results are cached for a sample, inference_cache=%d" % (len(c), size))
                    ctx.check(len({repr(q[2]) for q in c}) == len(c), "a result is cached twice")
            lr.logger = log
            lr.fit(P.X, P.Y)
            ctx.did()
            opt, wo = P.optimum(C)
            eps = 2e-4 * (1 + opt)
            w = np.asarray(lr.w)
            val = P.objective(w, C)
            dual, primal = np.array(lr.objective_curve_), np.array(lr.primal_objective_curve_)
            ctx.check(len(dual) == len(primal), "curves of different length", dual=dual, primal=primal)
            ctx.check(abs(primal[-1] - val) <= 1e-6 * (1 + val), "the final primal objective is %r, the weights "
                      "have %r" % (primal[-1], val))
            ctx.check(val >= opt - eps, "objective below the optimum (oracle)")
            ctx.check(dual.max() <= opt + eps, "a recorded dual objective %r exceeds the optimum %r"
                      % (dual.max(), opt), dual=dual)
            ctx.check(np.all(np.diff(dual) >= -eps), "the dual objective decreases", dual=dual)
            if kind == "N":
                # the weights change during a pass: an entry is a bound, or adds up the violations met in the pass
                at = 0
                for k, (it, wk, _, _, seen) in enumerate(snaps[:-1]):
                    sl = [P.hinge(wi)[i] for i, wi in found[at:seen]]
                    est = C * sum(sl) + .5 * wk.dot(wk)
                    at = seen
                    ctx.check(primal[k] >= opt - eps or abs(primal[k] - est) <= 1e-6 * (1 + est), "primal objective "
                              "%r of iteration %d is below the optimum %r; the violations met give %r"
                              % (primal[k], k, opt, est), primal=primal, sl=sl)
            if kind == "O":
                cached = np.array(lr.cached_constraint_)
                ctx.check(len(cached) == len(primal), "cached_constraint_ has %d entries for %d objectives"
                          % (len(cached), len(primal)))
                ctx.check(np.all(primal[~cached] >= opt - eps), "a recorded primal objective is below the "
                          "optimum %r" % opt, primal=primal, cached=cached)
                ctx.check(not np.any(cached) or opts.get("inference_cache"), "cached constraints without cache")
            ts = np.array(lr.timestamps_[1:], float)
            ctx.check(np.all(ts >= 0) and np.all(np.diff(ts) >= 0), "timestamps decrease", ts=ts)
            its = [s[0] for s in snaps]
            ctx.check(its and its[-1] == "final" and its[:-1] == list(range(len(its) - 1))
                      and len(its) - 1 <= limit, "the logger saw iterations %r" % its)
            ctx.check(np.array_equal(snaps[-1][1], w), "the final log has other weights")
            if opts.get("show_loss_every"):
                m = P.model()
                lc = lr.loss_curve_
                prev = np.zeros(P.d)
                ctx.check(len(lc) <= limit and len(lc) >= len(its) - 1, "%d losses for %d iterations"
                          % (len(lc), len(its) - 1))
                for k, (it, wk) in enumerate((s[0], s[1]) for s in snaps[:-1]):
                    ok = [mean_loss(P, v, m) for v in (prev, wk)]
                    ctx.check(min(abs(lc[k] - o) for o in ok) < 1e-9, "training loss %r recorded in iteration "
                              "%d, the weights have %r" % (lc[k], k, ok))
                    prev = wk
            # the last solution satisfies the constraints it kept
            ctx.outcome((tuple(np.round(primal[:6], 3)), len(dual)))


def relaxed_entries():
    tri = [(3, [(0, 1), (1, 2), (0, 2)]), (3, [(2, 1), (0, 1), (2, 0)]), (2, [(0, 1)])]
    k4 = [(4, [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])]
    out = []
    for meth in ("lp",):
        out.append(zoo.graph_entries(2, 1, meth, False, None, graphs=tri))
        out.append(zoo.graph_entries(2, 1, meth, True, None, graphs=k4))
        out.append(zoo.edgefeat_entry(2, 1, 1, meth, None, graphs=tri))
        out.append(zoo.grid_entry(2, 1, meth, 4, [(2, 2), (2, 3)], directional=False))
    return out


def relaxed(ctx, ei, kind, oname, C, stride):
    """relaxed training: recorded dual and (recomputed) primal objective meet"""
    from pystruct.learners import FrankWolfeSSVM
    e = relaxed_entries()[ei]
    for q, ds in enumerate(datasets(e, 2)):
        if q % stride:
            continue
        X, Y = [e.xs[i] for i, _ in ds], [y for _, y in ds]
        with ctx.case(lambda: dict(model=e.name, X=X, Y=Y, learner=kind, options=oname, C=C)):
            m = e.make()
            if kind == "F":
                lr = FrankWolfeSSVM(m, C=C, max_iter=60, check_dual_every=1, sample_method="seq",
                                    **(dict(batch_mode=True) if oname == "batch" else {}))
            else:
                lr = learner(kind, m, C, (NS if kind == "N" else OS)[oname], tol=1e-5)
            lr.fit(X, Y, initialize=False)
            ctx.did()
            w = np.asarray(lr.w)
            # relaxed primal objective from the energies reported by an independent LP run
            lp = e.make()
            lp.inference_method = "lp"
            obj = .5 * w.dot(w)
            hard = .5 * w.dot(w)
            for (xi, y), x in zip(ds, X):
                labs, Psi = e.table(xi)
                t = Psi[[e.key(z) for z in labs].index(e.key(y))].dot(w)
                _, en = lp.loss_augmented_inference(x, y, w, relaxed=True, return_energy=True)
                obj += C * max(0, -en - t)
                hard += C * max(0, np.max(Psi.dot(w) + e.loss_row(x, y, labs)) - t)
            dual, primal = np.array(lr.objective_curve_), np.array(lr.primal_objective_curve_)
            eps = 5e-3 * (1 + obj)
            ctx.check(obj >= hard - eps, "relaxed objective below the exact one (oracle)")
            ctx.check(abs(primal[-1] - obj) <= eps, "final primal objective %r, the weights have %r"
                      % (primal[-1], obj))
            ctx.check(dual[-1] <= obj + eps, "dual %r above primal %r" % (dual[-1], obj))
            if kind != "F":
                ctx.check(obj - dual[-1] <= eps, "stopped with relaxed objective %r and dual %r"
                          % (obj, dual[-1]))
            else:
                ctx.check(np.all(primal[:-1] >= dual[:-1].max() - eps), "primal below dual", primal=primal,
                          dual=dual)
            ctx.outcome((ei, round(float(obj), 3)))


def others(ctx, name, C):
    """subgradient, perceptron: objective and loss curves, logger"""
    from pystruct.learners import SubgradientSSVM, StructuredPerceptron
    for i, P in enumerate(space(name, False)):
        for kw in (dict(), dict(batch_size=2), dict(batch_size=-1), dict(averaging="linear"),
                   dict(averaging="squared", momentum=.5), dict(learning_rate=.1, decay_exponent=0),
                   dict(break_on_no_constraints=False), dict(show_loss_every=2)):
            if (i + len(kw)) % 5:
                continue
            with ctx.case(lambda: dict(P.desc(), learner="Subgradient", options=kw, C=C)):
                snaps = []
                lr = SubgradientSSVM(P.model(), C=C, max_iter=6,
                                     logger=lambda l, it: snaps.append((it, np.array(l.w))), **kw)
                r = lr.fit(P.X, P.Y)
                ctx.did()
                ctx.check(r is lr, "fit does not return the learner")
                its = [s[0] for s in snaps]
                ctx.check(its[-1] == "final" and its[:-1] == list(range(len(its) - 1)), "logger saw %r" % its)
                oc = np.array(lr.objective_curve_)
                ws = [s[1] for s in snaps]
                ctx.check(len(oc) == len(ws), "%d objectives for %d logged weights" % (len(oc), len(ws)))
                for k, (o, w) in enumerate(zip(oc, ws)):
                    ctx.check(abs(o - P.objective(w, C)) < 1e-8 * (1 + abs(o)), "recorded objective %r, the weights "
                              "have %r (iteration %d)" % (o, P.objective(w, C), k))
                ts = np.array(lr.timestamps_[1:])
                ctx.check(len(ts) == len(oc) and np.all(np.diff(ts) >= 0), "timestamps", ts=ts)
                if "show_loss_every" in kw:
                    m = P.model()
                    want = [mean_loss(P, w, m) for w in ws[:-1][::2]]
                    ctx.check(np.allclose(lr.loss_curve_, want), "loss curve", got=lr.loss_curve_, expected=want)
        if i % 5 == 0:
            with ctx.case(lambda: dict(P.desc(), learner="StructuredPerceptron")):
                snaps = []
                lr = StructuredPerceptron(P.model(), max_iter=5, logger=lambda l, it: snaps.append(
                    (it, np.array(l.w), len(l.loss_curve_))))
                lr.fit(P.X, P.Y)
                ctx.did()
                k = len(lr.loss_curve_)
                ctx.check([(q[0], q[2]) for q in snaps] == [(j, j + 1) for j in range(k)] + [("final", k)],
                          "%d passes, the logger saw %r" % (k, [(q[0], q[2]) for q in snaps]))
                ctx.check(np.array_equal(snaps[-1][1], lr.w), "the final log has other weights")
                ctx.check(all(0 <= v <= 1 + 1e-12 for v in lr.loss_curve_), "loss outside [0, 1]",
                          got=lr.loss_curve_)
                if len(lr.loss_curve_) < 5:
                    ctx.check(lr.loss_curve_[-1] == 0 and lr.score(P.X, P.Y) == 1., "stopped early with errors")


def frankwolfe(ctx, name, C, stride):
    """loss curve, logger and lengths of the curves"""
    from pystruct.learners import FrankWolfeSSVM
    modes = (dict(), dict(do_averaging=False), dict(batch_mode=True), dict(line_search=False), dict(check_dual_every=1),
             dict(batch_mode=True, line_search=False), dict(check_dual_every=3, do_averaging=False))
    for i, P in enumerate(space(name, False)):
        if i % stride:
            continue
        for j, kw in enumerate(modes):
            for every, limit in ((0, 3), (1, 1), (1, 5), (2, 4), (2, 5), (3, 7)):
                with ctx.case(lambda: dict(P.desc(), learner="FrankWolfe", options=kw, C=C, show_loss_every=every, max_iter=limit)):
                    snaps = []
                    lr = FrankWolfeSSVM(P.model(), C=C, max_iter=limit, sample_method=("seq", "perm", "rnd")[(i + j) % 3], random_state=i,
                                        show_loss_every=every, logger=lambda l, it: snaps.append((it, np.array(l.w))), **kw)
                    r = lr.fit(P.X, P.Y)
                    ctx.did()
                    ctx.check(r is lr, "fit does not return the learner")
                    its = [s[0] for s in snaps]
                    ctx.check(its[-1] == "final" and its[:-1] == list(range(len(its) - 1)) and 1 <= len(its) - 1 <= limit, "logger saw %r" % its)
                    ctx.check(np.array_equal(snaps[-1][1], lr.w), "the final log has other weights")
                    n = len(its) - 1
                    ce = 1 if kw.get("batch_mode") else kw.get("check_dual_every", 10)
                    dual, primal = lr.objective_curve_, lr.primal_objective_curve_
                    ctx.check(len(dual) == len(primal) == (n + ce - 1) // ce + 1, "%d dual and %d primal objectives in %d iterations, checked "
                              "every %d" % (len(dual), len(primal), n, ce))
                    val = P.objective(np.array(lr.w), C)
                    ctx.check(abs(primal[-1] - val) <= 1e-6 * (1 + val), "the final primal objective is %r, the weights have %r" % (primal[-1], val))
                    ts = np.array(lr.timestamps_[1:])
                    ctx.check(len(ts) == len(dual) and np.all(ts >= 0) and np.all(np.diff(ts) >= 0), "timestamps", ts=ts)
                    if every:
                        m = P.model()
                        want = [mean_loss(P, w, m) for it, w in snaps[:-1] if it % every == 0]
                        got = getattr(lr, "loss_curve_", [])
                        ctx.check(len(got) == len(want) and np.allclose(got, want), "recorded training losses are not those of the weights "
                                  "at these iterations", got=got, expected=want)
                    else:
                        ctx.check(not hasattr(lr, "loss_curve_"), "losses recorded although not asked for")
                    ctx.outcome(("F", n, tuple(np.round(primal[:4], 3))))


def shards(tier):
    Th = tier == "thorough"
    out = []
    for kind in "NO":
        for oname in (NS if kind == "N" else OS):
            for name in ("d2K2n2", "d1K2n3", "d1K3n2") + (("d2K2n3", "d2K3n1") if Th else ()):
                for limit in (1, 2, 3, 4, 1000):
                    for C in (.1, 1., 10.) if Th else (1.,):
                        out.append(("cutting", (kind, name, oname, limit, C,
                                                1 if Th or oname == "default" else 5)))
            for n, K, d, C in ((20, 4, 6, 1.), (30, 4, 15, 10.), (15, 3, 9, 100.)):
                for limit in (7, 1000):
                    for seed in (1, 2, 3, 4) if Th else (1,):
                        out.append(("long", (kind, oname, limit, C, n, K, d, seed)))
    for ei in range(len(relaxed_entries())):
        for kind, onames in (("N", ("default", "nocheck")), ("O", ("default", "cache1", "cache3", "check")),
                             ("F", ("bc", "batch"))):
            for oname in onames:
                for C in (1., 10.) if Th else (1.,):
                    out.append(("relaxed", (ei, kind, oname, C, 2 if Th else 13)))
    for name in ("d2K2n2", "d1K2n3", "d1K3n2", "d2K3n1"):
        out.append(("others", (name, 1.)))
        out.append(("frankwolfe", (name, 1., 1 if Th else 7)))
    return out
