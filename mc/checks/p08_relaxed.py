"""Joint features and losses extend linearly from labelings to relaxed solutions."""
import numpy as np

from .. import graphs as G
from .. import zoo
from .p04_prediction import entries

PROPERTY = "P08"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, labeling or pair of labelings): one-hot marginals "
        "and their mixtures are passed to the real joint_feature / continuous_loss / loss and compared "
        "with the discrete values; plus every relaxed result of real LP/AD3 inference for sparse "
        "weights, whose energy must equal the linear score (plus loss) of what was returned")
BOUNDS = ("every labeling and a cyclic family of pairs for the P04 model configurations, mixtures 1/2 and "
          "1/4, float and integer features; relaxed inference on loopy graphs of 3..4 nodes and 2x2, 2x3 "
          "grids")
ASSUMPTIONS = ["solver accuracy 2e-3 relative for energies of fractional solutions"]


def onehot(e, x, y):
    if getattr(e, "typed", False):
        T = e.T
        off = np.cumsum([0] + [len(f) for f in x[0]])
        mus = []
        for t in range(T):
            mu = np.zeros((len(x[0][t]), e.l_states[t]))
            for i in range(len(mu)):
                mu[i, y[off[t] + i] - e.start[t]] = 1
            mus.append(mu)
        nus = []
        for t1 in range(T):
            for t2 in range(T):
                ed = x[1][t1 * T + t2]
                nu = np.zeros((0 if ed is None else len(ed), e.l_states[t1] * e.l_states[t2]))
                for q in range(len(nu)):
                    a, b = ed[q]
                    nu[q, (y[off[t1] + a] - e.start[t1]) * e.l_states[t2]
                       + y[off[t2] + b] - e.start[t2]] = 1
                nus.append(nu)
        return mus, nus
    yf = np.asarray(y).ravel()
    mu = np.zeros((len(yf), e.S))
    mu[np.arange(len(yf)), yf] = 1
    ed = e.edges(x)
    nu = np.zeros((len(ed), e.S ** 2))
    for q, (a, b) in enumerate(ed):
        nu[q, yf[a] * e.S + yf[b]] = 1
    if getattr(e, "grid", False):
        mu = mu.reshape(np.asarray(y).shape + (e.S,))
    return mu, nu


def mix(a, b, lam):
    if isinstance(a, list):
        return [mix(p, q, lam) for p, q in zip(a, b)]
    return (1 - lam) * a + lam * b


def as_int(x):
    if isinstance(x, tuple):
        return (x[0].astype(int),) + x[1:]
    return x.astype(int)


def run(ctx, group, ei):
    e = entries(group)[ei]
    if not e.relaxable:
        return
    model = e.make()
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        n = len(ys)
        hot = [onehot(e, x, y) for y in ys]
        pairs = [(i, (i * 7 + 3 + j * 5) % n) for i in range(n) for j in range(2)]
        variants = [("float", x)] + ([] if getattr(e, "typed", False) else [("int", as_int(x))])
        for name, xx in variants:
            for k, (i, j) in enumerate(pairs):
                lam = (.5, .25, 0., 1.)[k % 4]
                rel = mix(hot[i][0], hot[j][0], lam), mix(hot[i][1], hot[j][1], lam)
                with ctx.case(lambda: dict(model=e.name, x=x, y=ys[i], y2=ys[j], mix=lam, form=name)):
                    got = model.joint_feature(xx, rel)
                    ctx.did()
                    want = (1 - lam) * Psi[i] + lam * Psi[j]
                    ctx.check(np.shape(got) == (e.d,), "wrong size", got=np.shape(got))
                    ctx.check(np.allclose(got, want, atol=1e-8),
                              "joint feature of relaxed labels is not the mixture of the discrete ones",
                              got=got, expected=want)
                    ctx.outcome(tuple(want))
                    if name != "float":
                        continue
                    for t in {i, j, (i + 1) % n, 0}:
                        want = (1 - lam) * e.loss(ys[t], ys[i]) + lam * e.loss(ys[t], ys[j])
                        c = model.continuous_loss(ys[t], rel[0])
                        ctx.did()
                        ctx.check(np.ndim(c) == 0 and abs(c - want) < 1e-8, "continuous loss %r, mixture of the discrete "
                                  "losses %r" % (c, want), y_true=ys[t])
                        c = model.loss(ys[t], rel)
                        ctx.check(abs(c - want) < 1e-8, "loss of a relaxed labeling is %r, expected %r"
                                  % (c, want), y_true=ys[t])


def relaxed_entries():
    out = []
    for m in ("lp", "ad3"):
        out += [zoo.graph_entries(2, 1, m, False, None, graphs=zoo.LOOPY[:2]),
                zoo.graph_entries(3, 1, m, True, [1., 2., 3.], graphs=zoo.LOOPY[:1]),
                zoo.grid_entry(2, 1, m, 4, [(2, 2), (2, 3)]),
                zoo.grid_entry(2, 1, m, 8, [(2, 2)]),
                zoo.grid_entry(2, 1, m, 4, [(2, 2), (3, 2)], directional=True),
                zoo.edgefeat_entry(2, 1, 2, m, [1., 2.], graphs=zoo.LOOPY[:2]),
                zoo.edgefeat_entry(2, 1, 3, m, None, sym=[0], anti=[2], graphs=zoo.LOOPY[:1]),
                zoo.multilabel_entry(3, 2, [(0, 1), (1, 2), (0, 2)], m),
                zoo.latentgraph_entry((1, 2), 1, m, graphs=zoo.LOOPY[:1]),
                zoo.latentgrid_entry((1, 1), 1, m, 4, [(2, 2)]),
                zoo.latentnode_entry(2, 1, 1, m, graphs=[(2, 1, [(0, 1), (1, 2), (0, 2)])])]
    typed_loops = [((2, 1), {(0, 0): [(0, 1)], (0, 1): [(0, 0), (1, 0)]}),
                   ((1, 2), {(1, 0): [(0, 0), (1, 0)], (1, 1): [(0, 1)]})]
    for m in ("ad3", "ad3+"):
        out.append(zoo.typed_entry([2, 2], [1, 1], [[1, 1], [1, 1]], typed_loops, m,
                                   l_cw=[[1., 2.], [1., 3.]]))
    return out


def frustrate(e):
    """weight vectors that make loops frustrated (and therefore relaxations fractional)"""
    rng = np.random.RandomState(0)
    for s in range(6):
        w = rng.randint(-8, 9, size=e.d) / 8.
        yield e.proj(w)
    for c in (1., -1., 3.):
        for pert in (0., .01):
            w = np.full(e.d, pert) * np.arange(e.d)
            # strong uniform coupling on the pairwise part, sign alternating over blocks
            w[e.d // 3:] += c * (-1.) ** np.arange(e.d - e.d // 3)
            yield e.proj(w)
    for w in e.weights(1):
        yield w


def inference(ctx, ei):
    e = relaxed_entries()[ei]
    model = e.make()
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        index = {e.key(y): i for i, y in enumerate(ys)}
        for k, w in enumerate(frustrate(e)):
            yt = ys[(k * 5) % len(ys)]
            loss = e.loss_row(x, yt, ys)
            scale = 10. + np.abs(w).sum() * 4
            for aug in (False, True):
                with ctx.case(lambda: dict(model=e.name, x=x, w=w, y=yt if aug else None)):
                    if aug:
                        r, en = model.loss_augmented_inference(x, yt, w, relaxed=True,
                                                               return_energy=True)
                    else:
                        r, en = model.inference(x, w, relaxed=True, return_energy=True)
                    ctx.did()
                    tot = Psi.dot(w) + (loss if aug else 0)
                    if not isinstance(r, tuple):
                        i = index.get(e.key(r))
                        if i is None and hasattr(e, "nvis"):
                            raise __import__("mc.core", fromlist=["x"]).SkipCase()
                        ctx.check(i is not None, "labels outside the label space", got=r)
                        ctx.outcome(("integral", xi, i))
                        srt = np.sort(tot)
                        if len(srt) < 2 or srt[-1] - srt[-2] > 1e-2:
                            ctx.check(abs(tot[i] - tot.max()) < 1e-3 * scale,
                                      "integral result scores %r, maximum %r" % (tot[i], tot.max()))
                        continue
                    ctx.outcome(("fractional", xi, tuple(np.round(np.hstack(
                        [np.ravel(q) for q in (r[0] if isinstance(r[0], list) else [r[0]])]), 1))))
                    val = np.dot(w, model.joint_feature(x, r))
                    if aug:
                        val += model.loss(yt, r)
                    if hasattr(e, "nvis"):
                        continue     # the energy of latent-node models includes forbidding penalties
                    ctx.check(abs(val + en) < 2e-3 * scale, "relaxed result has linear score%s %r, "
                              "reported energy %r" % (" plus loss" if aug else "", val, en))
                    ctx.check(val > tot.max() - 2e-3 * scale, "relaxed value %r below the best labeling %r"
                              % (val, tot.max()))


def shards(tier):
    out = [("run", (g, ei)) for g in ("base", "loopy", "typed", "latent")
           for ei in range(len(entries(g)))]
    return out + [("inference", (ei,)) for ei in range(len(relaxed_entries()))]
