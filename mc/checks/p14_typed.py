"""Multi-type models: one type is the plain model, type order and absent types do not matter."""
import itertools

import numpy as np

from .. import graphs as G
from .. import zoo

PROPERTY = "P14"
LEVEL = "model_checking"
RULE = ("one state per (instance, labeling or weights): the real multi-type model is compared with the real "
        "single-type edge-feature model, with itself under a permutation of the types, and through the "
        "flatten/unflatten conversion")
BOUNDS = ("one-type instances with 1..4 nodes, 1..3 states, 1..2 (edge) features, class weights, every "
          "labeling, sparse and generic weights; two and three types with all permutations of the types, "
          "types without nodes (None or empty arrays)")
ASSUMPTIONS = ["predictions compared where the maximiser is unique by 1e-2 (ad3)"]


def single(ctx, S, F, EF, cw, tier):
    from pystruct.models import EdgeFeatureGraphCRF, NodeTypeEdgeFeatureGraphCRF
    e = zoo.edgefeat_entry(S, F, EF, "ad3", cw, graphs=zoo.TREE_GRAPHS + zoo.LOOPY[:1])
    for meth in ("ad3", "ad3+"):
        a = EdgeFeatureGraphCRF(S, F, EF, inference_method=meth, class_weight=cw)
        b = NodeTypeEdgeFeatureGraphCRF(1, [S], [F], [[EF]], inference_method=meth,
                                        l_class_weight=None if cw is None else [cw])
        for x, xi in zip(e.xs, range(len(e.xs))):
            ys, Psi = e.table(xi)
            tx = ([x[0]], [x[1]], [x[2]])
            if meth == "ad3":
                for i, y in enumerate(ys):
                    with ctx.case(lambda: dict(S=S, F=F, EF=EF, class_weight=cw, x=x, y=y)):
                        p, q = a.joint_feature(x, y), b.joint_feature(tx, y)
                        ctx.did(2)
                        ctx.check(np.allclose(p, q, atol=1e-12) and p.shape == q.shape,
                                  "joint features differ", plain=p, typed=q)
                        yt = ys[(i * 3 + 1) % len(ys)]
                        ctx.check(a.loss(yt, y) == b.loss(yt, y), "losses differ")
                        ctx.check(a.max_loss(y) == b.max_loss(y), "maximum losses differ")
                        ctx.outcome(tuple(p))
                        ctx.check(np.array_equal(b.flattenY(b.unflattenY(tx, y)), y), "flatten/unflatten")
            for k, w in enumerate(e.weights(1, n_generic=2 if tier == "quick" else 8)):
                sc = Psi.dot(w)
                yt = ys[(5 * k) % len(ys)]
                aug = sc + e.loss_row(x, yt, ys)
                tol = 1e-3 * (10 + 4 * np.abs(w).sum())
                for kind, tot in (("inference", sc), ("loss-augmented", aug)):
                    if len(tot) > 1 and np.diff(np.sort(tot))[-1] < 1e-2:
                        continue
                    with ctx.case(lambda: dict(S=S, F=F, EF=EF, method=meth, x=x, w=w, kind=kind, y=yt)):
                        if kind == "inference":
                            p, ep = a.inference(x, w, relaxed=True, return_energy=True)
                            q, eq = b.inference(tx, w, relaxed=True, return_energy=True)
                        else:
                            p, ep = a.loss_augmented_inference(x, yt, w, relaxed=True, return_energy=True)
                            q, eq = b.loss_augmented_inference(tx, yt, w, relaxed=True, return_energy=True)
                        ctx.did(2)
                        ctx.check(isinstance(p, tuple) == isinstance(q, tuple), "one result is relaxed",
                                  plain=p, typed=q)
                        ctx.check(abs(ep - eq) < tol, "energies differ: %r, %r" % (ep, eq))
                        if not isinstance(p, tuple):
                            ctx.check(np.array_equal(p, q), "labels differ", plain=p, typed=q)
                            ctx.check(abs(tot[[e.key(y) for y in ys].index(e.key(q))] - tot.max()) < 1e-6,
                                      "not a maximiser", typed=q)


CONF = [([2, 3], [1, 2], [[1, 2], [2, 1]], zoo.TYPED_INSTANCES),
        ([2, 1, 2], [1, 1, 2], [[1, 0, 1], [0, 0, 1], [1, 1, 0]],
         [((1, 1, 1), {(0, 2): [(0, 0)], (1, 2): [(0, 0)]}),
          ((2, 1, 1), {(0, 0): [(0, 1)], (2, 0): [(0, 1)], (2, 1): [(0, 0)]}),
          ((1, 0, 2), {(0, 2): [(0, 1)], (2, 2): [(0, 1)]})]),
        ([2, 2], [1, 2], [[1, 1], [1, 1]],
         [((2, 0), {(0, 0): [(0, 1)]}), ((0, 2), {(1, 1): [(1, 0)]}), ((1, 1), {(1, 0): [(0, 0)]})])]


def permute(ctx, ci, none):
    """Renaming the types permutes features, labels and predictions."""
    S, F, EF, insts = CONF[ci]
    T = len(S)
    cw = [[1. + t + s for s in range(S[t])] for t in range(T)]
    for perm in itertools.permutations(range(T)):
        pS, pF, pcw = [S[p] for p in perm], [F[p] for p in perm], [cw[p] for p in perm]
        pEF = [[EF[p][q] for q in perm] for p in perm]
        a = zoo.typed_entry(S, F, EF, insts, "ad3", l_cw=cw)
        ma = a.make()
        from pystruct.models import NodeTypeEdgeFeatureGraphCRF
        mb = NodeTypeEdgeFeatureGraphCRF(T, pS, pF, pEF, inference_method="ad3", l_class_weight=pcw)
        sa, sb = np.cumsum([0] + list(S)), np.cumsum([0] + pS)
        for xi, x in enumerate(a.xs):
            if none:
                x = ([f if len(f) else None for f in x[0]], x[1], x[2])
            px = ([x[0][p] for p in perm], [x[1][p * T + q] for p in perm for q in perm],
                  [x[2][p * T + q] for p in perm for q in perm])
            nn = [0 if f is None else len(f) for f in x[0]]
            off = np.cumsum([0] + nn)
            ys, Psi = a.table(xi)

            def mapy(y):
                parts = [y[off[p]:off[p + 1]] - sa[p] + sb[k] for k, p in enumerate(perm)]
                return np.hstack(parts).astype(int)
            # positions of the permuted joint feature entries
            ublk, pos = {}, 0
            for t in range(T):
                ublk[t] = np.arange(pos, pos + S[t] * F[t])
                pos += S[t] * F[t]
            pblk = {}
            for t1 in range(T):
                for t2 in range(T):
                    k = EF[t1][t2] * S[t1] * S[t2]
                    pblk[t1, t2] = np.arange(pos, pos + k)
                    pos += k
            order = np.hstack([ublk[p] for p in perm] + [pblk[p, q] for p in perm for q in perm]).astype(int)
            for i, y in enumerate(ys):
                with ctx.case(lambda: dict(types=S, order=perm, x=x, y=y)):
                    fa, fb = ma.joint_feature(x, y), mb.joint_feature(px, mapy(y))
                    ctx.did(2)
                    ctx.check(np.allclose(fa, Psi[i]) and np.allclose(fa[order], fb),
                              "joint features depend on the order of the types", a=fa[order], b=fb)
                    yt = ys[(2 * i + 1) % len(ys)]
                    ctx.check(abs(ma.loss(yt, y) - mb.loss(mapy(yt), mapy(y))) < 1e-9, "losses differ")
                    # grouped form
                    ly = [y[off[t]:off[t + 1]] - sa[t] for t in range(T)]
                    got = ma.unflattenY(x, y)
                    ctx.check(len(got) == T and all(np.array_equal(g, l) for g, l in zip(got, ly)),
                              "unflattenY", got=got, expected=ly)
                    ctx.check(np.array_equal(ma.flattenY(ly), y), "flattenY", got=ma.flattenY(ly))
                    ctx.outcome((ci, xi, i))
            for k, w in enumerate(a.weights(1)):
                sc = Psi.dot(w)
                yt = ys[(5 * k) % len(ys)]
                aug = sc + a.loss_row(a.xs[xi], yt, ys)
                for tot, kind in ((sc, 0), (aug, 1)):
                    if len(tot) > 1 and np.diff(np.sort(tot))[-1] < 1e-2:
                        continue
                    with ctx.case(lambda: dict(types=S, order=perm, x=x, w=w, loss_augmented=kind)):
                        if kind:
                            r = ma.loss_augmented_inference(x, yt, w)
                            q = mb.loss_augmented_inference(px, mapy(yt), w[order])
                        else:
                            r, q = ma.inference(x, w), mb.inference(px, w[order])
                        ctx.did(2)
                        ctx.check(np.array_equal(mapy(np.asarray(r)), q), "prediction depends on the order of "
                                  "the types", a=r, b=q)
                        i = int(np.argmax(tot))
                        ctx.check(np.array_equal(r, ys[i]), "not the maximiser", got=r, best=ys[i])


def bad_flat(ctx):
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF
    m = NodeTypeEdgeFeatureGraphCRF(2, [2, 3], [1, 1], [[1, 1], [1, 1]])
    x = ([zoo.feats(2, 1), zoo.feats(1, 1)], [None] * 4, [None] * 4)
    for n in range(6):
        with ctx.case(dict(labels=n, nodes=3)):
            ctx.did()
            y = np.array([0, 1, 2, 2, 2, 2][:n])
            try:
                r = m.unflattenY(x, y)
            except ValueError:
                r = None
            ctx.check((r is None) == (n != 3), "unflattenY accepted %d labels for 3 nodes" % n
                      if n != 3 else "unflattenY rejected a valid labeling")


def shards(tier):
    out = [("single", (S, F, EF, cw, tier)) for S, F, EF, cw in
           [(1, 1, 1, None), (2, 1, 1, None), (2, 2, 2, [1., 3.]), (3, 1, 1, [1., 2., .5]),
            (3, 2, 1, None)]]
    for ci in range(len(CONF)):
        for none in (False, True):
            out.append(("permute", (ci, none)))
    return out + [("bad_flat", ())]
