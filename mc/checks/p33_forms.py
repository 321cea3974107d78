"""Results depend on the numbers in the arrays, not on how the arrays are stored."""
import itertools

import numpy as np

from .. import graphs as G
from .. import refs as R
from . import p25_history as p25
from .p04_prediction import entries, unique_margin
from .p10_batch import parts, stack

PROPERTY = "P33"
LEVEL = "model_checking"
RULE = ("one state per (operation of a model, inference method or learner, its arguments, storage form of each argument); the "
        "result is compared with that of the same numbers stored as contiguous writable float64 and int64 arrays, which other "
        "checks compare with brute force")
BOUNDS = ("all P04 model configurations, inference methods and learners; instances as int64, int32, int8, uint8 (non-negative "
          "features), float32, read-only, Fortran-ordered, strided and reversed-view arrays; edges as int32, int8, uint8, uint16, "
          "uint64, read-only, Fortran-ordered and strided arrays; labels in every integer type, read-only, strided; weights as "
          "int64, float32, read-only and strided arrays; every single argument in every form and every pair of arguments in a "
          "third of the pairs of forms (thorough: all); data sets as lists, tuples, arrays of objects and (equal shapes) arrays")
ASSUMPTIONS = ["feature and weight values are small integers, so that every type represents them and their products exactly",
               "weights whose maximiser is unique"]


def ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def strided(a):
    return np.repeat(a, 2, axis=0)[::2]


def reverse(a):
    return a[::-1].copy()[::-1]


def cols(a):
    """a view of the first columns of a wider array"""
    return np.hstack([a, np.full((a.shape[0], 1), 7, dtype=a.dtype)])[:, :-1] if a.ndim == 2 else a


def to(t):
    def f(a):
        if np.dtype(t).kind == "u" and a.size and a.min() < 0:
            return a
        return a.astype(t)
    return f


FEAT = dict(int64=to("i8"), int32=to("i4"), int8=to("i1"), uint8=to("u1"), float32=to("f4"), readonly=ro, fortran=np.asfortranarray,
            strided=strided, reverse=reverse, cols=cols)
EDGE = dict(int32=to("i4"), int8=to("i1"), uint8=to("u1"), uint16=to("u2"), uint64=to("u8"), readonly=ro, fortran=np.asfortranarray,
            strided=strided, reverse=reverse, cols=cols)
LAB = dict(int32=to("i4"), int16=to("i2"), int8=to("i1"), uint8=to("u1"), uint16=to("u2"), uint32=to("u4"), uint64=to("u8"), readonly=ro,
           strided=strided, reverse=reverse)
WGT = dict(int64=to("i8"), float32=to("f4"), readonly=ro, strided=strided, reverse=reverse)


def apply(x, f, kind):
    """f applied to every array of floats (kind f) or integers (kind i) in an instance"""
    if isinstance(x, list):
        return [apply(a, f, kind) for a in x]
    if isinstance(x, tuple):
        return tuple(apply(a, f, kind) for a in x)
    if isinstance(x, np.ndarray) and x.dtype != object and (x.dtype.kind in "iu") == (kind == "i"):
        return f(x)
    return x


def scaled(x):
    return apply(x, lambda a: np.round(4 * a), "f")


def single_and_pairs(spaces, step=1):
    """combinations with at most two arguments in an unusual form; step 3: a third of the pairs, every form with every argument"""
    names = sorted(spaces)
    yield {}
    for n in names:
        for f in spaces[n]:
            yield {n: f}
    for a, b in itertools.combinations(names, 2):
        for i, f in enumerate(spaces[a]):
            for j, g in enumerate(spaces[b]):
                if (i + j) % step == 0:
                    yield {a: f, b: g}


def inst(x, forms):
    if "features" in forms:
        x = apply(x, FEAT[forms["features"]], "f")
    if "edges" in forms:
        x = apply(x, EDGE[forms["edges"]], "i")
    return x


def lab(y, forms, key="labels"):
    return LAB[forms[key]](np.asarray(y)) if key in forms and isinstance(y, np.ndarray) and y.ndim else y


def has_edges(x):
    hit = []
    apply(x, lambda a: hit.append(1) or a, "i")
    return bool(hit)


def same(a, b, tol=1e-6):
    a, b = parts(a), parts(b)
    return len(a) == len(b) and all(p.shape == q.shape and np.allclose(p, q, atol=tol) for p, q in zip(a, b))


def ints(w):
    return 2 * np.round(w / np.abs(w[np.abs(w) > 0]).min() / 2) if np.abs(w).max() else w


def models(ctx, group, ei, step):
    e = entries(group)[ei]
    model = e.make()
    rescale = getattr(e, "rescale_C", False)
    scalar = getattr(e, "scalar", False)
    picks = sorted({0, len(e.xs) - 1, len(e.xs) // 2})
    for xi in picks:
        x = scaled(e.xs[xi])
        ys = e.table(xi)[0]
        Psi = np.array([e.psi(x, y) for y in ys]).reshape(len(ys), e.d)
        w = None
        for s in range(40):
            c = np.round(e.proj(np.array([((7 * k + s) * (s + 3) % 23 - 11.) * 2 for k in range(e.d)])))
            y = ys[(3 * s + len(ys) // 2) % len(ys)]
            sc = Psi.dot(c)
            aug = (sc * e.cw[int(y)] if rescale else sc) + e.loss_row(x, y, ys)
            if unique_margin(sc) > .4 and unique_margin(aug) > .4:
                w = c
                break
        if w is None:
            continue
        yh = ys[(len(ys) // 3 + 1) % len(ys)]
        ref = None
        spaces = dict(features=FEAT, weights=WGT)
        if has_edges(x):
            spaces["edges"] = EDGE
        if isinstance(y, np.ndarray):
            spaces.update(labels=LAB, second=LAB)
        for forms in single_and_pairs(spaces, step):
            x2, y2, yh2 = inst(x, forms), lab(y, forms), lab(yh, forms, "second")
            if scalar and ("labels" in forms or "second" in forms):
                continue
            w2 = WGT[forms["weights"]](w) if "weights" in forms else w
            ops = [("inference", lambda: model.inference(x2, w2)),
                   ("loss-augmented inference", lambda: model.loss_augmented_inference(x2, y2, w2)),
                   ("joint feature", lambda: model.joint_feature(x2, yh2, y2) if rescale else model.joint_feature(x2, y2)),
                   ("loss", lambda: model.loss(y2, yh2)),
                   ("batch inference", lambda: list(model.batch_inference(stack(e, [x2, x2]), w2))),
                   ("batch loss-augmented inference", lambda: list(model.batch_loss_augmented_inference(
                       stack(e, [x2, x2]), stack(e, [y2, y2]), w2))),
                   ("batch joint feature", lambda: model.batch_joint_feature(*[stack(e, [a, a]) for a in (
                       (x2, yh2, y2) if rescale else (x2, y2))])),
                   ("batch loss", lambda: list(model.batch_loss(stack(e, [y2, y2]), stack(e, [yh2, yh2]))))]
            if e.latent:
                ops.append(("latent", lambda: model.latent(x2, model.label_from_latent(y2), w2)))
            res = []
            for n, f in ops:
                with ctx.case(lambda: dict(model=e.name, operation=n, x=x2, y=y2, y_hat=yh2, w=w2, forms=forms)):
                    r = f()
                    ctx.did()
                    if not forms:
                        res.append(r)
                        if n == "inference":
                            ctx.check(e.key(r) == e.key(ys[int(np.argmax(sc))]), "not the unique maximiser", got=r)
                        if n == "loss-augmented inference":
                            ctx.check(e.key(r) == e.key(ys[int(np.argmax(aug))]), "not the unique maximiser of score plus loss", got=r)
                        if n == "joint feature" and not rescale:
                            ctx.check(np.allclose(r, e.psi(x, y)), "joint feature", got=r)
                    elif ref is not None and len(ref) == len(ops):
                        k = [m for m, _ in ops].index(n)
                        ctx.check(same(r, ref[k]), "%s depends on how its arguments are stored" % n, got=r, expected=ref[k])
                        ctx.outcome((n, tuple(np.round(np.ravel(parts(r)[0]).astype(float), 3).tolist()) if len(parts(r)) else ()))
            if not forms:
                ref = res


def arrays(ctx, ei, step):
    """the models whose instances are the rows of a matrix"""
    e = [e for e in entries("base") if e.batch_arrays][ei]
    model = e.make()
    rescale = getattr(e, "rescale_C", False)
    binary = "Binary" in e.name
    for n in (1, 4):
        seq = [(3 * k + n) % len(e.xs) for k in range(n)]
        X = np.array([scaled(np.asarray(e.xs[s], float)) for s in seq])
        ys = e.table(0)[0]
        Y = np.array([ys[k % len(ys)] for k in range(n)])
        H = np.array([ys[(k * k + 1) % len(ys)] for k in range(n)])
        w = np.round(e.proj(np.array([((7 * k) * 3 % 23 - 11.) * 2 for k in range(e.d)])))
        ref = None
        labs = {k: f for k, f in LAB.items() if not (binary and k[0] == "u")}
        for forms in single_and_pairs(dict(features=FEAT, labels=labs, second=labs, weights=WGT), step):
            X2, Y2, H2 = inst(X, forms), lab(Y, forms), lab(H, forms, "second")
            w2 = WGT[forms["weights"]](w) if "weights" in forms else w
            with ctx.case(lambda: dict(model=e.name, X=X2, Y=Y2, Y_hat=H2, w=w2, forms=forms)):
                r = [model.batch_inference(X2, w2), model.batch_loss_augmented_inference(X2, Y2, w2),
                     model.batch_joint_feature(X2, H2, Y2) if rescale else model.batch_joint_feature(X2, H2), model.batch_loss(Y2, H2)]
                r += [model.inference(x, w2) for x in X2] + [model.loss_augmented_inference(x, y, w2) for x, y in zip(X2, Y2)]
                r += [model.joint_feature(x, h, y) if rescale else model.joint_feature(x, h) for x, h, y in zip(X2, H2, Y2)]
                r = [np.array(a, float) for a in r]
                ctx.did(len(r))
                if not forms:
                    ref = r
                    ctx.check(np.allclose(r[2], sum(r[4 + 2 * n:])), "batch joint feature", got=r)
                else:
                    ctx.check(ref is not None and all(same(a, b) for a, b in zip(r, ref)), "batch operations depend on how their "
                              "arguments are stored", got=r, expected=ref)
                ctx.outcome((e.name, n, tuple(r[0].ravel().tolist())))


def inference(ctx, method, step):
    from pystruct.inference import compute_energy, inference_dispatch
    forest = [(1, []), (2, [(0, 1)]), (3, [(1, 0), (2, 1)]), (4, [(0, 1), (2, 1), (1, 3)])]
    loopy = [(3, [(0, 1), (1, 2), (2, 0)]), (4, [(0, 1), (1, 2), (2, 3), (0, 3)])]
    graphs = forest if method in ("max-product", "unary") else forest + loopy
    pot = {k: FEAT[k] for k in FEAT}
    for n, edges in graphs:
        for S in (2, 3):
            for seed in range(40):
                u = np.round(G.generic(n * S, 7 + seed, scale=9)).reshape(n, S) * 2
                p = np.round(G.generic(max(1, len(edges)) * S * S, 17 + seed, scale=9)).reshape(-1, S, S)[:len(edges)] * 2
                if len(np.unique(np.round(R.all_scores(u, p, edges), 6))) == S ** n or method == "unary":
                    break
            sc = R.all_scores(u, p if method != "unary" else 0 * p, edges)
            if unique_margin(sc) < .5:
                continue
            E = G.earr(edges)
            for shared in (False, True):
                if shared and not len(edges):
                    continue
                p1 = p[0] if shared else p
                ref = None
                for forms in single_and_pairs(dict(unary=pot, pairwise=pot, edges=EDGE), step):
                    u2 = pot[forms["unary"]](u) if "unary" in forms else u
                    p2 = pot[forms["pairwise"]](p1) if "pairwise" in forms and p1.size else p1
                    E2 = EDGE[forms["edges"]](E) if "edges" in forms else E
                    with ctx.case(lambda: dict(method=method, unary=u2, pairwise=p2, edges=E2, forms=forms)):
                        r = [inference_dispatch(u2, p2, E2, method)]
                        if method in ("lp", "ad3", "ad3+"):
                            r.append(inference_dispatch(u2, p2, E2, method, relaxed=True))
                            r += [np.array(inference_dispatch(u2, p2, E2, method, return_energy=True)[1])]
                        if not shared:
                            r.append(np.array(compute_energy(u2, p2, E2, r[0])))
                        ctx.did(len(r))
                        if not forms:
                            ref = r
                        else:
                            ctx.check(ref is not None and all(same(a, b, 1e-3 if method[:2] == "ad" and k else 1e-6)
                                                              for k, (a, b) in enumerate(zip(r, ref))),
                                      "inference depends on how its arguments are stored", got=r, expected=ref)
                        ctx.outcome((n, S, seed, tuple(np.ravel(r[0]).tolist())))


LSPACES = {"N": ("multi", "binary", "graph", "chain", "edge", "multilabel"), "O": ("multi", "multiresc", "binary", "graph", "chain", "edge", "grid", "multilabel"),
           "Oc": ("graph", "multi"), "F": ("multi", "graph", "chain", "edge"), "Fb": ("multi", "graph"), "S": ("multi", "binary", "graph", "grid"),
           "Sq": ("graph", "chain"), "P": ("multi", "graph", "binary"), "Pa": ("multi", "graph"), "Pb": ("multi", "graph", "binary"),
           "L": ("latentlg22",), "LN": (), "LO": ("latentlg22",), "LS": ("latentlg22",)}


def lpairs():
    out = []
    for l, names in LSPACES.items():
        for n in names:
            if n[:6] == "latent":
                for m in sorted(p25.p23.entries()):
                    out.append((l, "latent" + m))
            else:
                out.append((l, n))
    return out


def whole(X, f):
    """f applied to the arrays of a data set"""
    if isinstance(X, np.ndarray):
        return f(X)
    return [f(x) for x in X]


def learners(ctx, li, step):
    lname, sname = lpairs()[li]
    for S in p25.spaces(sname):
        for k in "AC":
            X0, Y0 = S.sets[k][:2]
            H0 = S.sets[k][2] if len(S.sets[k]) > 2 else None
            X0 = whole(X0, scaled)
            spaces = dict(features=FEAT, labels=LAB)
            if has_edges(X0[0]):
                spaces["edges"] = EDGE
            ref = None
            for forms in single_and_pairs(spaces, step):
                X = whole(X0, lambda x: inst(x, forms))
                Y = whole(Y0, lambda y: lab(np.asarray(y), forms))
                with ctx.case(lambda: dict(S._desc, learner=lname, data=k, X=X, Y=Y, forms=forms)):
                    lr = p25.build(lname, S.make())
                    kw = {} if H0 is None else dict(H_init=[lab(np.array(h), forms) for h in H0])
                    np.random.seed(11)
                    lr.fit(X, Y, initialize=S.initialize, **kw)
                    r = [np.array(lr.w, float), np.array(lr.score(X, Y))]
                    r += [np.asarray(y[0] if isinstance(y, tuple) else y) for y in lr.predict(X)]
                    for c in ("objective_curve_", "loss_curve_"):
                        if hasattr(lr, c):
                            r.append(np.array(getattr(lr, c), float))
                    ctx.did(3)
                    if not forms:
                        ref = r
                    else:
                        ctx.check(ref is not None and len(r) == len(ref) and all(same(a, b) for a, b in zip(r, ref)),
                                  "training depends on how the data are stored", got=r, expected=ref)
                    ctx.outcome((lname, sname, k, tuple(np.round(r[0], 3).tolist())))


def obj(a):
    out = np.empty(len(a), dtype=object)
    for i, v in enumerate(a):
        out[i] = v
    return out


def dense(a):
    """one array, if the items are arrays or numbers of the same shape"""
    if all(isinstance(v, (np.ndarray, np.generic, int, float)) for v in a) and len({np.shape(v) for v in a}) == 1:
        return np.array(list(a))
    return list(a)


BOX = dict(list=list, tuple=tuple, object=obj, dense=dense)


def containers(ctx, li):
    """the collections of instances and labels: list, tuple, array of objects, one array"""
    lname, sname = lpairs()[li]
    for S in p25.spaces(sname):
        for k in "AC":
            X0, Y0 = S.sets[k][:2]
            H0 = S.sets[k][2] if len(S.sets[k]) > 2 else None
            if isinstance(X0, np.ndarray):         # documented as matrix and vector
                continue
            ref = None
            for bx, by in itertools.product(sorted(BOX), sorted(BOX)):
                X, Y = BOX[bx](X0), BOX[by](Y0)
                with ctx.case(lambda: dict(S._desc, learner=lname, data=k, instances=bx, labels=by)):
                    lr = p25.build(lname, S.make())
                    kw = {} if H0 is None else dict(H_init=BOX[by]([np.array(h) for h in H0]))
                    np.random.seed(11)
                    lr.fit(X, Y, initialize=S.initialize, **kw)
                    r = [np.array(lr.w, float), np.array(lr.score(X, Y))]
                    r += [np.asarray(y[0] if isinstance(y, tuple) else y) for y in lr.predict(X)]
                    ctx.did(3)
                    if ref is None:
                        ref = r
                    else:
                        ctx.check(len(r) == len(ref) and all(same(a, b) for a, b in zip(r, ref)),
                                  "training depends on the kind of collection", got=r, expected=ref)
                    ctx.outcome((lname, sname, k, tuple(np.round(r[0], 3).tolist())))


def shards(tier):
    step = 1 if tier == "thorough" else 3
    out = [("inference", (m, step)) for m in ("max-product", "lp", "ad3", "ad3+", "unary")]
    for g in ("base", "typed", "latent", "tree_lp", "loopy"):
        out += [("models", (g, ei, step)) for ei in range(len(entries(g)))]
    out += [("arrays", (i, step)) for i in range(len([e for e in entries("base") if e.batch_arrays]))]
    out += [("containers", (i,)) for i in range(len(lpairs()))]
    out += [("learners", (i, step)) for i in range(len(lpairs()))]
    return out
