"""Synthetic data sets: shapes, labels, objects, bounded noise, reproducibility."""
import itertools

import numpy as np

PROPERTY = "P32"
LEVEL = "model_checking"
RULE = ("one state per (generator, parameters, seed): the data set is compared with the documented construction, cell by cell")
BOUNDS = ("all 14 generators; 0..3 samples; noise 0 and 3 others; all sizes of the grid, box, bar, field and number of crosses in a "
          "range; seeds 0..59 (thorough 0..999), where the generator takes one; loaders of stored data: files with up to 3 words of up to 3 letters, 4 pickle protocols, snakes")
ASSUMPTIONS = ["grids are large enough to place crosses apart (10 x 10, as by default; on 8 x 8 generate_crosses may search forever)", "generators without a seed argument fix it themselves, generate_blocks_multinomial (without seed) and the "
               "checkers excepted"]


def onehot(X, Y):
    return X.shape[:-1] == Y.shape and set(np.unique(X)) <= {0., 1.} and np.all(X.sum(axis=-1) == 1)


def boxes(Y, k, value=1):
    """positions of k x k boxes"""
    return [(t, l) for t in range(Y.shape[0] - k + 1) for l in range(Y.shape[1] - k + 1) if np.all(Y[t:t + k, l:l + k] == value)]


def cells(Y, v):
    return {(int(a), int(b)) for a, b in np.argwhere(Y == v)}


def covers(objs, target, least, most):
    """target is the union of least..most of the objects"""
    objs = [o for o in objs if o <= target]
    def rec(left, k, start):
        if not left:
            return k >= least
        if k == most:
            return False
        c = min(left)
        return any(rec(left - o, k + 1, 0) for o in objs if c in o)
    return rec(target, 0, 0) or (least <= len(objs) <= most and set().union(*objs) == target if objs else not target and least == 0)


def box(t, l, h, w):
    return {(t + i, l + j) for i in range(h) for j in range(w)}


def cross(t, l):
    return {(t + 1, l), (t + 1, l + 1), (t + 1, l + 2), (t, l + 1), (t + 2, l + 1)}


def flipped(ctx, D, X, Y, n, noise, encode):
    """X is the encoding of Y with at most noise cells changed"""
    for x, y in zip(X, Y):
        clean = encode(y)
        bad = np.argwhere(np.any(x != clean, axis=-1))
        ctx.check(len(bad) <= noise, "%d cells differ from the labels, noise is %d" % (len(bad), noise), x=x, y=y)


def eye(k):
    return lambda y: np.eye(k)[y]


def cases(Th):
    seeds = range(1000 if Th else 60)
    ns = (0, 1, 2, 3)
    for n, noise, seed in itertools.product(ns, (0, .5, 1.5), seeds):
        yield "generate_blocks", dict(n_samples=n, noise=noise, seed=seed)
        yield "generate_blocks_multinomial", dict(n_samples=n, noise=noise, seed=seed, size_x=(6, 9, 12, 7, 11)[seed % 5])
    for n, noise in itertools.product(ns, (0, .5, 1.5)):
        yield "generate_checker", dict(n_samples=n, noise=noise)
        for a, b in itertools.product(range(1, 6), range(1, 5)):
            yield "generate_big_checker", dict(n_samples=n, noise=noise, n_fields=a, field_size=b)
        for s in (4, 6, 12, 7):
            yield "generate_checker_multinomial", dict(n_samples=n, noise=noise, size_x=s)
        for a in range(1, 7):
            yield "generate_big_checker_extended", dict(n_samples=n, noise=noise, n_fields=a)
    for n, noise, seed in itertools.product(ns, (0, 1, 5, 40), seeds):
        yield "make_simple_2x2", dict(n_samples=n, n_flips=noise, seed=seed)
        yield "generate_easy", dict(n_samples=n, noise=noise, seed=seed, box_size=(3, 2, 1, 4)[seed % 4], total_size=(8, 10, 9)[seed % 3])
        yield "generate_bars", dict(n_samples=n, noise=noise, random_seed=seed, bars_size=(3, 2, 4)[seed % 3],
                                    total_size=(8, 10)[seed % 2], separate_labels=bool(seed % 5))
        yield "generate_crosses", dict(n_samples=n, noise=noise, seed=seed, n_crosses=(2, 1, 0)[seed % 3], total_size=(10, 11, 12)[seed // 3 % 3])
    for n, noise in itertools.product(range(9), (0, 1, 5, 40)):
        for s in (6, 8, 11):
            yield "generate_square_with_hole", dict(n_samples=n, noise=noise, total_size=s)
        for s, k in itertools.product((9, 10, 12), (1, 2)):
            yield "generate_crosses_explicit", dict(n_samples=n, noise=noise, size=s, n_crosses=k)
        yield "generate_xs", dict(n_samples=n, noise=noise)
        yield "generate_easy_explicit", dict(n_samples=n, noise=noise)
        yield "generate_crosses_latent", dict(n_samples=n, noise=noise)


FREE = ("generate_checker_multinomial", "generate_big_checker_extended")     # use the global random state


def one(ctx, name, kw):
    import pystruct.datasets as D
    from pystruct.datasets import synthetic_grids as S
    f = getattr(S, name)
    n = kw["n_samples"]
    np.random.seed(77)
    X, Y = f(**kw)
    ctx.did()
    ctx.check(len(X) == n and len(Y) == n, "%d instances and %d labels, asked for %d" % (len(X), len(Y), n))
    np.random.seed(77 if name in FREE else 5)
    X2, Y2 = f(**kw)
    ctx.check(np.array_equal(X, X2) and np.array_equal(Y, Y2), "the same call gives another data set")
    seed = "seed" if "seed" in kw else "random_seed"
    if seed in kw and n == 3 and kw.get("noise", kw.get("n_flips")) in (1.5, 40):
        X2, Y2 = f(**dict(kw, **{seed: kw[seed] + 1}))
        ctx.check(not np.array_equal(X, X2), "another seed gives the same data set")
    ctx.outcome((name, n, float(np.sum(np.abs(np.asarray(X, float)))) if n else 0))
    if n == 0:
        return
    Yi = np.asarray(Y)
    ctx.check(Yi.dtype.kind == "i" and np.all(Yi >= 0), "labels are not non-negative integers", dtype=str(Yi.dtype))
    noise = kw.get("noise", kw.get("n_flips"))
    if name == "make_simple_2x2":
        for x, y in zip(X, Y):
            ctx.check(x.shape == (4, 4) and y.shape == (4, 4) and set(np.unique(x)) <= {-1, 1}, "shapes or values")
            ctx.check(any(cells(y, 1) == box(2 * a, 2 * b, 2, 2) for a in (0, 1) for b in (0, 1)), "not one aligned 2x2 box", y=y)
            ctx.check(np.sum(x != 2 * y - 1) <= noise, "more than %d cells are flipped" % noise, x=x, y=y)
        return
    ctx.check(X.shape[:3] == Y.shape, "X has shape %r, Y %r" % (X.shape, Y.shape))
    r, c = np.mgrid[:Y.shape[1], :Y.shape[2]]
    def labels(want):
        ctx.check(all(np.array_equal(y, want) for y in Y), "wrong labels", got=Y[0], expected=want)

    def unaries(scores):
        """noise-free features; noise is centred on them"""
        if noise == 0:
            ctx.check(X.shape == (n,) + scores.shape and np.allclose(X, scores), "features without noise are not those of the labels",
                      got=X[0], expected=scores)
        else:
            ctx.check(X.shape == (n,) + scores.shape, "features have shape %r" % (X.shape,))
            d = X - scores
            f = noise * (100 if "extended" in name else 1)
            d = d[..., :1] if name in ("generate_blocks", "generate_big_checker", "generate_checker") else d
            if d.size >= 100:
                ctx.check(.65 * f < np.sqrt(np.mean(d * d)) < 1.35 * f, "noise has another size than asked for", got=np.sqrt(np.mean(d * d)))
            ctx.check(np.any(d) and np.abs(d).max() < 8 * noise * (100 if "extended" in name else 1), "noise has another size than asked for")
    if name == "generate_blocks":
        ctx.check(Y.shape == (n, 10, 12), "shape %r" % (Y.shape,))
        labels((c >= 6).astype(int))
        s = np.where(c >= 6, 1., -1.)
        unaries(np.dstack([-s, s]))
        ctx.check(np.array_equal(X[..., 0], -X[..., 1]), "the two features are not opposite")
    elif name == "generate_checker":
        ctx.check(Y.shape == (n, 11, 13), "shape %r" % (Y.shape,))
        labels((r + c) % 2)
        unaries(np.dstack([-np.where((r + c) % 2, 1., -1.), np.zeros(r.shape)]))
    elif name == "generate_big_checker":
        k = kw["field_size"]
        ctx.check(Y.shape == (n, k * kw["n_fields"], k * kw["n_fields"]), "shape %r" % (Y.shape,))
        odd = (r // k + c // k) % 2
        labels(1 - odd)
        s = np.where(odd, 1., -1.)
        unaries(np.dstack([s, -s]))
        ctx.check(np.array_equal(X[..., 0], -X[..., 1]), "the two features are not opposite")
    elif name == "generate_blocks_multinomial":
        sx = kw["size_x"]
        ctx.check(Y.shape == (n, sx - 2, sx), "shape %r" % (Y.shape,))
        k = sx // 3
        want = np.where(c < k, 0, np.where(c >= sx - k, 2, 1))
        labels(want)
        unaries(np.eye(3)[want])
    elif name == "generate_checker_multinomial":
        sx = kw["size_x"]
        ctx.check(Y.shape == (n, sx - 2, sx), "shape %r" % (Y.shape,))
        want = np.where((r + c) % 2, 2, np.where(r % 2, 1, 0))
        labels(want)
        s = np.where(np.eye(3)[want] == 1, 1., -1.)
        s[..., 2] = 0
        unaries(s)
    elif name == "generate_big_checker_extended":
        f = 3
        want = np.where((r // f + c // f) % 2, 0, 2)
        mid = (r % 3 == 1) & (c % 3 == 1)
        want = np.where(mid, 1, want)
        want = np.where(mid & ((r // 3 + c // 3) % 2 == 0), 3, want)
        labels(want)
        unaries(100. * np.eye(4)[want])
    else:
        T = Y.shape[1]
        ctx.check(Y.shape[1] == Y.shape[2] == kw.get("total_size", kw.get("size", T)), "shape %r" % (Y.shape,))
        enc = None
        if name == "generate_easy":
            k = kw["box_size"]
            objs = [box(t, l, k, k) for t in range(T - k + 1) for l in range(T - k + 1)]
            for y in Y:
                ctx.check(np.all(y <= 1) and covers(objs, cells(y, 1), 1, 2), "labels are not one or two boxes", y=y)
            enc = eye(2)
        elif name == "generate_bars":
            k = kw["bars_size"]
            hor = [box(t, l, 1, k) for t in range(T) for l in range(T - k + 1)]
            ver = [box(t, l, k, 1) for t in range(T - k + 1) for l in range(T)]
            for y in Y:
                if kw["separate_labels"]:
                    a, b = cells(y, 1), cells(y, 2)
                    ok = np.all(y <= 2) and (a | b) and any(a == h - v for h in hor + [set()] for v in [b]) or (
                        covers(hor, a, 0, 2) or any(a == h - b for h in hor)) and (covers(ver, b, 0, 2) or any(b == v - a for v in ver))
                    ctx.check(ok and 1 <= len(a | b) <= 2 * k, "labels are not one or two bars", y=y)
                else:
                    ctx.check(np.all(y <= 1) and covers(hor + ver, cells(y, 1), 1, 2), "labels are not one or two bars", y=y)
            enc = eye(3 if kw["separate_labels"] else 2)
        elif name == "generate_square_with_hole":
            for y in Y:
                ctx.check(any(cells(y, 1) == box(t, l, 3, 3) - {(t + 1, l + 1)} for t in range(T - 2) for l in range(T - 2)) and np.all(y <= 1),
                          "labels are not one square with a hole", y=y)
            enc = eye(2)
        elif name == "generate_crosses":
            objs = [cross(t, l) for t in range(T - 2) for l in range(T - 2)]
            for y in Y:
                ctx.check(np.all(y <= 1) and covers(objs, cells(y, 1), min(1, kw["n_crosses"]), kw["n_crosses"])
                          and (kw["n_crosses"] > 2 or len(cells(y, 1)) <= 5 * kw["n_crosses"]), "labels are not %d crosses" % kw["n_crosses"], y=y)
                ctx.check(kw["n_crosses"] != 1 or len(cells(y, 1)) == 5, "not a cross", y=y)
            enc = eye(2)
        elif name == "generate_xs":
            for y in Y:
                ctx.check(any(cells(y, 1) == {(t + 1, l + 1), (t + 2, l + 2), (t + 3, l + 3), (t + 1, l + 3), (t + 3, l + 1)}
                              for t in range(T - 3) for l in range(T - 3)) and np.all(y <= 1), "labels are not one X", y=y)
            enc = eye(2)
        elif name == "generate_easy_explicit":
            for y in Y:
                ctx.check(any(cells(y, 3) == {(t + 1, l + 1)} and cells(y, 2) == cross(t, l) - {(t + 1, l + 1)} and
                              cells(y, 1) == box(t, l, 3, 3) - cross(t, l) for t in range(T - 2) for l in range(T - 2)) and np.all(y <= 3),
                          "labels are not one box with a cross and a centre", y=y)
            def enc(y):
                z = (y != 0).astype(int)
                e = np.zeros(z.shape + (4,))
                for k in (1, 2, 3):
                    e += np.eye(4)[z * k]
                return np.minimum(e, 1)
        elif name in ("generate_crosses_explicit", "generate_crosses_latent"):
            hi = 2 if "explicit" in name else 3
            lo = hi - 1
            for y in Y:
                ctx.check(set(np.unique(y)) <= {0, lo, hi} and 1 <= len(cells(y, hi)) <= 2, "labels are not crosses with centres", y=y)
            if hi == 2:
                def enc(y):
                    z = (y != 0).astype(int)
                    return np.minimum(np.eye(3)[z] + np.eye(3)[2 * z], 1)
            else:
                enc = lambda y: np.eye(2)[(y != 0).astype(int)]
        if enc is not None:
            ctx.check(X.shape == Y.shape + enc(Y[0]).shape[-1:], "features have shape %r" % (X.shape,))
            flipped(ctx, D, X, Y, n, noise, enc)
            if noise >= 30 and name != "generate_bars":
                ctx.check(any(np.any(x != enc(y)) for x, y in zip(X, Y)), "noise has no effect")
            if noise and "explicit" not in name:
                ctx.check(onehot(X, Y), "features are not indicators")


def run(ctx, Th, part, parts):
    for q, (name, kw) in enumerate(cases(Th)):
        if q % parts != part:
            continue
        with ctx.case(lambda: dict(generator=name, parameters=kw)):
            one(ctx, name, kw)


def loaders(ctx):
    """stored data sets: from files in a scratch directory (Python 2 and 3 pickles), and the snakes that come with the package"""
    import os
    import pickle
    import shutil
    import tempfile

    from pystruct import datasets
    from pystruct.datasets import dataset_loaders as D
    d = tempfile.mkdtemp(prefix="verif_data_")
    old = D.__file__
    try:
        D.__file__ = os.path.join(d, "dataset_loaders.py")
        for protocol in (0, 1, 2, 4):
            for lens in itertools.chain.from_iterable(itertools.product(range(1, 4), repeat=k) for k in range(4)):
                words = [np.arange(n * 128).reshape(n, 128) % (7 + i) for i, n in enumerate(lens)]
                labels = [np.arange(n) for n in lens]
                stored = {"data": words, "labels": labels, "folds": np.arange(len(lens)), "text": "x"}
                with ctx.case(lambda: dict(what="letters", lengths=lens, protocol=protocol)):
                    with open(os.path.join(d, "letters.pickle"), "wb") as f:
                        pickle.dump(stored, f, protocol)
                    got = datasets.load_letters()
                    ctx.did()
                    ctx.check(set(got) == set(stored) | {"images"}, "keys", got=sorted(got))
                    ctx.check(len(got["data"]) == len(lens) and all(np.array_equal(a, b) for a, b in zip(got["data"], words)) and
                              all(np.array_equal(a, b) for a, b in zip(got["labels"], labels)) and np.array_equal(got["folds"], stored["folds"]),
                              "the data differ from what is stored")
                    ctx.check(len(got["images"]) == len(lens), "number of images")
                    for word, im in zip(words, got["images"]):
                        ctx.check(im.shape == (16, 8 * len(word)), "shape of an image %r" % (im.shape,))
                        ctx.check(all(im[r, 8 * k + c] == word[k, 8 * r + c] for k in range(len(word)) for r in range(16) for c in range(8)),
                                  "an image shows something else")
                    ctx.outcome(("letters", lens))
            with ctx.case(lambda: dict(what="scene", protocol=protocol)):
                stored = {"X_train": np.arange(6.).reshape(2, 3), "y_train": np.array([[0, 1], [1, 1]]), "X_test": np.zeros((0, 3)), "y_test": np.zeros((0, 2))}
                with open(os.path.join(d, "scene.pickle"), "wb") as f:
                    pickle.dump(stored, f, protocol)
                got = datasets.load_scene()
                ctx.did()
                ctx.check(set(got) == set(stored) and all(np.array_equal(got[k], stored[k]) for k in stored), "the data differ from what is stored")
        with ctx.case(lambda: dict(what="python 2")):
            with open(os.path.join(d, "scene.pickle"), "wb") as f:
                f.write(b"(dp0\nS'X'\np1\nS'\\xe9'\np2\ns.")
            got = datasets.load_scene()
            ctx.did()
            ctx.check(got == {"X": u"\xe9"}, "a pickle of Python 2", got=got)
    finally:
        D.__file__ = old
        shutil.rmtree(d)
    with ctx.case(lambda: dict(what="snakes")):
        got = datasets.load_snakes()
        ctx.did()
        ctx.check(len(got["X_train"]) == len(got["Y_train"]) == 200 and len(got["X_test"]) == len(got["Y_test"]) == 100, "number of instances")
        for part in ("train", "test"):
            for x, y in zip(got["X_" + part], got["Y_" + part]):
                ctx.check(x.ndim == 3 and x.shape[:2] == y.shape and x.shape[2] == 3 and y.max() <= 10, "an instance")
                # a snake: the labels 1..10 once each, neighbours in the snake are neighbours in the grid
                at = [np.argwhere(y == v) for v in range(1, 11)]
                ctx.check(all(len(a) == 1 for a in at), "labels of a snake", y=y)
                ctx.check(all(np.abs(a - b).sum() == 1 for a, b in zip(at, at[1:])), "a snake is broken", y=y)
        ctx.outcome("snakes")


def shards(tier):
    Th = tier == "thorough"
    return [("run", (Th, p, 16)) for p in range(16)] + [("loaders", ())]
