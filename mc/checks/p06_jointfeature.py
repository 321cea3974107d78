"""Joint feature vectors are exactly the documented ones, on every labelling."""
import numpy as np

from .. import large
from .. import zoo
from .p04_prediction import entries

PROPERTY = "P06"
LEVEL = "model_checking"
RULE = ("one state per (model configuration, instance, labelling): the real joint feature vector is "
        "compared entry by entry with the documented definition; plus random access variants "
        "(integer features, column labels, non-contiguous arrays)")
BOUNDS = ("every labelling of every instance of the P04 model configurations, plus larger shapes "
          "(up to 7 nodes, grids up to 3x4, 4 states; up to 20 states on small ones; forests of up to 300 nodes; up to 300 states) on a fixed covering set of labellings, 9 array forms, 5 label types")
ASSUMPTIONS = []


def forms(x):
    yield "plain", x
    if isinstance(x, tuple) and isinstance(x[0], list):
        return
    if isinstance(x, tuple):
        f = x[0]
        big = np.zeros((2 * f.shape[0], 2 * f.shape[1]))
        big[::2, 1::2] = f
        yield "strided features", (big[::2, 1::2],) + x[1:]
        yield "fortran features", (np.asfortranarray(f),) + x[1:]
        yield "int features", (f.astype(int),) + x[1:]
        if np.array_equal(f.astype(np.int8), f):
            yield "int8 features", (f.astype(np.int8),) + x[1:]
        # measurements as small unsigned integers: sums do not fit into their type
        yield "uint8 features", ((f.astype(int) * 37 % 256).astype(np.uint8),) + x[1:]
        if len(x) > 2 and isinstance(x[2], np.ndarray) and x[2].ndim == 2:
            yield "int edge features", (f, x[1], x[2].astype(int)) + x[3:]
            yield "float32 edge features", (f, x[1], x[2].astype(np.float32)) + x[3:]
            yield "uint8 edge features", (f, x[1], (x[2].astype(int) * 37 % 256).astype(np.uint8)) + x[3:]
        yield "float32 features", (f.astype(np.float32),) + x[1:]
        yield "int32 edges", (f, x[1].astype(np.int32)) + x[2:]
    elif isinstance(x, np.ndarray):
        yield "fortran", np.asfortranarray(x)
        yield "int", x.astype(int)
        if np.array_equal(x.astype(np.int8), x):
            yield "int8", x.astype(np.int8)
        yield "float32", x.astype(np.float32)
        yield "uint8", (x.astype(int) * 37 % 256).astype(np.uint8)
        big = np.zeros(tuple(2 * s for s in x.shape))
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        yield "strided", big[tuple(slice(None, None, 2) for _ in x.shape)]


def wide(x):
    """the same measurements as floats"""
    return tuple(wide(v) if isinstance(v, np.ndarray) and v.dtype == np.uint8 else v for v in x) \
        if isinstance(x, tuple) else x.astype(float)


DTYPES = ("uint8", "int8", "int16", "int32", "uint16")


def check_one(ctx, e, model, x, y, form, xx, ref):
    with ctx.case(lambda: dict(model=e.name, x=x, y=y, form=form)):
        if getattr(e, "rescale_C", False):
            for yt in range(e.S):
                got = model.joint_feature(xx, y, yt)
                ctx.did()
                ctx.check(np.allclose(got, e.psi(wide(xx), y, yt), atol=1e-9), "wrong joint feature",
                          got=got, expected=e.psi(wide(xx), y, yt))
            return
        got = np.asarray(model.joint_feature(xx, y))
        ctx.did()
        ctx.check(got.shape == (e.d,), "joint feature has shape %r, documented size %d"
                  % (got.shape, e.d))
        ctx.outcome(tuple(ref))
        ctx.check(np.allclose(got, ref, atol=1e-9), "joint feature differs from its definition",
                  got=got, expected=ref)


def run(ctx, group, ei):
    e = entries(group)[ei]
    model = e.make()
    ctx.check(model.size_joint_feature == e.d, "size of the joint feature vector is %r, not %r"
              % (model.size_joint_feature, e.d))
    for xi, x in enumerate(e.xs):
        ys, Psi = e.table(xi)
        for form, xx in forms(x):
            for i, y in enumerate(ys):
                if form != "plain" and i % 3:
                    continue
                check_one(ctx, e, model, x, y, form, xx, Psi[i] if "uint8" not in form else e.psi(wide(xx), y))
        for i, y in enumerate(ys):
            if isinstance(y, np.ndarray) and y.ndim:
                dt = DTYPES[i % len(DTYPES)]
                check_one(ctx, e, model, x, y.astype(dt), "labels of type " + dt, x, Psi[i])


def big_entries():
    G7 = [(5, [(0, 4), (4, 2), (2, 1), (1, 3)]), (6, [(5, 0), (0, 1), (1, 2), (3, 4), (4, 5), (5, 3)]),
          (7, [(i, (i + 1) % 7) for i in range(7)])]
    out = [zoo.graph_entries(4, 3, "max-product", d, None, graphs=G7) for d in (True, False)]
    out += [zoo.chain_entry(5, 2, d, None, lens=(5, 6)) for d in (True, False)]
    for nb in (4, 8):
        for dire in (False, True):
            out.append(zoo.grid_entry(3, 2, "max-product", nb, [(3, 3), (2, 4), (3, 4), (1, 5)],
                                      directional=dire))
    out.append(zoo.edgefeat_entry(3, 2, 4, "max-product", None, sym=[0, 3], anti=[1], graphs=G7))
    # many states: a pair of states does not fit into small integers
    G3 = [(3, [(0, 1), (2, 1)])]
    out += [zoo.graph_entries(20, 2, "max-product", d, None, graphs=G3) for d in (True, False)]
    out.append(zoo.edgefeat_entry(20, 2, 2, "max-product", None, graphs=G3))
    out.append(zoo.grid_entry(19, 1, "max-product", 4, [(2, 2)], directional=True))
    out.append(zoo.multilabel_entry(6, 3, [(0, 5), (2, 1), (3, 4), (5, 1)], "max-product"))
    out.append(zoo.multiclass_entry(9, 3))
    out.append(zoo.latentgraph_entry((2, 3, 1), 2, "max-product",
                                     graphs=[(3, [(0, 1), (2, 1)]), (3, [(0, 1), (1, 2), (0, 2)])]))
    return out


def big(ctx, ei):
    e = big_entries()[ei]
    model = e.make()
    for xi, x in enumerate(e.xs):
        n = e.nodes(x) if hasattr(e, "nodes") else 1
        if hasattr(e, "scalar"):
            ys = e.labels(x)
        else:
            shape = x.shape[:2] if getattr(e, "grid", False) else (n,)
            # every pair of states on every pair of nodes occurs in a small covering family
            ys = []
            for a in range(e.S):
                for b in range(e.S):
                    for i in range(n):
                        y = np.full(n, a)
                        y[i] = b
                        ys.append(y.reshape(shape))
            for s in range(6):
                ys.append(np.random.RandomState(s).randint(0, e.S, size=n).reshape(shape))
        for k, y in enumerate(ys):
            check_one(ctx, e, model, x, y, "plain", x, e.psi(x, y))
            if isinstance(y, np.ndarray) and y.ndim:
                dt = DTYPES[k % len(DTYPES)]
                check_one(ctx, e, model, x, y.astype(dt), "labels of type " + dt, x, e.psi(x, y))


def huge(ctx, ei):
    e, pot = large.entries(ei)
    model = e.make()
    for x in e.xs:
        for k, y in enumerate(large.labelings(e, x, many=True)):
            check_one(ctx, e, model, x, y, "plain", x, e.psi(x, y))
            if e.S < 120:
                dt = DTYPES[k % len(DTYPES)]
                check_one(ctx, e, model, x, y.astype(dt), "labels of type " + dt, x, e.psi(x, y))


def shards(tier):
    out = [("run", (g, ei)) for g in ("base", "loopy", "typed", "latent")
           for ei in range(len(entries(g)))]
    return out + [("big", (ei,)) for ei in range(len(big_entries()))] + \
        [("huge", (ei,)) for ei in range(large.count())]
