"""Max-product on graphs with cycles: optimal where theory says so, and free of artefacts everywhere."""
import itertools

import numpy as np

from .. import graphs as G
from .. import refs as R

PROPERTY = "P34"
LEVEL = "model_checking"
RULE = ("one state per (graph with cycles, orientation, edge order, state count, potentials, parameters, "
        "transformation); labels of the real inference_max_product / inference_dispatch compared with the "
        "brute-force maximiser (one cycle, cycles closed by constant edges, separate components), the unary "
        "maximiser (dominating unaries, no iterations) or the labels of the untransformed problem")
BOUNDS = ("all simple graphs with a cycle on 3 and 4 nodes with up to 4 states, all orientations (5 and 6 edges: 8), 3 edge "
          "orders, cycles of 5..7 nodes with pendant trees, double edges; complete graphs of 5..24 (thorough 60) "
          "nodes in 5 orientations; circulant and grid graphs; 4 (thorough 9) generic potentials each, 6 damping values, "
          "max_iter 0..1000, 4 tolerances")
ASSUMPTIONS = ["generic potentials: beliefs of the compared runs have no ties",
               "a single cycle is only judged where an independent parallel message passing converges without ties"]


def mp(u, p, e, **kw):
    from pystruct.inference import inference_dispatch
    return inference_dispatch(u, p, e, "max-product", **kw)


def n_components(n, es):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            a = p[a]
        return a
    for a, b in es:
        p[find(a)] = find(b)
    return len({find(a) for a in range(n)})


def cyclic(n):
    return [es for es in G.simple_graphs(n) if not G.is_forest_ref(n, es)]


def single_cycle(n, es):
    """every component has at most one cycle"""
    for comp in components(n, es):
        if sum(1 for a, b in es if a in comp) > len(comp):
            return False
    return True


def components(n, es):
    seen, out = set(), []
    for s in range(n):
        if s in seen:
            continue
        comp, todo = {s}, [s]
        while todo:
            q = todo.pop()
            for a, b in es:
                for x, y in ((a, b), (b, a)):
                    if x == q and y not in comp:
                        comp.add(y)
                        todo.append(y)
        seen |= comp
        out.append(comp)
    return out


def variants(es, full):
    orients = list(G.orientations(es))
    if len(es) > 4 and not full:
        orients = orients[::max(1, len(orients) // 8)]
    for o in orients:
        for order in G.some_orders(o):
            yield order


def potentials(n, ne, S, seed, strength=1.):
    v = G.generic(n * S + ne * S * S, seed, scale=2)
    return v[:n * S].reshape(n, S), v[n * S:].reshape(ne, S, S) * strength


def reference(u, p, es, iters=400, damping=.5):
    """Parallel damped message passing; (labels, converged, margin of the beliefs)."""
    n, S = u.shape
    m = np.zeros((len(es), 2, S))          # m[e, 0]: into es[e][1]; m[e, 1]: into es[e][0]
    for it in range(iters):
        inc = u.copy()
        for k, (a, b) in enumerate(es):
            inc[b] += m[k, 0]
            inc[a] += m[k, 1]
        new = np.empty_like(m)
        for k, (a, b) in enumerate(es):
            new[k, 0] = np.max((inc[a] - m[k, 1])[:, None] + p[k], axis=0)
            new[k, 1] = np.max((inc[b] - m[k, 0])[None, :] + p[k], axis=1)
        new -= new.max(axis=2, keepdims=True)
        d = np.abs(new - m).max() if len(es) else 0
        m = damping * m + (1 - damping) * new
        if d < 1e-11:
            break
    inc = u.copy()
    for k, (a, b) in enumerate(es):
        inc[b] += m[k, 0]
        inc[a] += m[k, 1]
    srt = np.sort(inc, axis=1)
    margin = (srt[:, -1] - srt[:, -2]).min() if S > 1 else 1.
    return np.argmax(inc, axis=1), d < 1e-11, margin


def best(u, p, es):
    sc = R.all_scores(u, p, es)
    s = np.sort(sc)
    return sc.argmax(), (s[-1] - s[-2] if len(s) > 1 else 1.)


def labels_of(index, n, S):
    return R.lab_array(n, S)[index]


def cycle(ctx, n, S, full):
    """components with one cycle: converged max-product is optimal"""
    graphs = [es for es in cyclic(n) if single_cycle(n, es)] if n < 5 else \
        [[(i, (i + 1) % n) for i in range(n)]] + \
        [[(i, (i + 1) % k) for i in range(k)] + [(i - k, i) for i in range(k, n)] for k in (3, 4) if n - k <= k]
    if n == 2:
        graphs = [[(0, 1), (0, 1)], [(0, 1), (0, 1), (0, 1)]][:1]
    for es in graphs:
        for order in variants(es, full):
            for seed in range(3 if full else 2):
                for strength in (.5, 1., 2., 40.) if full else (.5, 2., 40.):
                    u, p = potentials(n, len(es), S, seed, strength)
                    e = G.earr(order)
                    with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e)):
                        i, gap = best(u, p, order)
                        y, conv, margin = reference(u, p, order)
                        if not conv or margin < 1e-3 or gap < 1e-3:
                            ctx.outcome("not converged or ambiguous")
                            continue
                        want = labels_of(i, n, S)
                        assert np.array_equal(y, want)
                        for kw in (dict(max_iter=300), dict(max_iter=300, damping=.25), dict(max_iter=300, damping=.75))[:3 if full else 2]:
                            got = mp(u, p, e, **kw)
                            ctx.did()
                            ctx.check(np.array_equal(got, want), "one cycle, converged, no ties: %r instead of the "
                                      "best labels %r" % (list(got), list(want)), parameters=kw)
                        ctx.outcome(tuple(want))


def closed(ctx, n, S, full):
    """forests whose cycles are closed by constant edges: the answer of the forest"""
    for forest in G.forests(n):
        rest = [q for q in G.all_pairs(n) if q not in forest]
        for k in range(1, len(rest) + 1):
            for extra in itertools.combinations(rest, k):
                es = sorted(list(forest) + list(extra))
                if G.is_forest_ref(n, es):
                    continue
                if n == 5 and (hash_(es) % (1 if full else 16)):
                    continue
                for oi, order in enumerate(variants(es, False)):
                    if n > 3 and oi % 6 != len(es) % 6:
                        continue
                    u, p = potentials(n, len(es), S, oi % 3)
                    const = G.generic(len(es), oi, scale=4)
                    for q, (a, b) in enumerate(order):
                        if (min(a, b), max(a, b)) in extra:
                            p[q] = const[q]
                    e = G.earr(order)
                    with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, constant=extra)):
                        i, gap = best(u, p, order)
                        if gap < 1e-3:
                            continue
                        want = labels_of(i, n, S)
                        got = mp(u, p, e)
                        ctx.did()
                        ctx.check(np.array_equal(got, want), "a forest and constant edges: %r instead of the best labels %r"
                                  % (list(got), list(want)))
                        ctx.outcome(tuple(want))


def spread(ctx, n, S, graphs_, full):
    """one informed node, neighbours prefer equal labels: the information reaches every node, against any direction and listing of the edges"""
    for gi, es in enumerate(graphs_):
        if len(components(n, es)) > 1:
            continue
        for oi, order in enumerate(variants(es, full)):
            e = G.earr(order)
            for src in range(n):
                k = 1 + (src + oi) % (S - 1)
                u = np.zeros((n, S))
                u[src, k] = (1., 5., 30.)[(gi + oi + src) % 3]
                for c in ((.5, 4.) if n < 5 else ((.5, 4., 25.)[(gi + oi + src) % 3],)):
                    p = np.repeat((c * np.eye(S))[np.newaxis], len(es), axis=0)
                    for kw in (dict(), dict(max_iter=200, tol=1e-9), dict(damping=.25)):
                        with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, parameters=kw)):
                            got = mp(u, p, e, **kw)
                            ctx.did()
                            ctx.check(np.all(got == k), "node %d prefers label %d, neighbours prefer equal labels, but the labels are %r" % (src, k, list(got)))
                            ctx.outcome((src, k))


def tails(n):
    """a cycle at the start, in the middle or at the end of a path"""
    path = [(i, i + 1) for i in range(n - 1)]
    out = [path + [(0, 2)], path + [(n - 3, n - 1)], path + [(n // 2 - 1, n // 2 + 1)], path + [(0, n - 1)], path + [(0, 3)] if n > 3 else path + [(0, 2)]]
    for es in out:
        for flip in (0, 1):
            for o in (es, es[::-1]):
                yield [(b, a) for a, b in o] if flip else list(o)


def spread_tails(ctx, n, S):
    for es in tails(n):
        e = G.earr(es)
        for src in range(n):
            for c in (.5, 4.):
                k = 1 + src % (S - 1)
                u = np.zeros((n, S))
                u[src, k] = 5.
                p = np.repeat((c * np.eye(S))[np.newaxis], len(es), axis=0)
                for kw in (dict(max_iter=30), dict(max_iter=300)):
                    with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, parameters=kw)):
                        got = mp(u, p, e, **kw)
                        ctx.did()
                        ctx.check(np.all(got == k), "node %d prefers label %d, neighbours prefer equal labels, but the labels are %r" % (src, k, list(got)))
                        ctx.outcome((src, k))


def hash_(es):
    return sum((i + 1) * (7 * a + b) for i, (a, b) in enumerate(es))


def circulant(n):
    return [(i, (i + k) % n) for i in range(n) for k in range(1, (n - 1) // 2 + 1)]


def dense(n):
    """complete graphs in several orientations and other large graphs"""
    c = list(itertools.combinations(range(n), 2))
    out = [c, c[::-1], [(b, a) for a, b in c], [(b, a) for a, b in c][::-1],
           [(a, b) if (a + b) % 2 else (b, a) for a, b in c]]
    if n % 2:
        out += [circulant(n), circulant(n)[::-1]]
    return out


def grid(w, h):
    es = [(i * w + j, i * w + j + 1) for i in range(h) for j in range(w - 1)]
    return es + [(i * w + j, i * w + w + j) for i in range(h - 1) for j in range(w)]


def graphs(n, group):
    if group == "small":
        for es in cyclic(n):
            for order in variants(es, False):
                yield n, order
    elif group == "grid":
        for w, h in ((2, 2), (3, 2), (3, 3), (5, 4), (8, 8)):
            es = grid(w, h)
            yield w * h, es
            yield w * h, es[::-1]
            yield w * h, [(b, a) for a, b in es]
            yield w * h, [(b, a) if (a + b) % 2 else (a, b) for a, b in es][::-1]
    else:
        for es in dense(n):
            yield n, es


def transform(ctx, n, group, S, seeds):
    """constants, names of states and nodes, powers of two do not matter"""
    for gi, (n, es) in enumerate(graphs(n, group)):
        ne = len(es)
        e = G.earr(es)
        for seed in range(seeds):
            u, p = potentials(n, ne, S, gi % 5 + 10 * seed, .25 if n > 8 else 1.)
            base = mp(u, p, e)
            with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e, what="valid")):
                ctx.check(R.valid_labels(base, n, S), "invalid labels", got=base)
                ctx.did()

            def compare(what, u2, p2, e2, back, **kw):
                with ctx.case(lambda: dict(unary=u2, pairwise=p2, edges=e2, what=what)):
                    got = back(mp(u2, p2, e2, **kw))
                    ctx.did()
                    ctx.check(np.array_equal(got, base), "labels changed with %s" % what,
                              changed=int((got != base).sum()))
                    ctx.outcome((what, tuple(base[:6])))
            same = lambda y: y                                                     # noqa
            c = G.generic(max(n, ne), seed, scale=4)
            compare("constants added to pairwise potentials", u, p + c[:ne, None, None], e, same)
            compare("a constant added to all potentials", u + 2, p + 2, e, same)
            compare("a constant subtracted from all potentials", u - 3, p - 3, e, same)
            compare("constants added to unary potentials", u + c[:n, None], p, e, same)
            perm = np.array([np.roll(np.arange(S), i % S) for i in range(n)])      # new name -> old name
            compare("renamed states", u[np.arange(n)[:, None], perm],
                    np.array([p[k][perm[a]][:, perm[b]] for k, (a, b) in enumerate(es)]), e,
                    lambda y: perm[np.arange(n), y])
            names = np.roll(np.arange(n), 1)[::-1]                                 # old node -> new node
            u2 = np.empty_like(u)
            u2[names] = u
            compare("renamed nodes", u2, p, names[e], lambda y: y[names])
            for f in (.5, 4.):
                compare("scaled potentials", u * f, p * f, e, same, tol=1e-5 * f)


def dominated(ctx, n, group, S):
    """each unary margin exceeds all influence of the edges: every method of passing messages keeps the unary maximiser"""
    for gi, (n, es) in enumerate(graphs(n, group)):
        ne = len(es)
        e = G.earr(es)
        u, p = potentials(n, ne, S, gi % 7)
        for shift in (0., 1., -5.):
            p2 = p + shift
            rng = np.zeros(n)
            for k, (a, b) in enumerate(es):
                r = p2[k].max() - p2[k].min()
                rng[a] += r
                rng[b] += r
            want = np.argmax(u, axis=1)
            u2 = u.copy()
            u2[np.arange(n), want] += rng + .25
            for kw in (dict(), dict(damping=0.), dict(max_iter=5), dict(max_iter=60, damping=.9)):
                with ctx.case(lambda: dict(unary=u2, pairwise=p2, edges=e, parameters=kw)):
                    got = mp(u2, p2, e, **kw)
                    ctx.did()
                    ctx.check(np.array_equal(got, want), "the unary potentials dominate, but %d labels are others"
                              % (got != want).sum())
                    ctx.outcome(gi % 97)


def parameters(ctx, n, S, seeds):
    """no iterations: unary maximiser; a huge tolerance stops after one; a tolerance of zero never stops early"""
    for gi, (n, es) in enumerate(graphs(n, "small")):
        e = G.earr(es)
        for seed in range(seeds):
            u, p = potentials(n, len(es), S, seed + gi % 3, 2.)
            with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e)):
                ctx.check(np.array_equal(mp(u, p, e, max_iter=0), u.argmax(axis=1)), "max_iter=0: not the unary maximiser")
                one = mp(u, p, e, max_iter=1)
                ctx.check(np.array_equal(one, mp(u, p, e, max_iter=30, tol=1e9)),
                          "a huge tolerance does not stop after the first iteration")
                ctx.check(np.array_equal(mp(u, p, e, max_iter=40, tol=1e-12), mp(u, p, e, max_iter=40, tol=0)),
                          "a tiny tolerance changes the labels")
                ctx.check(np.array_equal(mp(u, p, e), mp(u, p, e, max_iter=30, damping=.5, tol=1e-5)),
                          "the defaults are not the documented ones")
                ctx.check(np.array_equal(mp(u, p, e, damping=1.), u.argmax(axis=1)), "messages changed although fully damped")
                ctx.did(8)
                ctx.outcome(tuple(one))


def union(ctx, S):
    """separate components: a tree next to a loopy part gets its exact labels; copies get equal labels"""
    for loop in ([(0, 1), (1, 2), (2, 0)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]):
        k = max(max(q) for q in loop) + 1
        for n in (1, 2, 3, 4):
            for tree in G.forests(n):
                for oi, order in enumerate(G.some_orders(tree)):
                    for first in (True, False):
                        u1, p1 = potentials(k, len(loop), S, 5 + oi)
                        u2, p2 = potentials(n, len(tree), S, 7 + oi)
                        e1, e2 = G.earr(loop), G.earr(order)
                        if first:
                            u, p = np.vstack([u1, u2]), np.concatenate([p1, p2])
                            e = np.vstack([e1, e2 + k])
                        else:
                            u, p = np.vstack([u2, u1]), np.concatenate([p2, p1])
                            e = np.vstack([e2, e1 + n])
                        with ctx.case(lambda: dict(unary=u, pairwise=p, edges=e)):
                            i, gap = best(u2, p2, order)
                            if gap < 1e-3:
                                continue
                            got = mp(u, p, e)
                            ctx.did()
                            part = got[k:] if first else got[:n]
                            ctx.check(np.array_equal(part, labels_of(i, n, S)), "the tree next to a loopy part is not "
                                      "labelled optimally", got=part)
                            ctx.outcome(tuple(part))


def shards(tier):
    full = tier != "quick"
    out = [("cycle", (n, S, full)) for n in (2, 3, 4, 5, 6) for S in (2, 3) if S ** n < 800]
    out += [("cycle", (7, 2, full)), ("cycle", (3, 4, full))]
    out += [("closed", (n, S, full)) for n in (3, 4) for S in (1, 2, 3)] + [("closed", (5, 2, full))]
    seeds = 2 if full else 1
    for f, more in (("transform", (seeds,)), ("dominated", ())):
        out += [(f, (n, "small", S) + more) for n in (3, 4) for S in (2, 3)]
        out += [(f, (0, "grid", 3) + more)]
        out += [(f, (n, "dense", S) + more) for n in ((5, 7, 9, 11, 12, 15, 17, 24) if not full else
                                                      (5, 7, 9, 11, 12, 15, 17, 24, 25, 31, 40, 61)) for S in (2, 3)]
    out += [("parameters", (n, S, seeds)) for n in (3, 4) for S in (2, 3)]
    out += [("union", (S,)) for S in (2, 3)]
    out += [("spread", (n, S, [es for es in cyclic(n)], full)) for n in (3, 4) for S in (2, 3)]
    five = cyclic(5)
    out += [("spread", (5, 2, five[i::40 if not full else 8], False)) for i in range(4)]
    out += [("spread_tails", (n, S)) for n in (5, 6, 8, 10, 12) for S in (2, 3)]
    return out
