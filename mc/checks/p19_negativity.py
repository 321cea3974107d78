"""Sign constraints on weights hold in every iteration and cost nothing where they are not active."""
import itertools

import numpy as np

from .. import table as T
from .p16_cuttingplane import NS, OS, learner, space

PROPERTY = "P19"
LEVEL = "model_checking"
RULE = ("one state per (training problem, set of constrained parameters, learner, options, iteration limit): the "
        "weights after every iteration of the real fit() have the required signs; the final "
        "objective is the optimum of an independent primal QP with sign constraints")
BOUNDS = ("all tabular problems with difference vectors from {-1,0,1}^d (d=1..2; 2..3 labels, 1..3 samples), every "
          "non-empty subset of constrained parameters, iteration limits 1, 2 and unlimited, pruning windows, cache")
ASSUMPTIONS = ["signs hold up to 1e-4 relative (accuracy of the quadratic programs)"]


def known_program(kind, lr, neg, C, n):
    """Solution of the program the learners are known to solve instead (known finding): the constraints are imposed
    on the dual without multipliers of their own."""
    import cvxopt
    from cvxopt import solvers
    if kind == "N":
        sets = [[(c[1], c[2]) for c in sample] for sample in lr.constraints_]
    else:
        sets = [[(c[0], c[1]) for c in lr.constraints_]]
    psi = np.array([c[0] for s in sets for c in s], float)
    loss = np.array([c[1] for s in sets for c in s], float)
    if not len(psi):
        return None
    m = len(psi)
    blocks = np.zeros((len(sets), m))
    at = 0
    for i, s in enumerate(sets):
        blocks[i, at:at + len(s)] = 1
        at += len(s)
    P = psi.dot(psi.T) + 1e-11 * np.eye(m)
    Gm, h = [-np.eye(m), psi.T[list(neg)]], [np.zeros(m), np.zeros(len(neg))]
    A = b = None
    if kind == "N":
        Gm.append(blocks)
        h.append(np.full(len(sets), float(C)))
    else:
        A, b = cvxopt.matrix(np.ones((1, m))), cvxopt.matrix([float(C * n)])
    o = {"show_progress": False, "abstol": 1e-10, "reltol": 1e-10, "feastol": 1e-9, "maxiters": 200}
    try:
        s = solvers.qp(cvxopt.matrix(P), cvxopt.matrix(-loss), cvxopt.matrix(np.vstack(Gm)),
                       cvxopt.matrix(np.hstack(h)), A, b, options=o)
    except (ValueError, ArithmeticError):
        return None
    return np.ravel(s["x"]).dot(psi)


def run(ctx, kind, name, oname, neg, limit, C, stride):
    opts = dict((NS if kind == "N" else OS)[oname], negativity_constraint=list(neg))
    for i, P in enumerate(space(name, False)):
        if i % stride:
            continue
        with ctx.case(lambda: dict(P.desc(), learner=kind, options=opts, C=C, max_iter=limit)):
            ws = []
            lr = learner(kind, P.model(), C, opts, tol=1e-7, max_iter=limit)
            lr.logger = lambda l, it: ws.append(np.array(l.w))
            lr.fit(P.X, P.Y)
            ctx.did()
            for w in ws + [np.asarray(lr.w)]:
                ctx.check(np.all(w[list(neg)] <= 1e-4 * (1 + C)), "constrained parameters are positive", w=w)
            w = np.asarray(lr.w)
            if limit > 100:
                opt, wo = P.optimum(C, neg)
                val = P.objective(w, C)
                if val > opt + 1e-3 * (1 + opt):
                    wk = known_program(kind, lr, neg, C, P.n)
                    known = wk is not None and np.allclose(w, wk, atol=1e-2 * (1 + np.abs(wk).max()))
                    ctx.check(False, "objective %r, the best weights with these signs have %r" % (val, opt),
                              key="restricted-dual" if known else None, w=w, best=wo, known_program=wk)
                free, wf = P.optimum(C)
                if np.all(wf[list(neg)] < -.05) or not np.any(P.delta[:, :, list(neg)]):
                    ctx.extra["inactive_sign_constraints"] = ctx.extra.get("inactive_sign_constraints", 0) + 1
            ctx.outcome(tuple(np.round(w, 2)))


def shards(tier):
    Th = tier == "thorough"
    out = []
    names = [("d2K2n1", 2), ("d2K2n2", 2), ("d1K2n3", 1), ("d1K3n2", 1), ("d2K3n1", 2)]
    if Th:
        names += [("d2K2n3", 2), ("d3K2n2", 3)]
    for kind in "NO":
        for name, d in names:
            for k in range(1, d + 1):
                for neg in itertools.combinations(range(d), k):
                    for limit in (1, 2, 1000):
                        for C in (.1, 1., 10.) if Th else (1.,):
                            out.append(("run", (kind, name, "default", neg, limit, C,
                                                1 if Th or limit > 2 else 3)))
        for oname in (("batch1", "window1", "nocheck") if kind == "N" else ("window1", "check", "cache3")):
            for name, neg in (("d2K2n2", (0,)), ("d2K2n2", (0, 1)), ("d1K2n3", (0,)), ("d1K3n2", (0,))):
                out.append(("run", (kind, name, oname, neg, 1000, 1., 1 if Th else 2)))
    return out
