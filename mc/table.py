"""Tabular structured models: every label of every instance is listed with its features and losses.

A problem is given by delta[i][k] (d-vector): features of the true label minus features of wrong label
k of sample i, and the losses of the wrong labels.  The learner sees it through the documented interface
for user-defined models (subclasses of pystruct.models.StructuredModel)."""
import itertools
import numpy as np


def make_model(Phi, Loss, weight=None):
    """Phi: list of (K, d) arrays, Loss: (K, K) or list of them; x = array([index]), y = array([label])."""
    from pystruct.models.base import StructuredModel

    class TableModel(StructuredModel):
        def __init__(self):
            self.Phi = [np.asarray(p, float) for p in Phi]
            self.Loss = np.asarray(Loss, float)
            self.size_joint_feature = self.Phi[0].shape[1]
            self.n_states = self.Phi[0].shape[0]
            self.inference_calls = 0
            self.inference_method = "table"

        def __reduce__(self):
            return _rebuild, (self.Phi, self.Loss, dict(self.__dict__))

        def initialize(self, X, Y):
            pass

        def joint_feature(self, x, y):
            return self.Phi[int(x[0])][int(y[0])].copy()

        def loss(self, y, y_hat):
            return self.Loss[int(y[0]), int(y_hat[0])]

        def max_loss(self, y):
            return self.Loss[int(y[0])].max()

        def inference(self, x, w, relaxed=None, constraints=None):
            self.inference_calls += 1
            return np.array([int(np.argmax(self.Phi[int(x[0])].dot(w)))])

        def loss_augmented_inference(self, x, y, w, relaxed=None):
            self.inference_calls += 1
            return np.array([int(np.argmax(self.Phi[int(x[0])].dot(w) + self.Loss[int(y[0])]))])
    m = TableModel()
    return m


def _rebuild(Phi, Loss, state):
    m = make_model(Phi, Loss)
    m.__dict__.update(state)
    return m


class Problem(object):
    """delta: (n, K-1, d); loss: K-1 losses of the wrong labels (or (n, K-1))."""
    def __init__(self, delta, loss, base=True):
        self.delta = np.asarray(delta, float)
        self.n, k, self.d = self.delta.shape
        self.K = k + 1
        self.loss = np.broadcast_to(np.asarray(loss, float), (self.n, k))
        # sample i: true label i % K; its features are arbitrary
        self.Phi, self.Y = [], []
        L = np.zeros((self.K, self.K))
        for i in range(self.n):
            t = i % self.K
            c = (np.arange(self.d) * 2 - 1) * (i + 1.) if base else np.zeros(self.d)
            wrong = [j for j in range(self.K) if j != t]
            phi = np.zeros((self.K, self.d))
            phi[t] = c
            for q, j in enumerate(wrong):
                phi[j] = c - self.delta[i, q]
                L[t, j] = self.loss[i, q]
            self.Phi.append(phi)
            self.Y.append(np.array([t]))
        for a in range(self.K):      # unused rows: anything non-negative
            for b in range(self.K):
                if a != b and L[a, b] == 0:
                    L[a, b] = 0 if a < min(self.K, self.n) else 1
        self.L = L
        self.X = [np.array([i]) for i in range(self.n)]
        # the losses actually used (samples with equal true labels share a row)
        self.used = np.array([[L[i % self.K, j] for j in range(self.K) if j != i % self.K]
                              for i in range(self.n)])

    def model(self):
        return make_model(self.Phi, self.L)

    def margins(self):
        return self.delta.reshape(-1, self.d), self.used.ravel()

    def hinge(self, w):
        """per-sample slack"""
        return np.maximum(0, (self.used - self.delta.dot(w)).max(axis=1))

    def objective(self, w, C):
        return .5 * np.dot(w, w) + C * self.hinge(w).sum()

    def objective_mean(self, w, C):
        """one-slack variant: positive part of the sum of (unclipped) violations; equal here, because the
        true label itself is always a candidate"""
        return self.objective(w, C)

    def optimum(self, C, nonpos=()):
        return optimum(self.delta, self.used, C, nonpos)

    def desc(self):
        return dict(delta=self.delta, loss=self.used)


def optimum(delta, loss, C, nonpos=()):
    """(value, w) of  min |w|^2/2 + C sum_i max(0, max_k loss_ik - w.delta_ik);  independent primal QP."""
    import cvxopt
    from cvxopt import solvers
    n, k, d = delta.shape
    P = np.zeros((d + n, d + n))
    P[:d, :d] = np.eye(d)
    P[d:, d:] += 1e-12 * np.eye(n)
    q = np.hstack([np.zeros(d), np.full(n, float(C))])
    rows, rhs = [], []
    for i in range(n):
        for j in range(k):
            r = np.zeros(d + n)
            r[:d] = -delta[i, j]
            r[d + i] = -1
            rows.append(r)
            rhs.append(-loss[i, j])
        r = np.zeros(d + n)
        r[d + i] = -1
        rows.append(r)
        rhs.append(0.)
    for t in nonpos:
        r = np.zeros(d + n)
        r[t] = 1
        rows.append(r)
        rhs.append(0.)
    opts = {"show_progress": False, "abstol": 1e-10, "reltol": 1e-10, "feastol": 1e-9, "maxiters": 200}
    s = solvers.qp(cvxopt.matrix(P), cvxopt.matrix(q), cvxopt.matrix(np.array(rows)),
                   cvxopt.matrix(np.array(rhs)), options=opts)
    w = np.ravel(s["x"])[:d]
    sl = np.maximum(0, (loss - delta.dot(w)).max(axis=1))
    return .5 * w.dot(w) + C * sl.sum(), w


def deltas(d, values=(-1, 0, 1)):
    return [np.array(v, float) for v in itertools.product(values, repeat=d)]


def problems(d, K, n, losses, values=(-1, 0, 1), unordered=True):
    """All problems with the given sizes and difference vectors."""
    per = list(itertools.product(deltas(d, values), repeat=K - 1))
    it = (itertools.combinations_with_replacement(per, n) if unordered else
          itertools.product(per, repeat=n))
    for sel in it:
        for l in losses:
            yield Problem(np.array([list(s) for s in sel]), l)
