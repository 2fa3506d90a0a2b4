"""What NOTEARS and DYNOTEARS hand to the optimiser: the documented score, its exact gradient, and a penalty that is positive exactly on cyclic weights."""
from checks import env, npx
from checks import nt_common as nt
from symx import core

import numpy as np

STATIC = ("from_numpy", "from_pandas", "from_numpy_lasso", "from_pandas_lasso")


def _slots(fn, d, p):
    if fn in STATIC:
        return [(0, i, j) for i in range(d) for j in range(d) if i != j]
    return [(k, i, j) for k in range(p + 1) for i in range(d) for j in range(d) if k or i != j]


class Problem:
    """A learning problem whose weights are free only at the given (lag, from, to) slots."""

    def __init__(self, c, fn, d, p, n, free, lam):
        import pandas as pd

        self.N, self.D = nt.modules()
        self.fn, self.d, self.p = fn, d, p
        names = ["c", "a", "b"][:d] if "pandas" in fn else list(range(d))
        self.names = names
        banned = [s for s in _slots(fn, d, p) if s not in free]
        self.l0 = self.l1 = 0
        real = lambda s: c.real(s, nonneg=True, default=0.125) if lam else 0.0
        if fn in STATIC:
            X = nt.matrix(c, n, d)
            self.X, self.XL = X, None
            data = X if "numpy" in fn else pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(names)})
            kw = {"tabu_edges": [(names[i], names[j]) for _, i, j in banned]}
            if fn.endswith("lasso"):
                self.l0 = real("beta")
                kw["beta"] = self.l0
            self.call = lambda **k: getattr(self.N, fn)(data, **kw, **k)
        else:
            self.l0, self.l1 = real("lambda_w"), real("lambda_a")
            kw = {"tabu_edges": [(k, names[i], names[j]) for k, i, j in banned]}
            if fn == "from_numpy_dynamic":
                self.X, self.XL = nt.matrix(c, n, d, "x"), nt.matrix(c, n, d * p, "l")
                self.call = lambda **k: self.D.from_numpy_dynamic(self.X, self.XL, self.l0, self.l1, **kw, **k)
            else:
                series = nt.matrix(c, n + p, d, "s")
                self.X = series[p:]
                self.XL = np.hstack([series[p - k:n + p - k] for k in range(1, p + 1)])
                df = pd.DataFrame({m: list(series[:, j]) for j, m in enumerate(names)}, index=list(range(4, 4 + n + p)))
                self.call = lambda **k: self.D.from_pandas_dynamic(df, p, self.l0, self.l1, **kw, **k)

    def weights(self, sm):
        d = self.d
        W = [[0] * d for _ in range(d)]
        A = [[0] * d for _ in range(d * self.p)]
        for u, v, w in sm.edges(data="weight"):
            if self.fn in STATIC:
                W[self.names.index(u)][self.names.index(v)] = w
            else:
                (nu, ku), (nv, _) = (str(t).rsplit("_lag", 1) for t in (u, v))
                i, j = ([str(m) for m in self.names].index(t) for t in (nu, nv))
                if int(ku):
                    A[(int(ku) - 1) * d + i][j] = w
                else:
                    W[i][j] = w
        return W, A

    def loss(self, W, A):
        return nt.loss(self.X, W, self.XL, A if self.XL is not None else None)


def score(c, fn, d, n, p=0, free=(), lam=False, penalty=False):
    """The objective at the returned point is the documented score of the returned graph (plus the penalty)."""
    P = Problem(c, fn, d, p, n, list(free), lam)
    got = {}

    def on_call(f, g, x, fr, k):
        got["f"] = f(x)
        got["l1"] = sum(x[i] for i in fr)
        # without this an infeasible zero would be compared
        c.check("optimised", len(fr) > 0, "no weight is free")

    with nt.Run(c, "series", calls=1, on_call=on_call):
        sm = P.call(max_iter=1)
    W, A = P.weights(sm)
    want = P.loss(W, A)
    if lam:
        want = want + (P.l1 if free[0][0] else P.l0) * got["l1"]
    if penalty:
        gap = got["f"] - want
        prod = W[0][1] * W[1][0]
        if core.is_sym(prod):
            cyc = core.Or(prod < 0, prod > 0)
            c.check("penalty", core.Or(core.And(cyc, gap > 0), core.And(core.Not(cyc), gap >= 0, gap <= 0)), "the penalty is not positive exactly on cyclic weights")
        else:
            c.check("penalty", gap > 0 if abs(prod) > 1e-4 else abs(gap) < 1e-6, "the penalty is %r for a cycle product %r" % (gap, prod))
    else:
        c.check_eq("score", got["f"], want, "objective at the learned weights")


def gradient(c, fn, d, n, p=0, free=(), lam=True, calls=1):
    """The gradient handed over is the derivative of the objective handed over, at every feasible point."""
    P = Problem(c, fn, d, p, n, list(free), lam)
    seen = []

    def on_call(f, g, x, fr, k):
        if g is None:
            return
        seen.append(k)
        start = len(run.exps)
        grad = np.asarray(g(x)).ravel()
        c.check("gradient-shape", grad.size == len(x), "gradient of size %d for %d weights" % (grad.size, len(x)))
        if npx.symbolic():
            val = f(x)
            for i in fr:
                c.check_eq("gradient", grad[i], nt.derivative(val, x[i], run.exps), "component %d" % i)
        else:
            for i in fr:
                up, dn = np.array(x), np.array(x)
                h = 1e-5 * max(1.0, abs(x[i]))
                up[i] += h
                dn[i] -= h
                a, b = f(up), f(dn)
                num = (a - b) / (2 * h)
                if np.isfinite(num) and abs(a) < 1e9:
                    c.check("gradient", abs(num - grad[i]) <= 1e-3 * max(1.0, abs(num), abs(grad[i])), "component %d: gradient %r, numeric derivative %r" % (i, grad[i], num))

        if k == calls - 1:
            raise Done()  # what follows does not concern the gradient

    with nt.Run(c, "formal", calls=calls, on_call=on_call) as run:
        try:
            P.call(max_iter=calls)
        except Done:
            pass
    c.check("gradient-seen", True)


class Done(BaseException):
    pass


LABELS = ["score", "gradient", "penalty"]
ASSUMPTIONS = ["d trace(expm(M)) = trace(expm(M) dM): the calculus of the matrix exponential is taken from mathematics; its entries are otherwise arbitrary",
               "for the score the exponential's power series is cut after as many powers as there are variables (exact for acyclic weights, positive exactly when the full series is)",
               "scipy, pandas are replaced by models (checks/npx.py, stubs/pandas)"]
BOUNDS = {"quick": "gradient: 2 variables, 2 rows (lags 1-2), all weights free, first and second optimiser call; 3 variables with up to 4 free weights. Score: 2-3 variables, 1-2 rows, up to 3 free weights, every single slot under regularisation; penalty: 2 variables",
          "thorough": "gradient: 3 variables with all weights free; score: 3 variables with all acyclic weights free"}


def cases(tier):
    out = []
    tri = [(0, 0, 1), (0, 0, 2), (0, 1, 2)]
    for fn in STATIC:
        all2 = _slots(fn, 2, 0)
        out.append(("%s-gradient2" % fn, gradient, dict(fn=fn, d=2, n=2, free=all2), 3))
        out.append(("%s-gradient2b" % fn, gradient, dict(fn=fn, d=2, n=1, free=all2, calls=2), 5))
        out.append(("%s-gradient3" % fn, gradient, dict(fn=fn, d=3, n=2, free=[(0, 0, 1), (0, 1, 2), (0, 2, 0), (0, 1, 0)]), 5))
        out.append(("%s-score" % fn, score, dict(fn=fn, d=3, n=2, free=tri[:2]), 5))
        out.append(("%s-score-b" % fn, score, dict(fn=fn, d=3, n=2, free=[(0, 2, 1), (0, 1, 0)]), 5))
        out.append(("%s-penalty" % fn, score, dict(fn=fn, d=2, n=1, free=all2, penalty=True), 5))
        for s in all2 if fn.endswith("lasso") else []:
            out.append(("%s-lasso-%d%d" % (fn, s[1], s[2]), score, dict(fn=fn, d=2, n=2, free=[s], lam=True), 2))
        if tier == "thorough":
            out.append(("%s-gradient3full" % fn, gradient, dict(fn=fn, d=3, n=2, free=_slots(fn, 3, 0)), 30))
            out.append(("%s-score3full" % fn, score, dict(fn=fn, d=3, n=2, free=tri), 30))
    for fn in ("from_numpy_dynamic", "from_pandas_dynamic"):
        out.append(("%s-gradient2" % fn, gradient, dict(fn=fn, d=2, n=2, p=1, free=_slots(fn, 2, 1)), 5))
        out.append(("%s-gradient2b" % fn, gradient, dict(fn=fn, d=2, n=1, p=2, free=_slots(fn, 2, 2)), 8))
        out.append(("%s-gradient3" % fn, gradient, dict(fn=fn, d=3, n=1, p=1, free=[(0, 0, 1), (0, 1, 2), (0, 2, 0), (1, 0, 2), (1, 1, 1)]), 8))
        out.append(("%s-score" % fn, score, dict(fn=fn, d=2, n=1, p=2, free=[(0, 0, 1), (1, 1, 0), (2, 0, 1)]), 5))
        out.append(("%s-score-b" % fn, score, dict(fn=fn, d=3, n=2, p=1, free=[(0, 2, 1), (1, 1, 2)]), 5))
        out.append(("%s-penalty" % fn, score, dict(fn=fn, d=2, n=1, p=1, free=[(0, 0, 1), (0, 1, 0)], penalty=True), 5))
        for s in _slots(fn, 2, 2):
            out.append(("%s-lasso-%d%d%d" % ((fn,) + s), score, dict(fn=fn, d=2, n=2, p=2, free=[s], lam=True), 2))
        if tier == "thorough":
            out.append(("%s-gradient3full" % fn, gradient, dict(fn=fn, d=3, n=2, p=2, free=_slots(fn, 3, 2)), 60))
            out.append(("%s-score3" % fn, score, dict(fn=fn, d=3, n=1, p=1, free=tri + [(1, 1, 0)]), 60))
    return out
