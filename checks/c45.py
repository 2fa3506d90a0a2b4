"""A learned graph is acyclic unless a convergence warning was given."""
from checks import env, npx
from checks import nt_common as nt
from checks import pt_common as pt
from checks import sm_common as sc
from symx import core

import numpy as np

STATIC = ("from_numpy", "from_pandas", "from_numpy_lasso", "from_pandas_lasso")


def learn(c, fn, d, p=0, free=None, max_iter=1, tol=False, calls=2, thr=False, mode="series"):
    N, D = nt.modules()
    import pandas as pd

    names = ["c", "a", "b"][:d]
    static = fn in STATIC
    nodes = names if "pandas" in fn else list(range(d))
    slots = [(k, i, j) for k in range(p + 1) for i in range(d) for j in range(d) if k or i != j]
    free = slots if free is None else free
    ban = [s for s in slots if s not in free]
    h_tol = c.real("h_tol", nonneg=True, default=0.001) if tol else 0.0
    kw = dict(max_iter=max_iter, h_tol=h_tol, w_threshold=c.real("threshold", nonneg=True, default=0.25) if thr else 0.0)
    if static:
        kw["tabu_edges"] = [(nodes[i], nodes[j]) for _, i, j in ban]
        if fn.endswith("lasso"):
            kw["beta"] = 0.125
        X = np.array([[0.5, 1.5, -1.0][:d], [2.0, 0.25, 1.0][:d]])
        call = lambda: getattr(N, fn)(pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(names)}) if "pandas" in fn else X, **kw)
    else:
        kw["tabu_edges"] = [(k, nodes[i], nodes[j]) for k, i, j in ban]
        rows = [[0.5, 1.5, -1.0][:d], [2.0, 0.25, 1.0][:d], [1.0, -0.5, 0.75][:d], [0.25, 1.0, 2.0][:d]][:p + 1]
        if fn == "from_numpy_dynamic":
            call = lambda: D.from_numpy_dynamic(np.array(rows[:1]), np.array([sum(rows[1:], [])]), **kw)
        else:
            call = lambda: D.from_pandas_dynamic(pd.DataFrame({m: [r[j] for r in rows] for j, m in enumerate(names)}, index=list(range(len(rows)))), p=p, **kw)
    with nt.Run(c, mode, calls=calls) as run:
        sm = call()
    intra = [(u, v) for u, v in sm.edges if static or (str(u).endswith("_lag0") and str(v).endswith("_lag0"))]
    name = (lambda n: n) if static else (lambda n: str(n)[:-5])
    ix = {str(m): i for i, m in enumerate(nodes)}
    if run.unconverged:
        c.check("warned", True)
        return
    if mode == "free":
        # the measure is an arbitrary function of the weights: it was found to be within the tolerance at the final ones
        if len(intra) == len([s for s in free if not s[0]]):
            W = np.zeros((d, d)).astype(object if npx.symbolic() else float)
            for u, v in intra:
                W[ix[str(name(u))], ix[str(name(v))]] = sm[u][v]["weight"]
            h = np.trace(run.expm(W * W)) - d
            c.check("within-tolerance", h <= (h_tol if npx.symbolic() else h_tol + 1e-9), "the learned weights were not found to be within h_tol, and no warning was given")
        return
    if not tol:
        # the measure of the final weights is exactly zero
        if npx.symbolic():
            c.check("acyclic", not sc.cyclic(intra), lambda: "cycle among %r without a convergence warning" % (intra,))
        else:
            W = np.zeros((d, d))
            for u, v in intra:
                W[ix[str(name(u))], ix[str(name(v))]] = sm[u][v]["weight"]
            c.check("acyclic", float(np.trace(nt.series(W * W, d))) - d <= 1e-9, lambda: "cycle among %r without a convergence warning" % (intra,))
        return
    W = np.zeros((d, d)).astype(object if npx.symbolic() else float)
    for u, v in intra:
        W[ix[str(name(u))], ix[str(name(v))]] = sm[u][v]["weight"]
    h = np.trace(nt.series(W * W, d)) - d
    c.check("within-tolerance", h <= (h_tol if npx.symbolic() else h_tol + 1e-9), "acyclicity measure of the learned weights exceeds h_tol without a warning")


class Slow(pt.Run):
    """The optimiser steps through distinct points; the measure there is arbitrary."""

    def __init__(self, c, calls):
        pt.Run.__init__(self, c, calls=calls, opaque=True)
        self.seen = {}

    def value(self, k, i, lo, hi):
        return 0.5 + 0.125 * k

    def item(self, x):
        k = round(float(x), 9)
        if k not in self.seen:
            self.seen[k] = self.c.real("h%d" % len(self.seen), nonneg=True)
        return self.seen[k]


def torch(c, fn, types, free, max_iter=1, calls=1, order=None, some=None, slow=False):
    """The PyTorch learner: its acyclicity measure counts cycles between the original columns, and its warning is logged."""
    import logging

    import pandas as pd

    T, _ = pt.modules()
    d = len(types)
    cols = pt.NAMES[:d] if fn == "from_pandas" else list(range(d))
    X = pt.data(types, 4)
    data = pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(cols)}) if fn == "from_pandas" else X
    seen = []

    class Heard(logging.Handler):
        def emit(self, record):
            if record.levelno >= logging.WARNING:
                seen.append(record)

    h, was = Heard(), logging.root.manager.disable
    logging.disable(logging.NOTSET)
    logging.getLogger().addHandler(h)
    try:
        with (Slow(c, calls) if slow else pt.Run(c, calls=calls, some=some, rest=0.0)) as run:
            sm = getattr(T, fn)(data, dist_type_schema={cols[j]: types[j] for j in order or range(d)}, max_iter=max_iter,
                                tabu_edges=[(cols[i], cols[j]) for i in range(d) for j in range(d) if i != j and (i, j) not in free])
    finally:
        logging.getLogger().removeHandler(h)
        logging.disable(was)
    if seen or run.unconverged:
        c.check("warned", True)
        return
    nodes = pt.names(types, order, 4) if fn == "from_pandas" else list(range(len(pt.groups(types, order, 4))))
    of = dict(zip(nodes, pt.groups(types, order, 4)))
    S = np.zeros((d, d)).astype(object if npx.symbolic() else float)
    for u, v, w in sm.edges(data="mean_effect"):
        S[of[u], of[v]] = S[of[u], of[v]] + w * w
    M = np.eye(d) + S / d
    P = M
    for _ in range(d - 1):
        P = P.dot(M)
    m = np.trace(P) - d
    if slow:
        k = round(float(m), 9)
        c.check("measured", k in run.seen, lambda: "the acyclicity of the learned weights was never looked at, and no warning was given")
        m = run.seen[k]
    c.check("within-tolerance", m <= (core.lift(1e-8) if npx.symbolic() else 1.1e-8), lambda: "acyclicity measure %r of the learned weights exceeds 1e-8 without a warning" % (m,))


LABELS = ["acyclic", "within-tolerance", "warned"]
ASSUMPTIONS = ["the matrix exponential is its power series cut after as many powers as there are variables: all cycles of that many variables are counted, the remaining terms only add to the measure",
               "the optimiser returns a point inside the bounds it was given; which point is arbitrary", "over several dual ascent steps the measure is an arbitrary nonnegative function of the weights", "exact arithmetic (the measure of an acyclic graph is exactly 0)",
               "PyTorch NOTEARS: tolerance 1e-8, the measure as its exact polynomial; multiplier updates arbitrary", "scipy, pandas, torch are replaced by models (checks/npx.py, stubs/pandas, stubs/torch)"]
BOUNDS = {"quick": "2-3 variables with up to 4 free weights, up to 2 dual ascent steps and 3 optimiser calls, tolerance 0 or arbitrary",
          "thorough": "3 variables with 6 free weights, up to 3 dual ascent steps"}


def cases(tier):
    out = []
    cyc = [(0, 0, 1), (0, 1, 2), (0, 2, 0)]
    for fn in STATIC + ("from_numpy_dynamic", "from_pandas_dynamic"):
        p = 0 if fn in STATIC else 1
        lag = [] if fn in STATIC else [(1, 0, 1)]
        out.append(("%s-2" % fn, learn, dict(fn=fn, d=2, p=p, free=[(0, 0, 1), (0, 1, 0)] + lag, thr=True), 5))
        out.append(("%s-3" % fn, learn, dict(fn=fn, d=3, p=p, free=cyc + ([(0, 1, 0)] if not fn.endswith("lasso") and not p else [])), 5))
        out.append(("%s-tol" % fn, learn, dict(fn=fn, d=2, p=p, free=[(0, 0, 1), (0, 1, 0)] + lag, tol=True), 5))
        out.append(("%s-iter" % fn, learn, dict(fn=fn, d=2, p=p, free=[(0, 0, 1), (0, 1, 0)], max_iter=2, calls=3, mode="free", tol=True), 5))
        if tier == "thorough":
            out.append(("%s-3full" % fn, learn, dict(fn=fn, d=3, p=p, free=cyc + [(0, 1, 0), (0, 2, 1), (0, 0, 2)]), 60))
            out.append(("%s-iter3" % fn, learn, dict(fn=fn, d=2, p=p, free=[(0, 0, 1), (0, 1, 0)], max_iter=3, calls=5, tol=True, mode="free"), 60))
            out.append(("%s-full2" % fn, learn, dict(fn=fn, d=2, p=p, free=[(0, 0, 1), (0, 1, 0)] + lag, tol=True, thr=True), 60))
    for fn in ("from_numpy", "from_pandas"):
        out.append(("torch-%s-2" % fn, torch, dict(fn=fn, types=["cont", "cont"], free=[(0, 1), (1, 0)]), 5))
        out.append(("torch-%s-iter" % fn, torch, dict(fn=fn, types=["cont", "cont"], free=[(0, 1), (1, 0)], max_iter=2, calls=3), 5))
        out.append(("torch-%s-limit" % fn, torch, dict(fn=fn, types=["cont", "cont"], free=[(0, 1), (1, 0)], max_iter=3, calls=18, slow=True), 5))
        out.append(("torch-%s-3" % fn, torch, dict(fn=fn, types=["cont", "cont", "cont"], free=[(0, 1), (1, 2), (2, 0)]), 5))
        out.append(("torch-%s-cat" % fn, torch, dict(fn=fn, types=["cat", "cont"], free=[(0, 1), (1, 0)], some=[1, 7]), 5))
    return out
