"""What PyTorch NOTEARS hands to the optimiser: the documented likelihood and penalties, their exact gradient, and an acyclicity penalty that counts cycles between the original variables."""
from checks import env, npx
from checks import nt_common as nt
from checks import pt_common as pt
from symx import core

import numpy as np


class Done(BaseException):
    pass


def call(c, fn, types, order, X, kw):
    N, _ = pt.modules()
    import pandas as pd

    frame = fn == "from_pandas"
    cols = pt.NAMES[:len(types)] if frame else list(range(len(types)))
    if frame:
        X = pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(cols)})
    kw = dict(kw, dist_type_schema={cols[j]: pt.kind(types[j]) for j in order})
    return getattr(N, fn)(X, **kw), cols


def values(c, types, rows, sym):
    """The data; continuous columns arbitrary."""
    X = pt.data(types, rows)
    out = [[c.real("d%d.%d" % (i, j), default=float(X[i, j])) if sym and types[j] == "cont" else float(X[i, j]) for j in range(len(types))] for i in range(rows)]
    return nt.arr([v for r in out for v in r]).reshape(X.shape)


def tabus(types, cols, free):
    return [(cols[i], cols[j]) for i in range(len(types)) for j in range(len(types)) if i != j and (i, j) not in free]


def score(c, fn, types, free, order=None, bias=False, lasso=False, ridge=False, rows=4, sym=True, penalty=False, some=None):
    """The objective at the returned point is the documented score of the returned graph."""
    d = len(types)
    order = order or tuple(range(d))
    frame = fn == "from_pandas"
    X = values(c, types, rows, sym)
    cols = pt.NAMES[:d] if frame else list(range(d))
    beta = c.real("lasso", nonneg=True, default=0.125) if lasso else 0.0
    lam = c.real("ridge", nonneg=True, default=0.25) if ridge else 0.0
    got = {}

    def on_call(f, g, x, fr, k):
        if set(types) != {"cont"}:
            for i in (fr if some is None else some):  # (an edge of weight zero is no edge)
                c.assume(x[i] != 0)
        got["f"], got["x"] = f(x), x

    with pt.Run(c, on_call=on_call, some=some, rest=0.0) as r:
        sm, _ = call(c, fn, types, order, X, dict(tabu_edges=tabus(types, cols, free), lasso_beta=beta, ridge_beta=lam, use_bias=bias, max_iter=1))
    E, where = pt.expand(X, types, order)
    nm = pt.names(types, order, rows) if frame else list(range(len(E)))
    m = len(E)
    W = [[0] * m for _ in range(m)]
    for u, v, w in sm.edges(data="mean_effect"):
        W[nm.index(u)][nm.index(v)] = w
    b = [sm.nodes[n]["bias"] if bias else 0 for n in nm]
    Z = [[b[j] + sum(W[i][j] * E[i][q] for i in range(m)) for j in range(m)] for q in range(rows)]
    want = pt.loss(E, where, types, Z)
    flat = [w for row in W for w in row]
    # averages over the weights of the model, scaled by the number of (expanded) columns
    if lasso:
        want = want + beta * sum(abs(w) for w in flat) / len(flat) * m
    if ridge:
        want = want + 0.5 * lam * sum(w * w for w in flat) / len(flat) * m
    if not penalty:
        c.check_eq("score", got["f"], want, "objective at the learned weights")
        return
    # with cycles: the gap is positive exactly when the collapsed graph has one
    gap = got["f"] - want
    G = sm.graph["graph_collapsed"]
    from checks import sm_common as sc

    if npx.symbolic():
        c.check("penalty", gap > 0 if sc.cyclic(list(G.edges)) else core.And(gap >= 0, gap <= 0), "the penalty is not positive exactly on cyclic graphs")
    else:
        big = [(u, v) for u, v, w in G.edges(data="weight") if abs(w) > 1e-2]
        if sc.cyclic(big):
            c.check("penalty", gap > 0, "no penalty for the cycle in %r" % (big,))
        elif not sc.cyclic(list(G.edges)):
            c.check("penalty", abs(gap) < 1e-6, "penalty %r without a cycle" % (gap,))


def gradient(c, fn, types, free, order=None, bias=False, lasso=False, ridge=False, rows=4, sym=True, hidden=None, calls=1, some=None):
    """The gradient handed over is the derivative of the objective handed over."""
    d = len(types)
    order = order or tuple(range(d))
    X = values(c, types, rows, sym)
    cols = pt.NAMES[:d] if fn == "from_pandas" else list(range(d))
    beta = c.real("lasso", nonneg=True, default=0.125) if lasso else 0.0
    lam = c.real("ridge", nonneg=True, default=0.25) if ridge else 0.0

    def on_call(f, g, x, fr, k):
        if k < calls - 1:
            return
        if lasso:
            for i in fr:  # (the absolute value has no derivative at zero)
                c.assume(x[i] != 0)
        c.check("gradient-seen", g is not None, "no gradient")
        grad = np.asarray(g(x)).ravel()
        c.check("gradient-shape", grad.size == len(x), "gradient of size %d for %d weights" % (grad.size, len(x)))
        other = np.array(x, dtype=object if npx.symbolic() else float)
        for i in fr:
            other[i] = 0.5 + i % 3
        f(other)  # the derivative must not depend on what was evaluated before
        val = f(x)
        grad = np.asarray(g(x)).ravel()
        if npx.symbolic():
            c.check("finite", core.lift(val) is not None and all(core.lift(v) is not None for v in grad), "objective or gradient is not a number")
            for i in fr:
                if core.is_sym(x[i]):
                    (vid,) = x[i].n.vids()
                    c.check_eq("gradient", grad[i], pt.derivative(val, vid), "component %d" % i)
        else:
            c.check("finite", bool(np.isfinite(float(f(x))) and np.isfinite(grad.astype(float)).all()), "objective %r, gradient %r" % (f(x), grad))
            for i in fr:
                up, dn = np.array(x, dtype=float), np.array(x, dtype=float)
                h = 1e-5 * max(1.0, abs(x[i]))
                up[i] += h
                dn[i] -= h
                a, b = float(f(up)), float(f(dn))
                num = (a - b) / (2 * h)
                if np.isfinite(num) and abs(a) < 1e9:
                    c.check("gradient", abs(num - grad[i]) <= 1e-3 * max(1.0, abs(num), abs(grad[i])), "component %d: gradient %r, numeric derivative %r" % (i, grad[i], num))
        raise Done()

    with pt.Run(c, calls=calls, on_call=on_call, some=some) as run:
        try:
            kw = dict(tabu_edges=tabus(types, cols, free), lasso_beta=beta, ridge_beta=lam, use_bias=bias, max_iter=calls)
            if hidden:
                kw["hidden_layer_units"] = list(hidden)
            call(c, fn, types, order, X, kw)
        except Done:
            pass


LABELS = ["score", "gradient", "penalty", "gradient-seen", "gradient-shape", "finite"]
ASSUMPTIONS = ["the weights penalised are those of the layer that holds the edges (linear model); average over all of them times their number per column, as documented for the code",
               "exact arithmetic: differences of relative size 1e-9 in a coefficient are rounding", "edges of weight zero are no edges",
               "torch, scipy, pandas and sklearn are replaced by models (stubs/torch, checks/npx.py, stubs/pandas, stubs/sklearn); the model of torch differentiates operation by operation; exp, log, sigmoid and square roots are uninterpreted functions with known derivative"]
BOUNDS = {"quick": "2 columns (continuous and one of each type, 4 rows, categories of 3), arbitrary weights and continuous data; with hidden layer: some weights arbitrary at fixed data",
          "thorough": "up to 4 columns mixing all types, hidden layers of 2 and two layers"}


def cases(tier):
    out = []
    deep = tier == "thorough"
    both = [(0, 1), (1, 0)]
    for fn in ("from_numpy", "from_pandas"):
        A = lambda name, *a: out.append(("%s-%s" % (fn, name),) + a)
        A("score", score, dict(fn=fn, types=["cont", "cont"], free=[(0, 1)], bias=True, lasso=True, ridge=True), 5)
        A("score-3", score, dict(fn=fn, types=["cont", "cont", "cont"], free=[(0, 1), (2, 1), (2, 0)], rows=2, ridge=True, lasso=deep), 5)
        A("gradient", gradient, dict(fn=fn, types=["cont", "cont"], free=both, bias=True, rows=2, ridge=True), 5)
        A("gradient-step", gradient, dict(fn=fn, types=["cont", "cont"], free=both, rows=2, calls=2, sym=deep), 8)
        A("gradient-lasso", gradient, dict(fn=fn, types=["cont", "cont"], free=[(0, 1)], rows=2, lasso=True, ridge=True), 5)
        for t in ("bin", "ord", "cat", "poiss"):
            A("score-" + t, score, dict(fn=fn, types=["cont", t], free=[(0, 1)], bias=True, ridge=True), 5)
            A("gradient-" + t, gradient, dict(fn=fn, types=["cont", t], free=[(0, 1)], bias=True, ridge=t != "cat"), 8)
            A("from-" + t, score, dict(fn=fn, types=["cont", t], free=[(1, 0)], rows=4, ridge=True), 5)
        A("score-ord4", score, dict(fn=fn, types=["cont", "ord4"], free=[(0, 1)], bias=True, rows=5), 5)
        A("score-order", score, dict(fn=fn, types=["cat", "ord"], free=[(0, 1)], order=(1, 0), bias=True), 5)
        A("penalty", score, dict(fn=fn, types=["cont", "cont"], free=both, rows=1, penalty=True), 5)
        A("penalty-3", score, dict(fn=fn, types=["cont", "cont", "cont"], free=[(0, 1), (1, 2), (2, 0)], rows=1, penalty=True), 8)
        # (weights of: continuous -> each category, each category -> continuous)
        for into in (1, 9, 13):
            for back in (4, 6, 7):
                A("penalty-cat-%d-%d" % (into, back), score, dict(fn=fn, types=["cat", "cont"], free=both, rows=4, penalty=True, sym=False, some=[into, back]), 4)
        A("penalty-cat-only", score, dict(fn=fn, types=["cat", "cont"], free=both, rows=4, penalty=True, sym=False, some=[1, 9, 13]), 4)
        A("hidden", gradient, dict(fn=fn, types=["cont", "cont"], free=both, bias=True, rows=2, hidden=[2], some=[1, 8, 12, 16], sym=False), 8)
        A("hidden-ridge", gradient, dict(fn=fn, types=["cont", "bin"], free=both, bias=True, rows=2, hidden=[2], some=[3, 4, 10, 13], ridge=True, sym=False), 8)
        if deep:
            A("mixed", score, dict(fn=fn, types=["ord", "bin", "poiss", "cont"], free=[(0, 1), (3, 2), (1, 3)], order=(2, 0, 3, 1), bias=True, ridge=True), 20)
            A("gradient-mixed", gradient, dict(fn=fn, types=["ord", "bin", "poiss", "cont"], free=[(0, 1), (3, 2), (1, 3)], order=(2, 0, 3, 1), bias=True), 20)
            A("gradient-cat-cat", gradient, dict(fn=fn, types=["cat", "cat2"], free=[(0, 1)], bias=True, sym=False), 30)
            A("gradient-lasso-both", gradient, dict(fn=fn, types=["cont", "cont"], free=both, rows=2, lasso=True, ridge=True, bias=True), 20)
            A("hidden-2", gradient, dict(fn=fn, types=["cont", "poiss"], free=both, bias=True, rows=2, hidden=[2, 2], some=[1, 8, 18, 28], sym=False), 30)
            A("hidden-3", gradient, dict(fn=fn, types=["cont", "bin", "ord"], free=both + [(1, 2)], bias=True, rows=4, hidden=[2], some=[1, 8, 12, 21], sym=False), 30)
    return out
