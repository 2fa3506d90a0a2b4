"""DYNOTEARS honours its constraints for anything the optimiser may return within the bounds it is given."""
from checks import env, npx
from checks import nt_common as nt
from symx import core

import numpy as np


def _data(c, fn, cols, p, rows, lists):
    import pandas as pd

    if fn == "from_numpy_dynamic":
        d = len(cols)
        return [nt.matrix(c, rows, d, "x"), nt.matrix(c, rows, d * p, "l")], {}
    frames = []
    for k in range(lists or 1):
        f = nt.frame(c, cols, rows + p, "s%d" % k)
        f.index = pd.Index(list(range(3 * k, 3 * k + rows + p)))
        frames.append(f)
    return [frames if lists else frames[0]], {"p": p}


def _snapshot(args):
    import pandas as pd

    out = []
    for a in args:
        for f in a if isinstance(a, list) else [a]:
            out.append((list(f.columns), list(f.index), [list(f[n].values) for n in f.columns]) if isinstance(f, pd.DataFrame) else [list(r) for r in f])
    return out


def _same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return nt.close(a, b)


def setup(fn, cols, p):
    names = list(cols) if fn == "from_pandas_dynamic" else list(range(len(cols)))
    node = lambda n, k: "%s_lag%d" % (n, k)
    nodes = [node(n, k) for k in range(p + 1) for n in names]
    possible = {(node(u, k), node(v, 0)): (k, u, v) for k in range(p + 1) for u in names for v in names if k or u != v}
    return names, nodes, possible


def learn(c, fn, cols, p, rows=1, lists=None, max_iter=1, which=("edges", "parents", "children"), free=None):
    _, D = nt.modules()
    names, nodes, possible = setup(fn, cols, p)
    slots = list(possible.values())
    kw, banned0 = nt.tabu(c, names, slots if free is None else [], which=which)
    extra = []
    if free is not None:
        extra = [s for s in slots if s not in [(k, names[i], names[j]) for k, i, j in free]]
        kw["tabu_edges"] = list(extra)
    banned = lambda e: banned0(e) or e in extra
    given = {k: list(v) for k, v in kw.items()}
    thr = c.real("threshold", nonneg=True, default=0.25)
    args, opt = _data(c, fn, cols, p, rows, lists)
    before = _snapshot(args)
    lam = dict(lambda_w=c.real("lambda_w", nonneg=True, default=0.1), lambda_a=c.real("lambda_a", nonneg=True, default=0.2))
    call = lambda t: getattr(D, fn)(*args, max_iter=max_iter, w_threshold=t, **lam, **opt, **kw)
    with nt.Run(c, "free", calls=3) as run:
        sm = c.no_raise("accepted", lambda: call(thr))
    c.check("optimised", bool(run.xs), "no optimisation took place")
    nt.check_graph(c, sm, nodes, possible, banned, thr, origin="learned" if fn == "from_pandas_dynamic" else None)
    at = {e: (k, names.index(u), names.index(v)) for e, (k, u, v) in possible.items()}
    nt.check_free(c, run, len(names), p, [at[e] for e, s in possible.items() if not banned(s)])
    if max_iter == 1:
        with nt.Run(c, "free", calls=3) as run:
            full = call(0.0)
        nt.check_learned(c, full, run, len(names), p, at)
        nt.check_thresholded(c, sm, full, thr)
    c.check("input-unchanged", _same(before, _snapshot(args)), "the input data changed")
    c.check("input-unchanged", given == {k: list(v) for k, v in kw.items()}, "the tabu lists changed")


def reject(c, fn):
    _, D = nt.modules()
    import pandas as pd

    x = lambda t, r, k: nt.matrix(c, r, k, t)
    with nt.Run(c, "free", calls=3):
        if fn == "from_numpy_dynamic":
            kind = c.choice("data", ["empty", "no-lags", "rows", "more-rows", "columns"])
            X, L = {"empty": (np.zeros((0, 2)), np.zeros((0, 2))), "no-lags": (x("x", 2, 2), np.zeros((2, 0))), "rows": (x("x", 2, 2), x("l", 1, 2)), "more-rows": (x("x", 2, 2), x("l", 3, 2)),
                    "columns": (x("x", 2, 2), x("l", 2, 3))}[kind]
            c.raises("invalid-rejected", ValueError, lambda: D.from_numpy_dynamic(X, L), kind)
            return
        kind = c.choice("data", ["empty-list", "not-a-frame", "text", "short", "unequal", "unordered", "float-index"])
        f = nt.frame(c, ["a", "b"], 3)
        f.index = pd.Index([0, 1, 2])
        bad, exc = f, ValueError
        if kind == "empty-list":
            bad = []
        elif kind == "not-a-frame":
            bad, exc = nt.matrix(c, 3, 2), TypeError
        elif kind == "text":
            bad = pd.DataFrame({"a": [0.5, 1.5, 2.5], "b": ["u", "v", "w"]}, index=[0, 1, 2])
        elif kind == "short":
            bad = pd.DataFrame({"a": [0.5], "b": [0.25]}, index=[0])
        elif kind == "unequal":
            bad = [f, pd.DataFrame({"a": [0.5, 1.5, 2.5], "z": [0.5, 1.5, 2.5]}, index=[0, 1, 2])]
        elif kind == "unordered":
            bad = pd.DataFrame({"a": [0.5, 1.5, 2.5], "b": [0.5, 1.5, 2.5]}, index=[1, 0, 2])
        elif kind == "float-index":
            bad, exc = pd.DataFrame({"a": [0.5, 1.5, 2.5], "b": [0.5, 1.5, 2.5]}, index=[0.5, 1.5, 2.5]), TypeError
        c.raises("invalid-rejected", exc, lambda: D.from_pandas_dynamic(bad, p=1), kind)


LABELS = ["nodes", "tabu", "only-tabu", "possible", "threshold", "weight", "origin", "input-unchanged", "invalid-rejected"]
ASSUMPTIONS = ["the optimiser returns a point inside the bounds it was given (scipy's contract); which point is arbitrary",
               "the matrix exponential returns an arbitrary matrix whose trace is at least the dimension",
               "column names are distinct strings; tabu nodes are columns", "weights exactly equal to the threshold may or may not be kept",
               "scipy, pandas are replaced by models (checks/npx.py, stubs/pandas)"]
BOUNDS = {"quick": "2 variables and 1 lag with every tabu argument; 2-3 variables, up to 3 lags with up to 4 free entries; arbitrary threshold, regularisation, weights and data; at most 3 optimiser calls",
          "thorough": "2 variables and 2 lags with every tabu argument, 3 variables and 2 lags with up to 6 free entries"}


def cases(tier):
    out = []
    for fn in ("from_numpy_dynamic", "from_pandas_dynamic"):
        out.append(("%s-edges" % fn, learn, dict(fn=fn, cols=["b"], p=2, which=("edges", "parents", "children")), 5))
        out.append(("%s-2" % fn, learn, dict(fn=fn, cols=["b", "a"], p=1, free=[(0, 0, 1), (0, 1, 0), (1, 0, 1)], which=("parents", "children")), 10))
        out.append(("%s-lags" % fn, learn, dict(fn=fn, cols=["b", "a"], p=3, free=[(0, 1, 0), (1, 0, 1), (2, 1, 0), (3, 0, 0)], which=()), 10))
        out.append(("%s-3" % fn, learn, dict(fn=fn, cols=["b_lag1", "c", "a"], p=2, free=[(0, 1, 2), (1, 2, 0), (2, 0, 1)], which=("parents",)), 10))
        out.append(("%s-more" % fn, learn, dict(fn=fn, cols=["b", "a"], p=1, free=[(0, 1, 0), (1, 0, 1)], which=("children",), max_iter=2), 10))
        out.append(("%s-reject" % fn, reject, dict(fn=fn), 2))
        if tier == "thorough":
            out.append(("%s-2full" % fn, learn, dict(fn=fn, cols=["b", "a"], p=1, which=("edges",)), 60))
            out.append(("%s-2nodes" % fn, learn, dict(fn=fn, cols=["b", "a"], p=2, free=[(0, 0, 1), (0, 1, 0), (1, 0, 1), (1, 1, 1), (2, 0, 0)], which=("parents", "children")), 60))
            out.append(("%s-3full" % fn, learn, dict(fn=fn, cols=["b", "c", "a"], p=2, free=[(0, 1, 2), (0, 2, 0), (1, 2, 0), (1, 1, 1), (2, 0, 1), (2, 2, 2)], which=()), 60))
    out.append(("series", learn, dict(fn="from_pandas_dynamic", cols=["b", "a"], p=1, lists=2, free=[(0, 1, 0), (1, 0, 1)], which=()), 5))
    return out
