"""Lagged data: every row pairs a time with exactly its p predecessors of the same uninterrupted stretch."""
from checks import env  # noqa: F401
from symx import core


def _mods():
    import numpy as np
    import pandas as pd
    from causalnex.structure.transformers import DynamicDataTransformer

    return np, pd, DynamicDataTransformer


def series(c, np, pd, names, lengths, p, gaps="any"):
    """Data frames with symbolic entries and a symbolic, strictly increasing integer index.

    Returns the frames and, per frame, the list of (index expression, {name: value}, gap-before) rows."""
    frames, rows = [], []
    for m, n in enumerate(lengths):
        t = c.int("start%d" % m, -3, 3)
        idx, rr = [], []
        for i in range(n):
            if i:
                t = t + c.int("gap%d-%d" % (m, i), 1, 3)
            idx.append(t)
            rr.append({x: c.real("%s-%d-%d" % (x, m, i)) for x in names})
        cols = {x: [r[x] for r in rr] for x in names}
        frames.append(pd.DataFrame(cols, index=idx, columns=list(names)))
        rows.append((idx, rr))
    return frames, rows


def expected(rows, names, p):
    """Rows of the lagged table: one for each observation whose p predecessors in time are all observed."""
    out = []
    for idx, rr in rows:
        for i in range(len(idx)):
            ok = i >= p
            for k in range(1, p + 1):
                if ok and not bool(idx[i - k] == idx[i] - k):
                    ok = False
            if ok:
                out.append([[rr[i - k][x] for x in names] for k in range(p + 1)])
    return out


def lags(c, names, lengths, p):
    np, pd, DDT = _mods()
    frames, rows = series(c, np, pd, names, lengths, p)
    df = c.choice("return_df", [True, False])
    single = len(lengths) == 1 and c.choice("bare-frame", [True, False])
    perm = c.choice("columns-at-transform", [list(names), list(reversed(names))])
    arg = [f[perm] for f in frames]
    tr = DDT(p=p)
    if df:  # a second fit replaces what the first one learnt
        c.no_raise("fit", lambda: tr.fit(pd.DataFrame({n: [0.5, 1.5] for n in reversed(names)}, index=[0, 1], columns=list(reversed(names))), return_df=False))
    tr = c.no_raise("fit", lambda: tr.fit(frames[0] if single else frames, return_df=df))
    res = c.no_raise("transform", lambda: tr.transform(arg[0] if single else arg))
    exp = expected(rows, names, p)
    if df:
        want = ["%s_lag%d" % (x, k) for k in range(p + 1) for x in names]
        c.check("columns", list(res.columns) == want, lambda: "columns %r, expected %r" % (list(res.columns), want))
        vals = res.values
        flat = [[v for blk in r for v in blk] for r in exp]
        got = [[vals[i, j] for j in range(vals.shape[1])] for i in range(vals.shape[0])]
    else:
        X, XL = res
        c.check("columns", X.shape[1] == len(names) and XL.shape[1] == p * len(names) and X.shape[0] == XL.shape[0], lambda: "shapes %r %r" % (X.shape, XL.shape))
        flat = [[v for blk in r for v in blk] for r in exp]
        got = [list(X[i]) + list(XL[i]) for i in range(X.shape[0])]
    c.check("rows", len(got) == len(flat), lambda: "%d rows, expected %d; index %r" % (len(got), len(flat), [r[0] for r in rows]))
    for i, (a, b) in enumerate(zip(got, flat)):
        for j, (x, y) in enumerate(zip(a, b)):
            c.check_eq("entries", x, y, "row %d, lag %d of %s" % (i, j // len(names), names[j % len(names)]))
    for f, (idx, rr) in zip(frames, rows):
        ok = list(f.columns) == list(names) and len(f) == len(rr) and all(f[x].values[i] is rr[i][x] or f[x].values[i] == rr[i][x] for i in range(len(rr)) for x in names)
        c.check("input-unchanged", bool(ok), "the input frame changed")


def order(c, n, p):
    """The index decides acceptance: increasing (duplicates aside) is accepted, anything decreasing is a ValueError."""
    np, pd, DDT = _mods()
    idx = [c.int("i%d" % k, -2, 3) for k in range(n)]
    df = pd.DataFrame({"x": [c.real("x%d" % k) for k in range(n)]}, index=idx)
    inc = core.And(*[idx[k] <= idx[k + 1] for k in range(n - 1)]) if c.symbolic else all(idx[k] <= idx[k + 1] for k in range(n - 1))
    second = c.choice("position", ["only", "second"])
    arg = df if second == "only" else [pd.DataFrame({"x": [0.5, 1.5]}, index=[0, 1]), df]
    try:
        DDT(p=p).fit(arg)
    except ValueError as e:
        c.check("decreasing-rejected", core.Not(inc) if c.symbolic else not inc, lambda: "index %r rejected: %s" % (idx, e))
        return
    c.check("increasing-accepted", inc, lambda: "index %r accepted" % (idx,))


def reject(c):
    np, pd, DDT = _mods()
    from sklearn.exceptions import NotFittedError

    x = lambda n: [c.real("x%s%d" % (n, i)) for i in range(3)]
    good = pd.DataFrame({"a": x("a"), "b": x("b")}, index=[0, 1, 2])
    kind = c.choice("input", ["empty", "not-a-frame", "text-column", "other-columns", "missing-at-transform", "float-index", "text-index", "not-fitted", "extra-at-transform", "other-type"])
    where = c.choice("where", ["fit", "transform"])
    tr = DDT(p=1)
    pos = c.choice("position", [0, 1])
    exc, bad = ValueError, None
    if kind == "empty":
        bad = []
    elif kind == "not-a-frame":
        bad, exc = np.array([[0.5, 1.5], [2.5, 3.5]]), TypeError
        if pos == 0:
            bad = [good, bad]
    elif kind == "text-column":
        bad = pd.DataFrame({"a": x("c"), "b": ["u", "v", "w"]}, index=[0, 1, 2])
    elif kind == "other-columns":
        bad = [good, pd.DataFrame({"a": x("c"), "z": x("d")}, index=[0, 1, 2])]
        if pos:
            bad.reverse()
        if where == "transform" and pos:
            return
    elif kind in ("float-index", "text-index"):
        bad, exc = pd.DataFrame({"a": x("c"), "b": x("d")}, index=[0.5, 1.5, 2.5] if kind == "float-index" else ["u", "v", "w"]), TypeError
    elif kind == "other-type":
        bad = [good, pd.DataFrame({"a": x("c"), "b": [1, 2, 3]}, index=[0, 1, 2])]
    elif kind == "not-fitted":
        c.raises("not-fitted", NotFittedError, lambda: tr.transform(good))
        return
    elif kind == "extra-at-transform":
        tr.fit(good)
        res = c.no_raise("extra-column", lambda: tr.transform(pd.DataFrame({"z": x("z"), "b": list(good["b"].values), "a": list(good["a"].values)}, index=[0, 1, 2])))
        c.check("extra-column", list(res.columns) == ["a_lag0", "b_lag0", "a_lag1", "b_lag1"], lambda: "columns %r" % (list(res.columns),))
        return
    else:
        tr.fit(good)
        bad = pd.DataFrame({"a": x("c")}, index=[0, 1, 2])
        c.raises("invalid-rejected", ValueError, lambda: tr.transform(bad), kind)
        return
    if where == "fit":
        c.raises("invalid-rejected", exc, lambda: tr.fit(bad), kind)
    else:
        tr.fit(good)
        c.raises("invalid-rejected", exc, lambda: tr.transform(bad), kind)


LABELS = ["entries", "rows", "columns", "invalid-rejected", "decreasing-rejected", "increasing-accepted"]
ASSUMPTIONS = ["within a frame the time index has no repeated values", "pandas is replaced by a model of the operations used (stubs/pandas)"]
BOUNDS = {"quick": "1-2 variables, series of up to 5 rows (or two of 2-3 rows), p in 1..3, arbitrary start and gaps up to 3, arbitrary real entries",
          "thorough": "series of up to 7 rows, three series, 3 variables"}


def cases(tier):
    out = []
    spec = [(["b", "a"], [4], 1), (["b", "a"], [5], 2), (["a"], [5], 3), (["b", "a"], [3, 3], 1), (["b", "a"], [3, 2], 2), (["a"], [1], 1)]
    if tier == "thorough":
        spec += [(["b", "a"], [7], 2), (["c", "a", "b"], [6], 3), (["b", "a"], [2, 3, 3], 1), (["a"], [7], 1), (["b", "a"], [4, 4], 2)]
    for n, l, p in spec:
        out.append(("lags-%d-%s-p%d" % (len(n), "+".join(map(str, l)), p), lags, dict(names=n, lengths=l, p=p), 5))
    out += [("order3", order, dict(n=3, p=1), 2), ("order4", order, dict(n=4, p=2), 3), ("reject", reject, {}, 1)]
    return out
