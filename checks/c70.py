"""DAGRegressor and DAGClassifier: predictions, probabilities and coefficients are those of the learned graph."""
from checks import env, npx
from checks import nt_common as nt
from checks import pt_common as pt
from symx import core

import numpy as np

LAB = {"text": ["no", "yes", "zz", "zzz"], "int": [5, 10, 30], "bool": [False, True], "float": [1.0, 2.0, 4.0], "dense": [0, 1, 2]}
TARGET = {"cont": [1.0, 3.0, -1.5, 2.0], "poiss": [0.0, 2.0, 1.0, 1.0]}


def mods():
    return npx.load("causalnex.structure.pytorch.sklearn", "causalnex.structure.pytorch.sklearn._base", "causalnex.structure.pytorch.sklearn.clf")[0]


def col_names(kind, d):
    return list(range(d)) if kind.startswith("array") else pt.NAMES[:d]


def make_X(kind, types, rows=4, ints=False):
    import pandas as pd

    X = pt.data(types, rows)
    if ints:
        X = np.array([[int(round(2 * v)) if t == "cont" else int(v) for v, t in zip(r, types)] for r in X.tolist()])
    if kind.startswith("array"):
        return X
    df = pd.DataFrame({m: X[:, j].tolist() for j, m in enumerate(pt.NAMES[:len(types)])})
    if kind == "frame-shifted":
        df.index = [3, 0, 2, 1][:rows]
    return df


def make_y(kind, vals):
    import pandas as pd

    if kind.startswith("array"):
        return np.array(vals)
    s = pd.Series(list(vals), name={"series": "y", "series-shifted": "y", "series-same": "y", "series-unnamed": None}[kind])
    if kind == "series-same":
        s.index = [3, 0, 2, 1][:len(vals)]
    if kind == "series-shifted":
        s.index = [2, 3, 1, 0][:len(vals)]
    return s


def target_name(ykind):
    return "y" if ykind in ("series", "series-shifted", "series-same") else "__target"


def labels_of(lab, n, rows=4):
    return [LAB[lab][k] for k in {2: (0, 1, 1, 1), 3: (2, 0, 1, 2), 4: (2, 0, 3, 1)}[n]][:rows]


def setup(c, est, types, ttype, kind="frame", ykind="series", lab="text", n=2, ints=False, schema=True, some=None, explicit=True, **kw):
    S = mods()
    cols = col_names(kind, len(types))
    X = make_X(kind, types, ints=ints)
    raw = TARGET[ttype] if est == "reg" else labels_of(lab, n)
    y = make_y(ykind, raw)
    if schema:
        kw["dist_type_schema"] = {cols[j]: t[:3] if t == "cat2" else t for j, t in enumerate(types)}
    if ttype not in ("cont",) and explicit:
        kw["target_dist_type"] = ttype
    m = (S.DAGRegressor if est == "reg" else S.DAGClassifier)(max_iter=1, **kw)
    return m, X, y, raw, cols


def node_names(g, types, cols, tname, ttype, n):
    """Names of the nodes of each column: further categories are numbered."""
    out = {j: [nm] for j, nm in enumerate(cols + [tname])}
    for j, t in enumerate(list(types) + [ttype]):
        if t.startswith("cat"):
            k = n if j == len(types) else len(set(pt.data(types, 4)[:, j]))
            out[j] += ["%s%d" % (out[j][0], i) for i in range(1, k)]
    return out, sorted(map(str, g.nodes)) == sorted(str(v) for x in out.values() for v in x)


def fresh_rows(c, types, ints, rows=2, sym=True):
    """Rows to predict for: continuous values arbitrary, others any known value."""
    out = []
    for i in range(rows):
        r = []
        for j, t in enumerate(types):
            if t == "cont":
                r.append(int(3 * i + j - 1) if ints else (c.real("p%d.%d" % (i, j), default=0.25 * (i - j)) if sym else 0.5 * i - 0.75 * j))
            elif t == "poiss":
                r.append(float(3 * i))
            else:
                vals = sorted(pt.CATS[t])
                r.append(vals[(i + 1 + j) % len(vals)])
        out.append(r)
    return out


def frame_of(kind, rows, cols):
    import pandas as pd

    if kind.startswith("array"):
        flat = [v for r in rows for v in r]
        A = nt.arr(flat) if any(core.is_sym(v) for v in flat) else np.array(flat)
        return A.reshape(len(rows), len(cols))
    df = pd.DataFrame({m: [r[j] for r in rows] for j, m in enumerate(cols)})
    if kind == "frame-shifted":
        df.index = [7, 3][:len(rows)]
    return df


def predict(c, est, types, ttype, kind="frame", ykind="series", lab="text", n=2, ints=False, standardize=False, intercept=True, sym=True, some=None, schema=True, two=False, explicit=True):
    m, X, y, raw, cols = setup(c, est, types, ttype, kind, ykind, lab, n, ints, schema=schema, explicit=explicit, standardize=standardize, fit_intercept=intercept)
    tname = target_name(ykind)
    Xb, yb = copy_of(X), copy_of(y)
    d = len(types)
    with pt.Run(c, opaque=True, some=some, rest=0.0, on_call=linked if ttype != "cont" or len(types) > 2 or "cat" in types else None):
        m.fit(X, y)
        if two:  # a second fit replaces the first
            with pt.Run(c, opaque=True, some=some):
                m.fit(X, y)
        same(c, "fit-unchanged", X, Xb)
        same(c, "fit-unchanged", y, yb)
        new = fresh_rows(c, types, ints, sym=sym)
        P = frame_of(kind, new, cols)
        Pb = copy_of(P)
        pred = m.predict(P)
        same(c, "predict-unchanged", P, Pb)
        proba = m.predict_proba(P) if est == "clf" else None
    g = m.graph_
    groups, ok = node_names(g, types, cols, tname, ttype, n)
    c.check("nodes", ok, "nodes %r" % (list(g.nodes),))
    T = groups[d]
    train = pt.data(types, 4)
    if ints:
        train = make_X("array", types, ints=True).astype(float)
    # the features as the model sees them
    E = []
    for r in new:
        e = {}
        for j, t in enumerate(types):
            v = r[j]
            if t == "cont" and standardize:
                mu, sd = float(np.mean(train[:, j])), float(np.std(train[:, j]))
                e[groups[j][0]] = (v - mu) / sd
            elif t == "ord":
                e[groups[j][0]] = float(sorted(set(train[:, j])).index(v))
            elif t.startswith("cat"):
                for k, u in enumerate(sorted(set(train[:, j]))):
                    e[groups[j][k]] = 1.0 if u == v else 0.0
            else:
                e[groups[j][0]] = v
        E.append(e)
    Z = [[(g.nodes[k]["bias"] if intercept else 0) + sum(g.edges[u, k]["mean_effect"] * e[u] for u in e if g.has_edge(u, k)) for k in T] for e in E]
    c.check("shape", np.shape(pred) == (len(new),), "prediction of shape %r" % (np.shape(pred),))
    if est == "reg":
        mu, sd = float(np.mean(raw)), float(np.std(raw))
        for i, z in enumerate(Z):
            want = z[0] if ttype == "cont" else pt.exp(z[0])
            if ttype == "cont" and standardize:
                want = want * sd + mu
            c.check_eq("prediction", pred[i], want, "row %d" % i)
        return
    classes = sorted(set(raw))
    c.check("classes", list(m.classes_) == classes, "classes %r" % (list(m.classes_),))
    c.check("shape", np.shape(proba) == (len(new), n), "probabilities of shape %r" % (np.shape(proba),))
    for i, z in enumerate(Z):
        if ttype == "bin":
            p = pt.sigmoid(z[0])
            want = [1 - p, p]
        elif ttype == "cat":
            ex = [pt.exp(v) for v in z]
            want = [v / sum(ex) for v in ex]
        else:
            cum = [sum(1 for v in raw if v <= k) / len(raw) for k in classes[:-1]]
            sg = [pt.sigmoid(float(np.log(q / (1 - q))) - z[0]) for q in cum] + [1]
            want = [sg[0]] + [sg[k] - sg[k - 1] for k in range(1, n)]
        for k in range(n):
            c.check_eq("probability", proba[i, k], want[k], "row %d, class %r" % (i, classes[k]))
        c.check("known-class", pred[i] in classes, "class %r" % (pred[i],))
        k = classes.index(pred[i])
        for j in range(n):
            if j != k:
                c.check("most-probable", proba[i, k] >= proba[i, j], "row %d: %r predicted, %r is more probable" % (i, classes[k], classes[j]))


def linked(f, g, x, fr, k):
    """Weights other than zero (a dropped edge leaves the functions of the prediction written with its weight)."""
    for i in fr:
        if core.is_sym(x[i]):
            core.CTX.assume(x[i] != 0)


def copy_of(X):
    return X.copy()


def same(c, label, X, Y):
    import pandas as pd

    a, b = np.asarray(X.values if hasattr(X, "values") else X), np.asarray(Y.values if hasattr(Y, "values") else Y)
    c.check(label, a.shape == b.shape and all(u is v or npx_eq(u, v) for u, v in zip(a.ravel().tolist(), b.ravel().tolist())), "the argument was modified")
    if isinstance(X, (pd.DataFrame, pd.Series)):
        c.check(label, list(X.index) == list(Y.index), "the index of the argument was modified")


def npx_eq(u, v):
    if core.is_sym(u) or core.is_sym(v):
        return core.is_sym(u) and core.is_sym(v) and (u.n - v.n).is_zero()
    return u == v


def coefs(c, est, types, ttype, kind="frame", ykind="series", lab="text", n=2, intercept=True, dependent=True, threshold=False, enforce=False, tabu=None, some=None):
    """coef_, feature_importances_ and intercept_ are read off the learned graph, position by position."""
    d = len(types)
    cols = col_names(kind, d)
    tname = target_name(ykind)
    kw = dict(fit_intercept=intercept, dependent_target=dependent, enforce_dag=enforce)
    if threshold:
        kw["threshold"] = 0.25
    if tabu == "parents":
        kw["tabu_parent_nodes"] = [cols[0]]
    elif tabu == "edges":
        kw["tabu_edges"] = [(cols[0], tname), (cols[0], cols[1])] if d > 1 else [(cols[0], tname)]
    elif tabu == "children":
        kw["tabu_child_nodes"] = [cols[-1]]
    m, X, y, raw, cols = setup(c, est, types, ttype, kind, ykind, lab, n, **kw)
    arg = list(kw["tabu_parent_nodes"]) if tabu == "parents" else None
    schema = dict(m.dist_type_schema)
    with pt.Run(c, opaque=True, some=some):
        m.fit(X, y)
    g = m.graph_
    groups, ok = node_names(g, types, cols, tname, ttype, n)
    c.check("nodes", ok, "nodes %r" % (list(g.nodes),))
    c.check("arguments", dict(m.dist_type_schema) == schema and (arg is None or m.tabu_parent_nodes == arg), "an argument of the model was modified")
    T = groups[d]
    src = [groups[j][0] for j in range(d)]
    rows = T if est == "clf" and n > 2 and ttype == "cat" else T[:1]  # an ordinal target is one node
    for label, got, data in (("coef", m.coef_, "mean_effect"), ("importances", m.feature_importances_, "weight")):
        got = np.asarray(got)
        A = got.reshape(1, -1) if est == "reg" else got
        c.check(label, got.ndim == (1 if est == "reg" else 2) and A.shape[0] == len(rows) and A.shape[1] >= d and (A.shape[1] == d or any(t.startswith("cat") for t in types)), "%s has shape %r" % (label, got.shape))
        for i, t in enumerate(rows):
            for j, u in enumerate(src):
                want = g.edges[u, t][data] if g.has_edge(u, t) else 0
                c.check_eq(label, A[i, j], want, "%s of %r for %r" % (label, u, t))
            if A.shape[1] > d:
                rest = [v for j in range(d) for v in groups[j][1:]]
                c.check(label, A.shape[1] == d + len(rest), "%s has %d columns" % (label, A.shape[1]))
                for j, u in enumerate(rest):
                    want = g.edges[u, t][data] if g.has_edge(u, t) else 0
                    c.check_eq(label, A[i, d + j], want, "%s of %r for %r" % (label, u, t))
    b = m.intercept_
    b = [b] if est == "reg" else list(b)
    c.check("intercept", len(b) == len(rows), "%d intercepts" % len(b))
    for v, t in zip(b, rows):
        c.check_eq("intercept", v, g.nodes[t]["bias"] if intercept else 0, "intercept of %r" % (t,))
    # constraints
    for t in T:
        if dependent:
            c.check("dependent-target", not list(g.successors(t)), "the target is a parent of %r" % (list(g.successors(t)),))
        if tabu == "edges":
            c.check("tabu", not any(g.has_edge(u, t) for u in groups[0]), "tabu edge")
        if tabu == "parents":
            c.check("tabu", not any(list(g.successors(u)) for u in groups[0]), "tabu parent")
        if tabu == "children":
            c.check("tabu", not any(list(g.predecessors(u)) for u in groups[d - 1]), "tabu child")
    if enforce:
        from checks import sm_common as sc

        c.check("dag", not sc.cyclic(list(g.edges)), "cyclic although a DAG is to be enforced")
    if threshold:
        c.check("threshold", core.all_(abs(w) >= 0.25 for _, _, w in g.edges(data="weight")) if hasattr(core, "all_") else all(bool(abs(w) >= 0.25) for _, _, w in g.edges(data="weight")), "edge below the threshold")


def aligned(c, est, kind, ykind, standardize=False):
    """Features and targets belong together by position, whatever their index labels are."""
    vals = []
    types = ["cont"]
    for k, yk in (("array", "array"), (kind, ykind)):
        m, X, y, raw, cols = setup(c, est, types, "cont" if est == "reg" else "bin", k, yk, standardize=standardize)
        got = {}

        def on_call(f, g, x, fr, k_):
            got["f"] = exactly(f, x)

        with pt.Run(c, on_call=on_call, opaque=True):
            m.fit(X, y)
        vals.append(got["f"])
    c.check_eq("aligned", vals[1], vals[0], "the data fitted")


def exactly(f, x):
    """The objective with every number read off the model on the way."""
    import torch

    hook, torch.ITEM[0] = torch.ITEM[0], None
    try:
        return f(x)
    finally:
        torch.ITEM[0] = hook


def same_fit(c, est, ttype, hidden=None, standardize=False, bounds=True):
    """`fit` learns what `notears.from_pandas` learns from the table of features and (encoded) target."""
    import pandas as pd

    types = ["cont", "bin"]
    opts = dict(alpha=0.5, beta=0.25, fit_intercept=not hidden, tabu_edges=[("b", "a")], tabu_child_nodes=["a"], tabu_parent_nodes=["a"], hidden_layer_units=hidden)
    n = 2 if ttype == "bin" else 3
    m, X, y, raw, cols = setup(c, est, types, ttype, n=n, **opts)
    classes = sorted(set(raw))
    T = X.copy()
    T["y"] = raw if est == "reg" else [classes.index(v) for v in raw]
    N = npx.load("causalnex.structure.pytorch.notears")
    seen = []

    def on_call(f, g, x, fr, k):
        seen.append((exactly(f, x), None, list(fr)))

    with pt.Run(c, on_call=on_call, opaque=True, some=SOME if hidden else None):
        m.fit(X, y)
    with pt.Run(c, on_call=on_call, opaque=True, some=SOME if hidden else None):
        N.from_pandas(T, dist_type_schema={"b": "cont", "a": "bin", "y": ttype}, lasso_beta=0.5, ridge_beta=0.25, use_bias=not hidden, hidden_layer_units=hidden, max_iter=1,
                      tabu_edges=[("b", "a")], tabu_child_nodes=["a"], tabu_parent_nodes=["a", "y"])
    c.check("same-fit", seen[0][2] == seen[1][2], "free weights %r, of from_pandas %r" % (seen[0][2], seen[1][2]))
    c.check_eq("same-fit", seen[0][0], seen[1][0], "objective of the fit")


def errors(c, est):
    from sklearn.exceptions import NotFittedError

    S = mods()
    C = S.DAGRegressor if est == "reg" else S.DAGClassifier
    bad = c.choice("bad", ["alpha", "beta", "fit_intercept", "threshold", "target", "unfitted", "unfitted-edges", "one-class", "rows", "nan"])
    X, y = make_X("frame", ["cont", "cont"]), make_y("series", TARGET["cont"] if est == "reg" else labels_of("text", 2))
    if bad in ("alpha", "beta", "fit_intercept", "threshold"):
        v = c.choice("v", ["0.1", None, [0.1]]) if bad != "fit_intercept" else c.choice("v", ["yes", 1, None])
        c.raises("type-error", TypeError, lambda: C(**{bad: v}), "%s=%r" % (bad, v))
    elif bad == "target":
        v = c.choice("v", ["cat", "bin", "ord", "unknown"] if est == "reg" else ["cont", "poiss", "unknown"])
        c.raises("not-implemented", NotImplementedError, lambda: C(target_dist_type=v), "target type %r" % v)
    elif bad == "unfitted":
        c.raises("not-fitted", NotFittedError, lambda: C().predict(X), "predict")
    elif bad == "unfitted-edges":
        c.raises("not-fitted", NotFittedError, lambda: C().get_edges_to_node("a"), "get_edges_to_node")
    elif bad == "one-class":
        if est == "reg":
            raise core.PathEnd()
        c.raises("one-class", ValueError, lambda: C().fit(X, make_y("series", ["no"] * 4)), "one class")
    elif bad == "rows":
        c.raises("lengths", ValueError, lambda: C().fit(X, make_y("series", (TARGET["cont"] if est == "reg" else labels_of("text", 2))[:3])), "lengths")
    else:
        Z = np.array(pt.data(["cont", "cont"], 4))
        Z[1, 0] = np.nan
        c.raises("nan", ValueError, lambda: C().fit(Z, np.array(TARGET["cont"] if est == "reg" else [0, 1, 0, 1])), "nan")


SOME = (1, 2, 3, 5, 7, 8, 11, 13, 14, 17)

LABELS = ["nodes", "prediction", "probability", "known-class", "most-probable", "classes", "shape", "coef", "importances", "intercept", "dependent-target", "tabu", "dag", "threshold", "aligned", "same-fit", "fit-unchanged", "predict-unchanged", "arguments",
          "type-error", "not-implemented", "not-fitted", "one-class", "lengths", "nan"]
ASSUMPTIONS = [
    "the optimiser returns an arbitrary point within its bounds (with discrete targets, ordinal or categorical features: with nonzero weights)",
    "exp and sigmoid are uninterpreted functions; numbers are real",
    "the acyclicity measure read during the optimisation is arbitrary",
    "features and targets are the finite columns listed; the rows to predict for are arbitrary in their continuous columns unless categories are involved",
    "models of pandas, scikit-learn and PyTorch stand in for the libraries",
]
BOUNDS = {"quick": "linear models; up to 3 features of the five distribution types, 4 rows, targets of all types (2 to 4 classes), 2 new rows, frames and arrays, 5 kinds of labels; one optimiser call",
          "thorough": "as quick, with every pair of feature types for every type of target and 3 features"}


def cases(tier):
    out = []
    deep = tier == "thorough"
    A = lambda name, *a: out.append((name,) + a)
    for st in (False, True):
        s = "-std" if st else ""
        A("reg" + s, predict, dict(est="reg", types=["cont", "cont"], ttype="cont", standardize=st), 5)
        A("reg-array" + s, predict, dict(est="reg", types=["cont", "cont"], ttype="cont", kind="array", ykind="array", standardize=st, schema=False), 5)
        A("reg-ints" + s, predict, dict(est="reg", types=["cont", "cont"], ttype="cont", kind="array", ykind="array", ints=True, standardize=st, schema=False), 5)
        A("reg-mixed" + s, predict, dict(est="reg", types=["bin", "cont", "ord"], ttype="cont", standardize=st, sym=False), 8)
        A("reg-cat" + s, predict, dict(est="reg", types=["cont", "cat"], ttype="cont", standardize=st, sym=False), 8)
        A("reg-poiss" + s, predict, dict(est="reg", types=["cont", "poiss"], ttype="poiss", standardize=st), 5)
        A("clf-bin" + s, predict, dict(est="clf", types=["cont", "bin"], ttype="bin", standardize=st), 5)
        A("clf-cat" + s, predict, dict(est="clf", types=["cont"], ttype="cat", n=3, standardize=st, sym=False), 8)
        A("clf-ord" + s, predict, dict(est="clf", types=["cont"], ttype="ord", n=3, standardize=st), 5)
    for lab in ("text", "int", "bool", "float", "dense"):
        for yk in ("array", "series", "series-unnamed"):
            A("labels-%s-%s" % (lab, yk), predict, dict(est="clf", types=["cont"], ttype="bin", lab=lab, kind="array" if yk == "array" else "frame", ykind=yk, sym=False), 3)
    A("labels-3", predict, dict(est="clf", types=["cont"], ttype="cat", lab="int", n=3, ykind="array", sym=False), 8)
    for n in (2, 3):
        A("default-type-%d" % n, predict, dict(est="clf", types=["cont"], ttype="bin" if n == 2 else "cat", n=n, explicit=False, sym=False), 5)
    A("clf-ord-4", predict, dict(est="clf", types=["cont"], ttype="ord", n=4), 5)
    A("clf-ord-2", predict, dict(est="clf", types=["cont"], ttype="ord", n=2), 5)
    for est, tt in (("reg", "cont"), ("reg", "poiss"), ("clf", "bin"), ("clf", "cat"), ("clf", "ord")):
        for hid in (None, [1]):
            A("same-fit-%s%s" % (tt, "-hidden" if hid else ""), same_fit, dict(est=est, ttype=tt, hidden=hid), 5)
    A("refit", predict, dict(est="reg", types=["cont"], ttype="cont", two=True), 3)
    A("coef-reg", coefs, dict(est="reg", types=["cont", "cont"], ttype="cont", tabu="parents"), 5)
    A("coef-reg-thr", coefs, dict(est="reg", types=["cont", "cont"], ttype="cont", threshold=True, tabu="children"), 5)
    A("coef-reg-cat", coefs, dict(est="reg", types=["cat", "cont"], ttype="cont"), 5)
    A("coef-reg-array", coefs, dict(est="reg", types=["cont", "bin"], ttype="cont", kind="array", ykind="array", tabu="edges"), 5)
    A("coef-dag", coefs, dict(est="reg", types=["cont"], ttype="cont", dependent=False, enforce=True, intercept=False), 5)
    A("coef-dag-thr", coefs, dict(est="reg", types=["cont"], ttype="cont", dependent=False, enforce=True, threshold=True), 8)
    A("coef-dag-2", coefs, dict(est="reg", types=["cont", "cont"], ttype="cont", enforce=True), 5)
    A("coef-clf", coefs, dict(est="clf", types=["cont", "ord"], ttype="bin", tabu="edges"), 5)
    A("coef-clf-cat", coefs, dict(est="clf", types=["cont"], ttype="cat", n=3), 8)
    A("coef-clf-cat-cat", coefs, dict(est="clf", types=["cat2"], ttype="cat", n=3, intercept=False), 8)
    A("coef-clf-ord", coefs, dict(est="clf", types=["cont"], ttype="ord", n=3), 5)
    for est in ("reg", "clf"):
        for kind, yk in (("frame-shifted", "array"), ("array", "series-shifted"), ("frame-shifted", "series-same"), ("frame", "series")):
            A("aligned-%s-%s-%s" % (est, kind, yk), aligned, dict(est=est, kind=kind, ykind=yk), 3)
        A("errors-" + est, errors, dict(est=est), 3)
    if deep:
        for a in ("cont", "bin", "ord", "cat", "poiss"):
            for b in ("cont", "ord", "cat2"):
                for est, tt, n in (("reg", "cont", 0), ("reg", "poiss", 0), ("clf", "bin", 2), ("clf", "ord", 3), ("clf", "cat", 3)):
                    nm = "%s-%s-%s" % (tt, a, b)
                    if tt != "cat":
                        A("pred-" + nm, predict, dict(est=est, types=[a, b], ttype=tt, n=n, sym=False, some=SOME), 8)
                    A("coef-" + nm, coefs, dict(est=est, types=[a, b], ttype=tt, n=n, some=SOME), 8)
    return out
