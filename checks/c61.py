"""Linear tabular data: every row satisfies the structural equations of the graph, for every outcome of the generator."""
from checks import env, npx
from checks import gen_common as gc
from checks.c52 import ref_features
from symx import core

import numpy as np

CONT = ["gaussian", "normal", "student-t", "gumbel", "exponential"]
BIN = ["logit", "probit", "normal"]
CAT = ["logit", "gumbel", "probit", "normal"]


def _mods():
    return npx.load("causalnex.structure.data_generators.core", "causalnex.structure.data_generators.wrappers")


def graph(c, nodes, edges, given, plain=False):
    import networkx as nx
    from causalnex.structure.structuremodel import StructureModel

    g = nx.DiGraph() if plain else StructureModel()
    g.add_nodes_from(nodes)
    w = {}
    for e in edges:
        if given is True or given and e in given:
            w[e] = c.real("w-%s>%s" % e)
            g.add_edge(*e, weight=w[e])
        else:
            w[e] = None
            g.add_edge(*e)
    return g, w


def data(c, nodes, types, edges, n, given=True, intercept=(False,), dist=None, default=None, logs=None, via="sem"):
    C, W = _mods()
    schema = dict(types)
    types = {v: types.get(v, default or "continuous") for v in nodes}
    feats = ref_features(types)
    kinds = {v: t.split(":")[0] for v, t in types.items()}
    names = [f for v in nodes for f in feats[v]]
    g, w = graph(c, nodes, edges, given, plain=c.choice("plain-graph", [False, True]) if kinds[nodes[0]] == "continuous" and len(nodes) == 2 else False)
    full = {"continuous": "gaussian", "binary": "logit", "categorical": "logit", "weight": "uniform", "intercept": "uniform", "count": 0.05}
    asked = {k: c.choice(k, v) for k, v in (dist or {}).items()}
    if "count" in kinds.values():
        asked["count"] = c.real("zero-inflation", lo=0, hi=1, default=0.25)
        if asked["count"] is not None and npx.symbolic():
            asked["count"] = Float(asked["count"])
    full.update(asked)
    icpt = c.choice("intercept", list(intercept))
    scale = c.real("noise_std", pos=True, default=0.5)
    before = (list(g.nodes), {e: dict(g.edges[e]) for e in g.edges}, dict(schema), dict(asked))
    draws = gc.Draws(c)
    with npx.source(draws), npx.logs(logs):
        if via == "sem":
            df = c.no_raise("accepted", lambda: C.sem_generator(g, schema=schema or None, **({"default_type": default} if default else {}), noise_std=scale, n_samples=n,
                                                                 distributions=asked or None, intercept=icpt, seed=7))
        else:
            fn = getattr(W, via)
            kw = dict(n_samples=n, intercept=icpt, seed=7)
            kind = list(kinds.values())[0]
            if kind == "count":
                kw["zero_inflation_factor"] = full["count"]
            else:
                kw.update(noise_scale=scale, distribution=full[kind])
            if kind == "categorical":
                kw["n_categories"] = int(default.split(":")[1])
            df = c.no_raise("accepted", lambda: fn(g, **kw))
    if isinstance(df, np.ndarray):
        c.check("columns", df.shape == (n, len(names)), lambda: "shape %r" % (df.shape,))
        X = {f: list(df[:, i]) for i, f in enumerate(names)}
    else:
        c.check("columns", sorted(df.columns) == sorted(names), lambda: "columns %r, expected %r" % (list(df.columns), names))
        c.check("columns", len(df) == n, "%d rows" % len(df))
        X = {f: list(df[f].values) for f in names}
        names = list(df.columns)
    c.check("input-unchanged", before == (list(g.nodes), {e: dict(g.edges[e]) for e in g.edges}, schema, asked), "the arguments were modified")
    gc.Check(c, draws, feats, kinds, w, X, n, scale, full, icpt, zif=full["count"], order=names).all()


class Float(core.SymReal):
    """A symbolic number which counts as a float where the code asks for its type."""

    __slots__ = ()

    def __init__(self, x):
        core.SymReal.__init__(self, x.n, x.d)

    @property
    def __class__(self):
        return float


def reject(c):
    C, W = _mods()
    which = c.choice("which", ["cycle", "continuous", "binary", "categorical", "weight", "intercept", "count", "type"])
    bad = c.choice("bad", ["", "Normal", "cauchy", "uniformly"])
    edges = [("b", "a")] + ([("a", "b")] if which == "cycle" else [])
    g, _ = graph(c, ["a", "b"], edges, given=False)
    kind = which if which in ("continuous", "binary", "count") else "categorical:2" if which == "categorical" else "continuous"
    dist = {}
    if which in ("continuous", "binary", "categorical", "weight", "intercept"):
        dist[which] = bad
    elif which == "count":
        z = c.real("zero-inflation")
        c.assume(core.Or(z < 0, z > 1))
        dist["count"] = Float(z) if npx.symbolic() else z
        if c.choice("not-a-number", [False, True]):
            dist["count"] = bad or None
    elif which == "type":
        kind = bad or "unknown"
    with npx.source(gc.Draws(c)), npx.logs(8):
        c.raises("invalid-rejected", ValueError, lambda: C.sem_generator(g, default_type=kind, n_samples=2, distributions=dist or None), "%s: %s" % (which, bad))


def repeat(c, kind, fn="sem_generator", **kw):
    """The same seed gives the same data, whatever was drawn in between."""
    C, W = _mods()
    g, _ = graph(c, ["a", "b"], [("b", "a")], given=False)
    draws = gc.Draws(c)
    real_seed = npx.R.seed

    def seed(s=None):
        if s is not None:
            draws.tag, draws.n = "seed%r-" % (s,), 0
    npx.R.seed = seed
    seed_ = c.choice("seed", [5, 1])
    try:
        out = []
        for k in range(2):
            with npx.source(draws), npx.logs(kw.get("logs", 20)):
                if k:
                    npx.R.normal(size=3)
                if fn == "sem_generator":
                    df = c.no_raise("accepted", lambda: C.sem_generator(g, default_type=kind, n_samples=2, seed=seed_))
                else:
                    df = c.no_raise("accepted", lambda: getattr(W, fn)(g, n_samples=1 if "count" in fn or "categ" in fn else 2, seed=seed_))
                out.append([list(r) for r in df] if isinstance(df, np.ndarray) else [list(df[m].values) for m in df.columns])
    finally:
        npx.R.seed = real_seed
    for a, b in zip(*out):
        for x, y in zip(a, b):
            c.check_eq("repeatable", x, y, "two calls with one seed differ")


LABELS = ["columns", "equation", "binary", "one-hot", "count", "input-unchanged", "invalid-rejected", "repeatable"]
ASSUMPTIONS = ["random draws are arbitrary numbers in the support of their distribution; unit draws of one call are distinct (almost surely)", "counts: at most 3 on a path",
               "d exp is characterised by positivity and monotonicity only", "pandas, numpy and networkx are replaced by models where numbers are symbolic"]
BOUNDS = {"quick": "2-4 variables of the listed types in several graphs and node orders, 2 rows, every documented noise distribution, arbitrary weights, scales and draws",
          "thorough": "3 rows, more mixed graphs, categorical variables with 3 categories and intercepts"}


def cases(tier):
    n = 2 if tier == "quick" else 3
    out = [
        ("continuous", data, dict(nodes=["c", "a", "b"], types={}, edges=[("a", "b"), ("b", "c"), ("a", "c")], n=2, intercept=(True, False), dist={"continuous": CONT}), 5),
        ("continuous-drawn", data, dict(nodes=["b", "a"], types={}, edges=[("a", "b")], n=n, given=False, intercept=(True,), dist={"continuous": ["gaussian", "gumbel"], "weight": ["uniform", "normal", "gaussian"], "intercept": ["uniform", "normal", "gaussian"]}), 5),
        ("partly-drawn", data, dict(nodes=["c", "b", "a"], types={"a": "continuous"}, edges=[("a", "c"), ("b", "c")], n=2, given=[("a", "c")], intercept=(True,)), 5),
        ("binary", data, dict(nodes=["b", "a"], types={}, default="binary", edges=[("a", "b")], n=n, intercept=(True,), dist={"binary": BIN}), 8),
        ("binary-mixed", data, dict(nodes=["c", "b", "a"], types={"b": "binary"}, edges=[("a", "b"), ("b", "c")], n=2, intercept=(True,)), 8),
        ("binary-rows", data, dict(nodes=["a"], types={}, default="binary", edges=[], n=3, intercept=(False,)), 8),
        ("binary-child-rows", data, dict(nodes=["b", "a"], types={"b": "binary"}, edges=[("a", "b")], n=3, intercept=(False,)), 8),
        ("categorical", data, dict(nodes=["b", "a"], types={"b": "categorical:3"}, edges=[("a", "b")], n=2, dist={"categorical": CAT}), 8),
        ("categorical-parent", data, dict(nodes=["b", "a"], types={"a": "categorical:3"}, edges=[("a", "b")], n=2, intercept=(True, False), dist={"continuous": ["gumbel"]}), 8),
        ("categorical-drawn", data, dict(nodes=["b", "a"], types={"a": "categorical:2", "b": "categorical:2"}, edges=[("a", "b")], n=1, given=False, intercept=(True,)), 8),
        ("count", data, dict(nodes=["a"], types={"a": "count"}, edges=[], n=1, intercept=(False,), logs=4), 8),
        ("count-child", data, dict(nodes=["b", "a"], types={"b": "count"}, edges=[("a", "b")], n=1, intercept=(True,), dist={"intercept": ["normal"]}, logs=4), 8),
        ("count-rows", data, dict(nodes=["a"], types={"a": "count"}, edges=[], n=2, intercept=(True,), dist={"intercept": ["normal"]}, logs=6), 8),
        ("count-parent", data, dict(nodes=["b", "a"], types={"a": "count"}, edges=[("a", "b")], n=1, intercept=(False,), logs=4), 8),
        ("repeat", repeat, dict(kind="continuous"), 2),
        ("repeat-binary", repeat, dict(kind="binary"), 2),
        ("reject", reject, {}, 2),
    ]
    for via, t in (("generate_continuous_data", "continuous"), ("generate_continuous_dataframe", "continuous"), ("generate_binary_data", "binary"), ("generate_binary_dataframe", "binary"),
                   ("generate_categorical_dataframe", "categorical:3"), ("generate_count_dataframe", "count")):
        dist = {"continuous": {"continuous": ["normal", "student-t"]}, "binary": {"binary": ["probit"]}, "categorical:3": {"categorical": ["logit", "gumbel"]}}.get(t)
        out.append((via, data, dict(nodes=["b", "a"] if t != "categorical:3" else ["a"], types={}, default=t, edges=[("a", "b")] if t != "categorical:3" else [], n=1 if t in ("count", "categorical:3") else 2, intercept=(False, True) if t.startswith('c') and t != 'count' else (True,) if via.endswith('frame') else (False,),
                                    dist=dist, logs=4, via=via), 6))
        out.append(("repeat-" + via, repeat, dict(kind=t, fn=via, logs=8), 4))
    if tier == "thorough":
        out += [
            ("four", data, dict(nodes=["d", "c", "a", "b"], types={"c": "binary"}, edges=[("a", "b"), ("b", "c"), ("c", "d"), ("a", "d")], n=2, intercept=(True,)), 20),
            ("categorical-both", data, dict(nodes=["b", "a"], types={"a": "categorical:2", "b": "categorical:3"}, edges=[("a", "b")], n=2), 20),
            ("categorical-intercept", data, dict(nodes=["b", "a"], types={"b": "categorical:3"}, edges=[("a", "b")], n=2, intercept=(True,)), 20),
            ("count-two", data, dict(nodes=["b", "a"], types={"b": "count"}, edges=[("a", "b")], n=2, intercept=(False,), logs=8), 20),
        ]
    return out
