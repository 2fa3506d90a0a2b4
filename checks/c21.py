"""Fitted conditional tables are the documented estimates from the data, under the right labels."""
import itertools

from .ie_common import STATES, core, env  # noqa: F401


def _fit(c, names, edges, doms, rows, observed=None, extra=False, orders=2):
    """Data whose cells are symbolic state indices; states beyond those that occur are declared."""
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    cells = [{n: c.int("%s-%d" % (n, i), 0, len(doms[n]) - 1) for n in names} for i in range(rows)]
    vals = [{n: doms[n][int(r[n])] for n in names} for r in cells]
    order = c.choice("columns", [list(names), list(reversed(names))][:orders])
    cols = {n: [v[n] for v in vals] for n in order}
    if extra:
        cols["unused"] = ["q"] * rows
    df = pd.DataFrame(cols)
    bn = BayesianNetwork(StructureModel([(names[i], names[j]) for i, j in edges]))
    return bn, df, vals


def expected(vals, n, parents, doms, prior, combo, s):
    rows = [v for v in vals if all(v[p] == x for p, x in zip(parents, combo))]
    a = sum(1 for v in rows if v[n] == s) + prior
    b = len(rows) + prior * len(doms[n])
    return core.Fraction(1, len(doms[n])) if b == 0 else core.to_frac(a) / core.to_frac(b)


def estimate(c, names, kinds, edges, rows, methods=("MaximumLikelihoodEstimator",), plain=False):
    doms = {n: list(STATES[k]) for n, k in zip(names, kinds)}
    extra = False if plain else c.choice("unused-column", [False, True])
    bn, df, vals = _fit(c, names, edges, doms, rows, extra=extra, orders=1 if plain else 2)
    how = c.choice("method", list(methods))
    if c.choice("states-from", ["declared", "data"][plain:]) == "declared":
        bn.node_states = {n: set(d) for n, d in doms.items()}
        learn = bn.fit_cpds
    else:
        doms = {n: [s for s in doms[n] if any(v[n] == s for v in vals)] for n in names}
        learn = bn.fit_node_states_and_cpds
    kw, prior = {}, (lambda n, ps: 0)
    if how == "K2":
        kw, prior = dict(method="BayesianEstimator", bayes_prior="K2"), (lambda n, ps: 1)
    elif how == "BDeu":
        ess = c.choice("size", [1, 5])
        kw = dict(method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=ess)

        def prior(n, ps):
            k = len(doms[n])
            for p in ps:
                k *= len(doms[p])
            return core.Fraction(ess, k)
    elif c.choice("explicit", [False, True]):
        kw = dict(method=how)
    before = {x: list(df[x].values) for x in df.columns}
    res = c.no_raise("fits", lambda: learn(df, **kw))
    c.check("self", res is bn)
    c.check("data-unchanged", list(df.columns) == list(before) and all(list(df[x].values) == before[x] for x in before), "the data frame changed")
    cpds = bn.cpds
    c.check("tables", set(cpds) == set(names), lambda: "tables %r" % (list(cpds),))
    par = {names[j]: [names[i] for i, k in edges if k == j] for j in range(len(names))}
    for n in names:
        t = cpds[n]
        c.check("rows", list(t.index) == sorted(doms[n]) and t.index.name == n, lambda: "rows %r of %s" % (list(t.index), n))
        ps = list(t.columns.names) if par[n] else []
        c.check("columns", sorted(ps) == sorted(par[n]) and len(t.columns) == len(list(itertools.product(*[doms[p] for p in ps]))), lambda: "columns of %s: %r" % (n, list(t.columns)))
        for combo in itertools.product(*[doms[p] for p in ps]):
            for s in doms[n]:
                got = t[combo].loc[s] if ps else t.at[s, ""]
                c.check_eq("estimate", got, expected(vals, n, ps, doms, prior(n, ps), combo, s), "P(%s=%s|%s=%s) from %r" % (n, s, ps, combo, vals))


def symbolic(c, names, labels, edges, rows, methods=("MaximumLikelihoodEstimator",)):
    """Every cell an arbitrary state: the estimates are compared as functions of the whole data set."""
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    doms = dict(zip(names, labels))
    cells = [{n: c.int("%s-%d" % (n, i), min(doms[n]), max(doms[n])) for n in names} for i in range(rows)]
    for r in cells:
        for n in names:
            c.assume(core.Or(*[r[n] == s for s in doms[n]]) if c.symbolic else r[n] in doms[n])
    cols = list(names)[:: c.choice("columns", [1, -1])]
    df = pd.DataFrame({n: [r[n] for r in cells] for n in cols})
    bn = BayesianNetwork(StructureModel([(names[i], names[j]) for i, j in edges]))
    bn.node_states = {n: set(d) for n, d in doms.items()}
    how = c.choice("method", list(methods))
    kw, pseudo = {}, lambda k: 0
    if how == "K2":
        kw, pseudo = dict(method="BayesianEstimator", bayes_prior="K2"), lambda k: 1
    elif how == "BDeu":
        kw, pseudo = dict(method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=12), lambda k: core.Fraction(12, k)
    c.no_raise("fits", lambda: bn.fit_cpds(df, **kw))
    cpds = bn.cpds
    par = {names[j]: [names[i] for i, k in edges if k == j] for j in range(len(names))}
    for n in names:
        t = cpds[n]
        ps = list(t.columns.names) if par[n] else []
        c.check("rows", list(t.index) == sorted(doms[n]) and sorted(ps) == sorted(par[n]), lambda: "table of %s: rows %r parents %r" % (n, list(t.index), ps))
        combos = list(itertools.product(*[doms[p] for p in ps]))
        pr = pseudo(len(combos) * len(doms[n]))
        for combo in combos:
            inrow = [[r[p] == x for p, x in zip(ps, combo)] for r in cells]
            # every row has exactly one of the states, so the counts per state add up to the rows with these parents
            cnt = {s: sum(count(c, xs + [r[n] == s]) for xs, r in zip(inrow, cells)) + pr for s in doms[n]}
            tot = sum(cnt.values())
            empty = bool(tot == 0)
            for s in doms[n]:
                a = cnt[s]
                got = t[combo].loc[s] if ps else t.at[s, ""]
                c.check_eq("estimate", got * (len(doms[n]) if empty else tot), 1 if empty else a, "P(%s=%s|%s=%s)" % (n, s, ps, combo))


def count(c, conds):
    if not conds:
        return 1
    return core.indicator(core.And(*conds)) if c.symbolic else int(all(bool(x) for x in conds))


def reject(c):
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    bn = BayesianNetwork(StructureModel([("b", "a")]))
    df = pd.DataFrame({"a": [0, 1, 1], "b": [1, 0, 1]})
    first = c.choice("fitted-before", [False, True])
    if first:
        bn.fit_node_states_and_cpds(df)
    else:
        bn.fit_node_states(df)
    kw = c.choice("arguments", [dict(method="MLE"), dict(method=""), dict(method="BayesianEstimator"), dict(method="BayesianEstimator", bayes_prior="dirichlet"), dict(method="BayesianEstimator", bayes_prior="k2"), dict(method=None),
                                dict(method="BayesianEstimator", bayes_prior="BDeu ", equivalent_sample_size=5)])
    c.raises("invalid-rejected", ValueError, lambda: bn.fit_cpds(df, **kw), "%r" % (kw,))
    if first:
        c.check_eq("kept", bn.cpds["b"].at[1, ""], 2 / 3)
    else:
        c.check("kept", bn.cpds == {})


def refit(c):
    """Fitting again replaces every table."""
    doms = {"b": [0, 1], "a": ["x", "y"]}
    bn, df, vals = _fit(c, ("b", "a"), [(0, 1)], doms, 2)
    import pandas as pd

    bn.fit_node_states_and_cpds(pd.DataFrame({"b": [0, 1, 1, 1], "a": ["x", "y", "x", "y"]}))
    c.no_raise("fits", lambda: bn.fit_cpds(df))
    for s in doms["b"]:
        c.check_eq("refit", bn.cpds["b"].at[s, ""], expected(vals, "b", [], doms, 0, (), s))
        for x in doms["a"]:
            c.check_eq("refit", bn.cpds["a"][(s,)].loc[x], expected(vals, "a", ["b"], doms, 0, (s,), x))


LABELS = ["estimate", "rows", "columns", "data-unchanged", "invalid-rejected", "kept", "refit"]
ASSUMPTIONS = ["pgmpy's estimators are replaced by their definition (counts of the integer data they are handed, plus the documented pseudo-counts; a uniform column where nothing was observed); pandas by stubs/pandas"]
BOUNDS = {"quick": "networks of 2-3 nodes with 2-3 states of mixed label kinds, maximum likelihood, K2 and BDeu; every data set of 6 rows on a pair and 3 rows on a collider compared as functions of the data (integer labels), every data set of 2 rows for text, boolean and float labels",
          "thorough": "8 and 5 rows as functions of the data, 4 rows otherwise, 3-state parents"}


def cases(tier):
    th = tier == "thorough"
    allm = ("MaximumLikelihoodEstimator", "K2", "BDeu")
    out = [("pair", estimate, dict(names=("b", "a"), kinds=("str", "tri"), edges=[(0, 1)], rows=2, methods=allm), 10),
           ("pair3", estimate, dict(names=("a", "b"), kinds=("neg", "bool"), edges=[(0, 1)], rows=4 if th else 2), 10),
           ("collider", estimate, dict(names=("c", "a", "b"), kinds=("int", "str", "bool"), edges=[(0, 2), (1, 2)], rows=3 if th else 2, methods=allm if th else allm[:1]), 10),
           ("chain", estimate, dict(names=("c", "a", "b"), kinds=("float", "str", "int"), edges=[(0, 1), (1, 2)], rows=2 if th else 1), 10),
           ("sym-pair", symbolic, dict(names=("b", "a"), labels=([10, 2], [0, 5, 3]), edges=[(0, 1)], rows=8 if th else 6, methods=allm), 10),
           ("sym-collider", symbolic, dict(names=("c", "a", "b"), labels=([4, -1], [0, 1, 2], [7, 3]), edges=[(0, 2), (1, 2)], rows=5 if th else 3, methods=allm), 20),
           ("both", estimate, dict(names=("b", "a"), kinds=("str", "int"), edges=[(0, 1)], rows=4 if th else 3, methods=allm, plain=True), 5),
           ("refit", refit, {}, 1), ("reject", reject, {}, 1)]
    if th:
        out += [("collider3", estimate, dict(names=("c", "a", "b"), kinds=("tri", "str", "int3"), edges=[(0, 2), (1, 2)], rows=2), 60),
                ("fork", estimate, dict(names=("c", "a", "b"), kinds=("tri", "str", "bool"), edges=[(0, 1), (0, 2)], rows=3), 60)]
    return out
