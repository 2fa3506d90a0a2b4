"""Plotting: attributes are overlaid in the documented order and the model is not touched."""
from checks import env  # noqa: F401
from symx import core


import networkx as nx  # noqa: E402

SINK = []
nx.nx_agraph.to_agraph = lambda g: SINK[-1](g)


class _Agraph:
    def __init__(self, g):
        self.nodes_ = {n: dict(d) for n, d in g.nodes(data=True)}
        self.edges_ = {(u, v): dict(d) for u, v, d in g.edges(data=True)}
        self.graph_attr = {}
        self.layouts = []

    def layout(self, prog="neato", args=""):
        self.layouts.append(prog)


def _overlay(c, name, keys, default):
    """A dictionary over the given keys with arbitrary values, or None/empty."""
    ks = [k for k in keys if c.bool("%s-%s" % (name, k))]
    if not ks:
        return default
    return {k: c.real("v-%s-%s" % (name, k)) for k in ks}


def plot(c, nodes, edges, level):
    import causalnex.plots.plots as m
    from causalnex.structure.structuremodel import StructureModel

    made = []

    def to_agraph(g):
        made.append(_Agraph(g))
        return made[-1]

    SINK.append(to_agraph)
    sm = StructureModel()
    sm.add_nodes_from(nodes)
    sm.nodes[nodes[0]]["mine"] = c.real("mine")
    for i, (u, v) in enumerate(edges):
        sm.add_edge(u, v, origin="expert", weight=c.real("w%d" % i))
    before_n = {n: dict(d) for n, d in sm.nodes(data=True)}
    before_e = {(u, v): dict(d) for u, v, d in sm.edges(data=True)}
    styles = [dict(m.GRAPH_STYLE)] + [dict(x) for x in m.NODE_STYLE] + [dict(x) for x in m.EDGE_STYLE]
    kw = {}
    if level == "nodes":
        kw["all_node_attributes"] = _overlay(c, "alln", ["color", "label", "extra"], c.choice("none1", [None, {}]))
        per = {}
        for i, n in enumerate(nodes):
            o = _overlay(c, "n%d" % i, ["color", "extra"] if i == 0 else ["shape"], None)
            if o is not None:
                per[n] = o
        kw["node_attributes"] = per or c.choice("none2", [None, {}])
    elif level == "edges":
        kw["all_edge_attributes"] = _overlay(c, "alle", ["color", "weight", "extra"], c.choice("none1", [None, {}]))
        per = {}
        for i, e in enumerate(edges):
            o = _overlay(c, "e%d" % i, ["color", "weight"] if i == 0 else ["penwidth"], None)
            if o is not None:
                per[e] = o
        kw["edge_attributes"] = per or c.choice("none2", [None, {}])
    elif level == "all":  # every argument at once
        e1, n1 = edges[-1], nodes[-1]
        for k, o in (("all_node_attributes", _overlay(c, "alln", ["color"], None)), ("node_attributes", _overlay(c, "n", ["color"], None)),
                     ("all_edge_attributes", _overlay(c, "alle", ["color"], None)), ("edge_attributes", _overlay(c, "e", ["color"], None)), ("graph_attributes", _overlay(c, "g", ["dpi"], None))):
            kw[k] = o if o is None or k.startswith(("all", "graph")) else {n1 if k.startswith("n") else e1: o}
    else:
        kw["graph_attributes"] = _overlay(c, "g", ["bgcolor", "dpi", "extra"], c.choice("none1", [None, {}]))
        if c.bool("prog-given"):
            kw["prog"] = c.choice("prog", ["dot", "circo"])
    given = {k: (None if v is None else v if isinstance(v, str) else {a: dict(b) if isinstance(b, dict) else b for a, b in v.items()}) for k, v in kw.items()}
    out = c.no_raise("plots", lambda: m.plot_structure(sm, **kw))
    c.check("one-graph", len(made) == 1 and out is made[0])
    # reference overlay
    alln, alle = given.get("all_node_attributes") or {}, given.get("all_edge_attributes") or {}
    en = {n: dict(before_n[n], label="%s\n\n " % (n,), **{k: v for k, v in styles[2].items()}) for n in nodes}
    for n in nodes:
        en[n].update(alln)
        en[n].update((given.get("node_attributes") or {}).get(n, {}))
    ee = {}
    for e in edges:
        ee[e] = dict(before_e[e])
        ee[e].update(styles[5])
        ee[e].update(alle)
        ee[e].update((given.get("edge_attributes") or {}).get(e, {}))
    same(c, "node-attributes", out.nodes_, en)
    same(c, "edge-attributes", out.edges_, ee)
    eg = dict(styles[0])
    eg.update(given.get("graph_attributes") or {})
    same(c, "graph-attributes", {"g": out.graph_attr}, {"g": eg})
    c.check("layout", out.layouts == [kw.get("prog", "neato")], lambda: "layouts %r" % (out.layouts,))
    # nothing given was changed
    same(c, "model-unchanged", {n: dict(d) for n, d in sm.nodes(data=True)}, before_n)
    same(c, "model-unchanged", {(u, v): dict(d) for u, v, d in sm.edges(data=True)}, before_e)
    now = [dict(m.GRAPH_STYLE)] + [dict(x) for x in m.NODE_STYLE] + [dict(x) for x in m.EDGE_STYLE]
    c.check("defaults-unchanged", now == styles, "the default styles changed")
    c.check("arguments-unchanged", all((kw[k] is None) == (given[k] is None) and (kw[k] is None or isinstance(kw[k], str) or (set(kw[k]) == set(given[k]))) for k in kw), "an argument changed")


def same(c, label, got, want):
    c.check(label, list(got) == list(want), lambda: "%r, expected %r" % (list(got), list(want)))
    for k in want:
        c.check(label, set(got[k]) == set(want[k]), lambda: "%r has %r, expected %r" % (k, sorted(got[k]), sorted(want[k])))
        for a, v in want[k].items():
            if core.is_sym(v) or core.is_sym(got[k][a]):
                c.check_eq(label, got[k][a], v, "%s of %r" % (a, k))
            else:
                c.check(label, got[k][a] == v, lambda: "%s of %r is %r, expected %r" % (a, k, got[k][a], v))


def twice(c):
    """A second plot with other attributes does not see the first one's."""
    import causalnex.plots.plots as m
    from causalnex.structure.structuremodel import StructureModel

    SINK.append(_Agraph)
    sm = StructureModel([("a", "b")])
    a = c.real("first")
    first = c.choice("first-call", ["all_node_attributes", "all_edge_attributes", "node_attributes", "edge_attributes", "graph_attributes"])
    v = {"node_attributes": {"a": {"color": a, "zz": a}}, "edge_attributes": {("a", "b"): {"color": a, "zz": a}}}.get(first, {"color": a, "zz": a, "bgcolor": a})
    m.plot_structure(sm, **{first: v})
    out = c.no_raise("plots", lambda: m.plot_structure(sm))
    same(c, "no-leak", out.nodes_, {n: dict(m.NODE_STYLE.NORMAL, label="%s\n\n " % n) for n in "ab"})
    same(c, "no-leak", out.edges_, {("a", "b"): dict(m.EDGE_STYLE.NORMAL, origin="unknown")})
    c.check("no-leak", not core.is_sym(out.graph_attr["bgcolor"]) and "zz" not in out.graph_attr and isinstance(out.graph_attr["bgcolor"], str))
    c.check("no-leak", all(not isinstance(x, float) for x in [m.NODE_STYLE.NORMAL["color"], m.EDGE_STYLE.NORMAL["color"], m.GRAPH_STYLE["bgcolor"]]))


LABELS = ["node-attributes", "edge-attributes", "graph-attributes", "model-unchanged", "defaults-unchanged", "no-leak"]
ASSUMPTIONS = ["pygraphviz is replaced by a recorder of the decorated graph and the layout call"]
BOUNDS = {"quick": "3 nodes (text, integer, tuple), 2 edges, every combination of overlays over 2-3 keys with arbitrary values", "thorough": "4 nodes, 4 edges"}


def cases(tier):
    n, e = ["a", 2, ("t", 1)], [("a", 2), (2, ("t", 1))]
    if tier == "thorough":
        n, e = n + ["z"], e + [("a", "z"), (2, "z")]
    return [("nodes", plot, dict(nodes=n, edges=e, level="nodes"), 5), ("edges", plot, dict(nodes=n, edges=e, level="edges"), 5), ("graph", plot, dict(nodes=n, edges=e, level="graph"), 2), ("all", plot, dict(nodes=n, edges=e, level="all"), 3), ("twice", twice, {}, 1)]
