"""Largest and target subgraph."""
from .sm_common import SM, build, choose_edges, components, core, same_edge


def _is_component(c, sub, comp, ref, label):
    edges = [e for e in ref if e[0] in comp]
    c.check(label, set(sub.nodes) == set(comp) and set(sub.edges) == set(edges),
            lambda: "subgraph has nodes %r edges %r; component %r has edges %r" % (list(sub.nodes), list(sub.edges), sorted(map(str, comp)), edges))
    c.check("class", type(sub) is SM(), "result is a %s" % type(sub))
    for e in edges:
        same_edge(c, "attributes", sub, e, ref[e])
    c.check("attributes", all(sub.nodes[n] == {"colour": "red"} for n in comp), lambda: "node attributes %r" % (list(sub.nodes(data=True)),))


def _touch(c, g, sub, ref, names):
    """Changing the result does not show in the model."""
    for e in list(sub.edges):
        sub[e[0]][e[1]]["weight"] = 77
        sub[e[0]][e[1]]["origin"] = "touched"
    sub.remove_nodes_from(list(sub.nodes)[:1])
    sub.add_edge("new1", "new2")
    c.check("original-unchanged", list(g.nodes) == list(names) and set(g.edges) == set(ref), lambda: "model has nodes %r edges %r" % (list(g.nodes), list(g.edges)))
    for e, at in ref.items():
        same_edge(c, "original-unchanged", g, e, at)


def largest(c, names, pool=None, loops=False):
    es = [e for e in pool if c.bool("edge-%s>%s" % e)] if pool else choose_edges(c, names, loops)
    g, ref = build(c, names, es)
    sub = c.no_raise("returns", g.get_largest_subgraph)
    if not es:
        c.check("none-without-edges", sub is None, lambda: "result %r for a graph without edges" % (sub,))
        return
    comps = components(names, es)
    count = {frozenset(k): sum(1 for e in es if e[0] in k) for k in comps}
    best = max(count.values())
    got = frozenset(sub.nodes) if sub is not None else None
    c.check("largest", got in count and count[got] == best, lambda: "result has nodes %r; components %r" % (sub and list(sub.nodes), count))
    _is_component(c, sub, got, ref, "whole-component")
    _touch(c, g, sub, ref, names)


def target(c, names, others, pool=None):
    es = [e for e in pool if c.bool("edge-%s>%s" % e)] if pool else choose_edges(c, names)
    g, ref = build(c, names, es)
    t = c.choice("target", list(names) + list(others))
    from networkx.exception import NodeNotFound

    if t not in names:
        c.raises("unknown-node-rejected", NodeNotFound, lambda: g.get_target_subgraph(t))
        return
    sub = c.no_raise("returns", lambda: g.get_target_subgraph(t))
    comp = [k for k in components(names, es) if t in k][0]
    _is_component(c, sub, comp, ref, "component-of-target")
    _touch(c, g, sub, ref, names)


LABELS = ["largest", "none-without-edges", "component-of-target", "unknown-node-rejected", "original-unchanged", "attributes"]
ASSUMPTIONS = ["ties between components with the same number of edges may be broken either way"]
_4 = ["d", "b", 1, ("t", 2)]
_5 = ["e", "d", "b", "a", "c"]
POOL4 = [("d", "b"), ("b", "d"), (1, ("t", 2)), (("t", 2), 1), ("b", 1), ("d", "d"), (1, 1)]
POOL5 = [("e", "d"), ("b", "a"), ("a", "c"), ("b", "c"), ("c", "b"), ("d", "e"), ("d", "c")]
BOUNDS = {"quick": "every directed graph on 3 nodes and every subset of two 7-edge pools on 4 and 5 nodes (several components, self-loops, mixed label types), symbolic weights",
          "thorough": "additionally every directed graph on 4 nodes"}


def cases(tier):
    out = [("largest3", largest, dict(names=["b", "a", "c"]), 3), ("largest4", largest, dict(names=_4, pool=POOL4), 5), ("largest5", largest, dict(names=_5, pool=POOL5), 5),
           ("target3", target, dict(names=["b", "a", "c"], others=["z", "B", None]), 5), ("target4", target, dict(names=_4, others=[2, "1"], pool=POOL4), 10),
           ("target5", target, dict(names=_5, others=["f"], pool=POOL5), 10)]
    if tier == "thorough":
        out.append(("largest-all4", largest, dict(names=["b", "a", "d", "c"]), 60))
        out.append(("target-all4", target, dict(names=["b", "a", "d", "c"], others=["z"]), 90))
    return out
