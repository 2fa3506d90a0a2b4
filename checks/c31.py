"""Removing edges below a threshold removes exactly those."""
from .sm_common import abs_lt, build, choose_edges, core, same_edge


def threshold(c, names, loops=False, twice=False):
    es = choose_edges(c, names, loops)
    g, ref = build(c, names, es)
    for k in range(2 if twice else 1):
        t = c.real("threshold%d" % k)
        before = {e for e in ref if g.has_edge(*e)}
        c.no_raise("returns", lambda: g.remove_edges_below_threshold(t))
        c.check("nodes", list(g.nodes) == list(names) and all(g.nodes[n] == {"colour": "red"} for n in names), lambda: "nodes %r" % (list(g.nodes(data=True)),))
        c.check("no-new-edges", set(g.edges) <= before, lambda: "edges %r" % (list(g.edges),))
        for e in sorted(before):
            below = abs_lt(ref[e]["weight"], t)
            if g.has_edge(*e):
                c.check("kept-at-or-above", core.Not(below) if c.symbolic else not below, lambda: "edge %s with weight %r kept at threshold %r" % (e, ref[e]["weight"], t))
                same_edge(c, "attributes", g, e, ref[e])
            else:
                c.check("removed-below", below, lambda: "edge %s with weight %r removed at threshold %r" % (e, ref[e]["weight"], t))


LABELS = ["removed-below", "kept-at-or-above", "attributes", "nodes"]
ASSUMPTIONS = ["every edge has a real weight"]
BOUNDS = {"quick": "every directed graph on 3 nodes (self-loops on 2), arbitrary real weights and threshold; two thresholds in a row on 2 nodes",
          "thorough": "additionally 3 nodes with self-loops, two thresholds in a row on 3 nodes, 4-node graphs containing a 4-cycle"}


def cases(tier):
    out = [("three", threshold, dict(names=["b", "a", "c"]), 5), ("loops", threshold, dict(names=["b", "a"], loops=True), 2),
           ("twice", threshold, dict(names=["b", "a"], loops=True, twice=True), 3)]
    if tier == "thorough":
        out += [("three-loops", threshold, dict(names=["b", "a", "c"], loops=True), 50), ("twice3", threshold, dict(names=["b", "a", "c"], twice=True), 50)]
    return out
