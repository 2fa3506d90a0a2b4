"""Pruning until acyclic: an acyclic result reached by giving up only the weakest edges."""
from .sm_common import absle, build, choose_edges, core, cyclic, same_edge


def prune(c, names, loops=False, must=(), fixed=None):
    es = fixed or choose_edges(c, names, loops, must)
    g, ref = build(c, names, es)
    c.no_raise("returns", g.threshold_till_dag)
    kept = [e for e in es if g.has_edge(*e)]
    gone = [e for e in es if not g.has_edge(*e)]
    c.check("nothing-added", set(g.edges) == set(kept) and list(g.nodes) == list(names), lambda: "edges %r nodes %r" % (list(g.edges), list(g.nodes)))
    c.check("acyclic", not cyclic(kept), lambda: "remaining edges %r contain a cycle" % (kept,))
    for e in kept:
        same_edge(c, "attributes", g, e, ref[e])
    for e in gone:
        for f in kept:
            c.check("weakest-first", absle(ref[e]["weight"], ref[f]["weight"]), lambda: "%s (weight %r) removed while %s (weight %r) was kept" % (e, ref[e]["weight"], f, ref[f]["weight"]))
    if gone:
        # some strongest removed edge closes a cycle with what was kept: no removal after the graph became acyclic
        need = []
        for e in gone:
            if cyclic(kept + [e]):
                need.append(core.And(*[absle(ref[f]["weight"], ref[e]["weight"]) for f in gone if f != e]) if len(gone) > 1 else True)
        c.check("not-more-than-needed", any(x is True for x in need) or (core.Or(*need) if need else False), lambda: "removed %r, kept %r" % ([(e, ref[e]["weight"]) for e in gone], [(e, ref[e]["weight"]) for e in kept]))


LABELS = ["acyclic", "weakest-first", "not-more-than-needed", "attributes"]
ASSUMPTIONS = ["every edge has a real weight; ties between equal absolute weights may be broken either way"]
BOUNDS = {"quick": "every directed graph on 3 nodes (self-loops on 2 nodes) with arbitrary real weights, and a 4-node graph with two overlapping cycles",
          "thorough": "additionally 3 nodes with self-loops up to 6 edges, larger 4- and 5-node graphs"}


def few(c, names, k, loops=False):
    es = choose_edges(c, names, loops)
    if len(es) > k:
        raise core.PathEnd()
    prune(c, names, fixed=es) if es else None


def cases(tier):
    th = tier == "thorough"
    n4 = ["d", "b", "a", "c"]
    c4 = [("a", "b"), ("b", "c"), ("c", "a"), ("c", "d"), ("d", "b")]
    out = [("three", few, dict(names=["b", "a", "c"], k=6 if th else 5), 30), ("loops", prune, dict(names=["b", "a"], loops=True), 2),
           ("overlap4", prune, dict(names=n4, fixed=c4), 5)]
    if th:
        out += [("three-loops", few, dict(names=["b", "a", "c"], k=5, loops=True), 60),
                ("four", prune, dict(names=n4, fixed=c4 + [("a", "d")]), 20),
                ("two-cycles", prune, dict(names=n4, fixed=[("a", "b"), ("b", "a"), ("c", "d"), ("d", "c"), ("a", "c")]), 20),
                ("five", prune, dict(names=n4 + ["e"], fixed=[("a", "b"), ("b", "c"), ("c", "d"), ("d", "e"), ("e", "a"), ("c", "a")]), 30)]
    return out
