"""Structure models with symbolic weights, shared by the checks of StructureModel."""
from checks import env  # noqa: F401
from symx import core


def SM():
    from causalnex.structure.structuremodel import StructureModel

    return StructureModel


def choose_edges(c, names, loops=False, must=()):
    """An arbitrary directed graph on the given nodes (each ordered pair present or absent)."""
    es = []
    for u in names:
        for v in names:
            if u == v and not loops:
                continue
            if (u, v) in must or c.bool("edge-%s>%s" % (u, v)):
                es.append((u, v))
    return es


def build(c, names, edges, origins=True, extra=True):
    """StructureModel with a symbolic weight on every edge; returns it with its reference description."""
    g = SM()()
    g.add_nodes_from(names, **({"colour": "red"} if extra else {}))
    ref = {}
    for i, (u, v) in enumerate(edges):
        w = c.real("w-%s>%s" % (u, v))
        o = ["learned", "expert", "unknown"][i % 3] if origins else "unknown"
        kw = {"note": i} if extra else {}
        g.add_edge(u, v, origin=o, weight=w, **kw)
        ref[(u, v)] = dict(origin=o, weight=w, **kw)
    return g, ref


def absle(a, b):
    """|a| <= |b| without forking"""
    return core.Or(*[core.And(core.And(a * s >= 0, b * t >= 0), a * s <= b * t) for s in (1, -1) for t in (1, -1)]) if _sym(a, b) else abs(a) <= abs(b)


def _sym(*xs):
    return any(core.is_sym(x) for x in xs)


def abs_lt(a, t):
    """|a| < t without forking"""
    return core.And(a < t, -a < t) if _sym(a, t) else abs(a) < t


def same_edge(c, label, g, e, at):
    d = dict(g[e[0]][e[1]])
    c.check(label, set(d) == set(at), lambda: "attributes of %s: %r, expected %r" % (e, d, at))
    for k, v in at.items():
        c.check_eq(label, d[k], v, "%s of %s" % (k, e)) if not isinstance(v, str) else c.check(label, d[k] == v, "%s of %s: %r" % (k, e, d[k]))


def cyclic(edges):
    nodes = {n for e in edges for n in e}
    edges = set(edges)
    while True:
        srcs = [n for n in nodes if not any(v == n for _, v in edges)]
        if not srcs:
            return bool(nodes)
        nodes -= set(srcs)
        edges = {e for e in edges if e[0] in nodes}


def components(nodes, edges):
    left, out = list(nodes), []
    while left:
        comp = {left[0]}
        while True:
            more = {x for e in edges for x in e if (e[0] in comp) != (e[1] in comp)}
            if not more - comp:
                break
            comp |= more
        out.append(comp)
        left = [n for n in left if n not in comp]
    return out
