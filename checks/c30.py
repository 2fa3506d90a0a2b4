"""Edge origin labels along histories of operations."""
from checks import env
from symx import core

GOOD = ["unknown", "learned", "expert"]


def _sm():
    from causalnex.structure.structuremodel import StructureModel

    return StructureModel


FULL = ["-", "unknown", "learned", "expert", "Learned", "bad", ""]


def _origin(c, name, options=FULL):
    """(keyword arguments, effective label or None when invalid)"""
    o = c.choice(name, options)
    if o == "-":
        return {}, "unknown"
    return {"origin": o}, (o if o in GOOD else None)


def _same(c, sm, ref, nodes, label="labels"):
    c.check("edges", set(sm.edges) == set(ref) and sorted(sm.nodes) == sorted(nodes),
            lambda: "edges %r, expected %r; nodes %r, expected %r" % (list(sm.edges), sorted(ref), list(sm.nodes), sorted(nodes)))
    for (u, v), at in ref.items():
        d = dict(sm[u][v])
        c.check(label, d.get("origin") == at["origin"], lambda: "edge %s->%s has origin %r, expected %r" % (u, v, d.get("origin"), at["origin"]))
        for k, w in at.items():
            if k == "origin":
                continue
            c.check("attributes", k in d, "attribute %s lost on %s->%s" % (k, u, v))
            c.check_eq("attributes", d[k], w, "attribute %s of %s->%s" % (k, u, v))
    for o in GOOD + ["bad"]:
        got = list(sm.edges_with_origin(o))
        c.check("edges-with-origin", sorted(got) == sorted(e for e, at in ref.items() if at["origin"] == o), lambda: "edges_with_origin(%r) = %r for %r" % (o, got, ref))


def history(c, length, pairs, kinds, origins=None, rich=True):
    SM = _sm()
    sm, ref, nodes = SM(), {}, set()
    for step in range(length):
        kind = c.choice("op%d" % step, kinds)
        p = "s%d-" % step
        if kind in ("add_edge", "add_edges_from", "add_weighted"):
            kw, lab = _origin(c, p + "origin", (origins or {}).get(step, FULL))
            e1 = c.choice(p + "edge", pairs)
            more = kind != "add_edge" and c.choice(p + "more", [False, True])
            es = [e1] + ([x for x in pairs if x != e1][:1] if more else [])
            ws = [c.real(p + "w%d" % i) for i in range(len(es))]
            if kind == "add_edge":
                attr = {"weight": ws[0]} if c.choice(p + "weighted", [False, True]) else {}
                call = lambda: sm.add_edge(e1[0], e1[1], **kw, **attr)
                upd = [attr]
            elif kind == "add_edges_from":
                form = c.choice(p + "form", ["2-tuples", "3-tuples"])
                bunch = [tuple(e) if form == "2-tuples" else (e[0], e[1], {"weight": w}) for e, w in zip(es, ws)]
                attr = {"note": c.real(p + "note")} if rich and c.choice(p + "attr", [False, True]) else {}
                call = lambda: sm.add_edges_from(bunch, **kw, **attr)
                upd = [dict(attr, **({"weight": w} if form == "3-tuples" else {})) for w in ws]
            else:
                name = c.choice(p + "wname", ["weight", "strength"])
                bunch = [(e[0], e[1], w) for e, w in zip(es, ws)]
                call = lambda: sm.add_weighted_edges_from(bunch, **({} if name == "weight" else {"weight": name}), **kw)
                upd = [{name: w} for w in ws]
            if lab is None:
                c.raises("invalid-rejected", ValueError, call)
            else:
                c.no_raise("accepted", call)
                for e, at in zip(es, upd):
                    ref[e] = dict(ref.get(e, {}), **at, origin=lab)
                    nodes.update(e)
        elif kind == "remove":
            e = c.choice(p + "edge", pairs)
            if e in ref:
                sm.remove_edge(*e)
                del ref[e]
            else:
                return
        elif kind == "copy":
            cp = sm.copy()
            how = c.choice(p + "use", ["copy", "original"])
            other = sm if how == "copy" else cp
            if how == "copy":
                sm = cp
            c.check("class", type(cp) is SM, "copy is a %s" % type(cp))
            # touching the other one must not show
            for e in list(other.edges):
                other[e[0]][e[1]]["origin"] = "bad"
            other.add_edge("zz", "yy", origin="expert")
        elif kind == "subgraph":
            keep = c.choice(p + "keep", [("a", "b"), ("b", "c"), ("a", "b", "c")])
            sm = sm.subgraph(keep).copy()
            ref = {e: at for e, at in ref.items() if e[0] in keep and e[1] in keep}
            nodes = {n for n in nodes if n in keep}
            c.check("class", type(sm) is SM, "subgraph copy is a %s" % type(sm))
        elif kind == "reverse":
            sm = sm.reverse()
            ref = {(v, u): at for (u, v), at in ref.items()}
        elif kind == "directed":
            sm = sm.to_directed()
            c.check("class", type(sm) is SM, "to_directed gives a %s" % type(sm))
        elif kind == "undirected":
            import networkx as nx

            g = sm.to_undirected()
            c.check("class", isinstance(g, nx.Graph) and not g.is_directed(), "to_undirected gives a %s" % type(g))
            pend = {frozenset(e) for e in ref}
            c.check("edges", {frozenset(e) for e in g.edges} == pend)
        elif kind == "pickle":
            import copy

            sm = copy.deepcopy(sm)
        _same(c, sm, ref, nodes)


def construct(c):
    """A model built from existing data gives every edge the stated label."""
    import networkx as nx

    SM = _sm()
    kw, lab = _origin(c, "origin")
    form = c.choice("form", ["edges", "graph", "model", "dict", "array", "none"])
    es = [e for e in [("a", "b"), ("b", "c"), ("c", "a")] if c.bool("has-%s%s" % e)]
    ref = {e: {"origin": lab} for e in es}
    nodes = {n for e in es for n in e}
    if form == "edges":
        data = list(es)
    elif form == "graph":
        data = nx.DiGraph()
        data.add_edges_from(es, weight=c.real("w"))
    elif form == "model":
        data = SM()
        data.add_edges_from(es, origin="expert")
    elif form == "dict":
        data = {n: [v for u, v in es if u == n] for n in "abc"}
        nodes = set("abc")
    elif form == "array":
        import numpy as np

        data = np.zeros((3, 3))
        for u, v in es:
            data["abc".index(u), "abc".index(v)] = 2.5
        ref = {("abc".index(u), "abc".index(v)): {"origin": lab} for u, v in es}
        nodes = {0, 1, 2}
    else:
        data, ref, nodes = None, {}, set()
    if lab is None:
        c.raises("invalid-rejected", ValueError, lambda: SM(data, **kw))
        return
    sm = c.no_raise("accepted", lambda: SM(data, **kw))
    _same(c, sm, ref, nodes)
    if form == "model":
        c.check("source-unchanged", all(data[u][v]["origin"] == "expert" for u, v in es), "the source model's labels changed")


LABELS = ["labels", "invalid-rejected", "edges-with-origin", "attributes", "class"]
ASSUMPTIONS = ["labels are given through the origin argument (an 'origin' key in a per-edge attribute dictionary is outside the claim)"]
BOUNDS = {
    "quick": "histories of 2 operations (add_edge, add_edges_from, add_weighted_edges_from, remove, copy, subgraph, reverse, to_directed, to_undirected, deepcopy) on up to "
    "3 nodes, symbolic weights; construction from 6 input forms",
    "thorough": "histories of 3 operations",
}
ADD = ["add_edge", "add_edges_from", "add_weighted"]
OTHER = ["copy", "subgraph", "reverse", "directed", "undirected", "pickle", "remove"]


def cases(tier):
    P2, P3 = [("a", "b"), ("b", "c")], [("a", "b"), ("b", "a"), ("b", "c")]
    out = [("construct", construct, {})]
    th = tier == "thorough"
    brief = {0: ["-", "learned", "expert"], 1: ["-", "unknown", "learned", "bad"], 2: ["-", "expert", "bad"]}
    for k in ADD:
        out.append(("one-" + k, history1, dict(first=k, pairs=P3), 1))
        for j in ADD:
            out.append(("pair-%s-%s" % (k, j), history2, dict(first=k, rest=[j], pairs=P3 if th else P2, origins=None if th else brief, rich=th), 3))
        out.append(("then-" + k, history2, dict(first=k, rest=OTHER, pairs=P3 if th else P2, origins=None if th else brief, rich=th), 3))
        if th:
            for j in OTHER:
                out.append(("mid-%s-%s" % (k, j), history3, dict(first=k, mid=j, rest=ADD + ["copy", "subgraph"], pairs=P2, origins=brief, rich=False), 5))
    return out


def history1(c, first, pairs):
    history(_Fix(c, {"op0": first}), 1, pairs, [first])


def history2(c, first, rest, pairs, **kw):
    history(_Fix(c, {"op0": first}), 2, pairs, rest, **kw)


def history3(c, first, mid, rest, pairs, **kw):
    history(_Fix(c, {"op0": first, "op1": mid}), 3, pairs, rest, **kw)


class _Fix:
    def __init__(self, c, fixed):
        self._c, self._f = c, fixed

    def choice(self, name, options):
        return self._f[name] if name in self._f else self._c.choice(name, options)

    def __getattr__(self, n):
        return getattr(self._c, n)
