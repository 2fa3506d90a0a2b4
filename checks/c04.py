"""Queries are repeatable: no history of queries, rejected queries or samples changes a later answer or the caller's objects."""
import copy

from symx import core
from .bbn_common import build, check_query, choose_evidence, ebay, make_net, names_of
from .rng import symbolic_rng
from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError


def snapshot(bn):
    return {
        "nodes": [n.name for n in bn.nodes],
        "variables": [n.variable_name for n in bn.nodes],
        "parents": {n.name: [p.name for p in n.parents] for n in bn.nodes},
        "children": {n.name: [p.name for p in n.children] for n in bn.nodes},
        "domains": {k: sorted(map(str, v)) for k, v in bn.domains.items()},
    }


def history(c, names, doms, steps, how, edges=None):
    net = make_net(c, names, doms, edges)
    conds = net.conditionals()
    frozen = copy.deepcopy(conds)
    bn = ebay.build_bbn_from_conditionals(conds) if how == "conditionals" else build(c, net, how)
    before = snapshot(bn)
    first = None
    for k in range(steps):
        op = c.choice("step%d" % k, ["query", "bad-variable", "bad-value", "sample"])
        if op == "query":
            ev = choose_evidence(c, net, tag=str(k), hi=1)
            mine = dict(ev)
            res = bn.query(**ev)
            c.check("evidence-unchanged", ev == mine, "the caller's evidence %r became %r" % (mine, ev))
            res.clear()  # the caller owns the result
        elif op == "sample":
            with symbolic_rng(c, "s%d" % k):
                q = {names[0]: net.doms[names[0]][0]}
                mine = dict(q)
                s = bn.draw_samples(q, n=1)
                c.check("evidence-unchanged", q == mine, "the caller's evidence %r became %r" % (mine, q))
                s[0].clear()
        else:
            try:
                bn.query(**({"zz": True} if op == "bad-variable" else {names[0]: "?"}))
            except (VariableNotInGraphError, VariableValueNotInDomainError):
                pass
    ev = choose_evidence(c, net, tag="-last", hi=1)
    res = c.no_raise("later-query-returns", lambda: bn.query(**ev))
    check_query(c, net, res, ev, "later-answer")
    c.check("network-unchanged", snapshot(bn) == before, "network changed: %r, was %r" % (snapshot(bn), before))
    if how == "conditionals":
        same = set(conds) == set(frozen) and all(_same_rows(conds[k], frozen[k]) for k in frozen)
        c.check("tables-unchanged", same, "the caller's tables were modified")


def _same_rows(a, b):
    if len(a) != len(b):
        return False
    for (g1, p1), (g2, p2) in zip(a, b):
        if [list(x) for x in g1] != [list(x) for x in g2] or list(p1) != list(p2):
            return False
        if any(not _same(p1[k], p2[k]) for k in p1):
            return False
    return True


def _same(x, y):
    return x is y or bool(x == y)


def two_networks(c, names, doms):
    """Two networks over the same names do not influence each other."""
    e1 = [(0, 1)]
    net1 = make_net(c, names, doms, e1)
    bn1 = build(c, net1, "conditionals")

    class C2:
        pass

    names2 = names[::-1]
    net2 = make_net(_Prefixed(c, "second."), names2, doms[::-1], [(0, 1)])
    bn2 = build(c, net2, c.choice("how2", ["conditionals", "functions"]))
    ev2 = choose_evidence(c, net2, tag="-2")
    bn2.query(**ev2)
    ev = choose_evidence(c, net1, tag="-1")
    res = bn1.query(**ev)
    check_query(c, net1, res, ev, "later-answer")
    check_query(c, net2, bn2.query(), {}, "later-answer")


def two_networks_sampling(c, names, doms, edges, zeros):
    """Sampling one network leaves no trace in the samples of another over the same variables."""
    from .c05 import check_samples

    net1 = make_net(c, names, doms, edges, zeros)
    net2 = make_net(_Prefixed(c, "second."), names, doms, edges, zeros)
    bn1, bn2 = build(c, net1, "conditionals"), build(c, net2, "conditionals")
    with symbolic_rng(c, "other"):
        (bn2 if c.choice("other", [True, False]) else bn1).draw_samples(n=1)
    with symbolic_rng(c) as draws:
        samples = c.no_raise("later-query-returns", lambda: bn1.draw_samples(n=1))
    check_samples(c, net1, {}, samples, draws, 1)


class _Prefixed:
    """Context view that prefixes the names of inputs."""

    def __init__(self, c, p):
        self._c, self._p = c, p

    def real(self, name, **k):
        return self._c.real(self._p + name, **k)

    def choice(self, name, o):
        return self._c.choice(self._p + name, o)

    def define_simplex(self, e):
        return self._c.define_simplex(e)


LABELS = ["exact-conditional", "later-answer", "network-unchanged", "tables-unchanged", "evidence-unchanged"]
ASSUMPTIONS = ["probabilities are real, positive numbers", "the random source returns arbitrary reals in [0,1) and arbitrary picks"]
BOUNDS = {
    "quick": "histories of 2 operations (query with up to 1 evidence variable, rejected query, sample draw) before a checked query, chain, collider and "
    "disconnected 3-variable networks; pairs of networks over the same names (queries and samples)",
    "thorough": "histories of 3 operations on the same networks and every 2-variable network",
}


def cases(tier):
    out = []
    k = 3 if tier == "thorough" else 2
    for how in ("conditionals", "functions"):
        out.append(("pair-" + how, history, dict(names=("b", "a"), doms=("bool", "str"), steps=k, how=how), 5))
        out.append(("chain-" + how, history, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), steps=k - 1, how=how, edges=[(0, 1), (1, 2)]), 5))
        out.append(("collider-" + how, history, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), steps=k - 1, how=how, edges=[(0, 2), (1, 2)]), 5))
        out.append(("split-" + how, history, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), steps=k - 1, how=how, edges=[(0, 1)]), 5))
    out.append(("two-networks", two_networks, dict(names=("a", "b"), doms=("bool", "str"))))
    out.append(("two-networks-sampling", two_networks_sampling, dict(names=("b", "a"), doms=("bool", "str"), edges=[(0, 1)], zeros=0 if k == 2 else 2), 20))
    return out
