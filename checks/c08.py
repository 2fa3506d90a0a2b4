"""Answers do not depend on internal arbitrary choices: root clique, elimination order, set iteration order."""
from symx import core
from .bbn_common import SHAPES, bbnmod, build, check_query, choose_evidence, make_net, marginals, names_of, rotate_names, set_orders


def manual(c, names, doms, edges, hi, order=True):
    """The steps of a query with an arbitrary elimination order and an arbitrary starting clique."""
    net = make_net(c, names, doms, edges)
    bn = build(c, net, "conditionals")
    ev = choose_evidence(c, net, hi=hi)
    if order:
        rank = c.permutation("eliminate", ["f_" + x for x in names])
        jt = c.no_raise("builds", lambda: bbnmod.build_join_tree(bn, lambda node: [rank.index(node.name), 0]))
    else:
        jt = c.no_raise("builds", lambda: bn.build_join_tree())
    asg = jt.assign_clusters(bn)
    jt.initialize_potentials(asg, bn, ev)
    start = c.choice("start", [None] + list(range(len(jt.clique_nodes))))
    c.no_raise("propagates", lambda: jt.propagate(starting_clique=None if start is None else jt.clique_nodes[start]))
    m, tot = marginals(net, ev)
    for node in bn.nodes:
        mg = c.no_raise("marginal", lambda: jt.marginal(node))
        s = 0
        for v in mg.values():
            s = s + v
        c.check_eq("mass-of-evidence", s, tot, "total mass at %s" % node.variable_name)
        for (k,), v in mg.items():
            c.check_eq("schedule-independent", v, m[k], "mass of %r given %r" % (k, ev))
    # every clique and separator holds the joint mass over its variables
    for part in list(jt.clique_nodes) + list(jt.sepset_nodes):
        tt = part.potential_tt
        exp = {}
        for a, p in net.joint():
            if any(a[k] != v for k, v in ev.items()):
                p = 0
            key = tuple((x, a[x]) for x in sorted(part.variable_names))
            exp[key] = exp.get(key, 0) + p
        for key, e in exp.items():
            c.check_eq("calibrated", tt[key], e, "entry %r" % (key,))


def setorder(c, names, doms, edges, hi, budget):
    net = make_net(c, names, doms, edges)
    ev = choose_evidence(c, net, hi=hi)
    with set_orders(c, budget):
        bn = build(c, net, c.choice("how", ["conditionals", "functions"]))
        res = c.no_raise("query-returns", lambda: bn.query(**ev))
    check_query(c, net, res, ev, "set-order-independent")


LABELS = ["schedule-independent", "set-order-independent", "calibrated", "mass-of-evidence"]
ASSUMPTIONS = ["probabilities are real, positive numbers", "iteration order of sets made by name in the join-tree code is arbitrary (full permutations of up to 3 elements for the first K iterations, one of two global orders afterwards)"]
BOUNDS = {
    "quick": "3-variable networks, 4-variable diamond/chain/two-component and 5-cycle: every elimination order, every root clique, up to 1 evidence variable; every 4-variable DAG and 6-variable shapes with every root; "
    "set orders: 2-3 forked iterations",
    "thorough": "as quick with 2 evidence variables, every 4-variable DAG, 6-variable shapes with every root, 5 forked set iterations",
}


def cases(tier):
    th = tier == "thorough"
    out = []
    four = {"diamond": [(0, 1), (0, 2), (1, 3), (2, 3)], "chain4": [(0, 1), (1, 2), (2, 3)], "two4": [(0, 1), (2, 3)], "y4": [(0, 2), (1, 2), (2, 3)]}
    out.append(("dag3", manual, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), edges=None, hi=2 if th else 1), 10))
    for i, (k, e) in enumerate(four.items()):
        out.append(("manual-" + k, manual, dict(names=rotate_names(4, i), doms=("bool",) * 4, edges=e, hi=2 if th else 1), 20))
    n, e = SHAPES["loop5"]
    out.append(("manual-loop5", manual, dict(names=rotate_names(5, 1), doms=("bool",) * 5, edges=e, hi=1 if th else 0), 20))
    for s in ["chain5", "poly5", "two5"] + (["huang6", "asia6"] if th else []):
        n, e = SHAPES[s]
        out.append(("roots-" + s, manual, dict(names=rotate_names(n, 2), doms=("bool",) * n, edges=e, hi=1, order=False), 5))
    for i in range(4 if th else 2):
        out.append(("roots-dag4-%d" % i, manual, dict(names=rotate_names(4, i), doms=("bool",) * 4, edges=None, hi=0, order=False), 10))
    for i, s in enumerate(["dense6", "hard6", "mix6"]):
        n, e = SHAPES[s]
        out.append(("roots-" + s, manual, dict(names=rotate_names(n, i + 5), doms=("bool",) * n, edges=e, hi=0, order=False), 5))
    b = 4 if th else 3
    out.append(("sets-dag3", setorder, dict(names=("b", "c", "a"), doms=("bool", "str", "int"), edges=None, hi=1, budget=b - 2), 10))
    for i, (k, e) in enumerate(four.items()):
        out.append(("sets-" + k, setorder, dict(names=rotate_names(4, i + 3), doms=("bool",) * 4, edges=e, hi=1 if th else 0, budget=b), 20))
    if th:
        out.append(("dag4", manual, dict(names=("d", "a", "c", "b"), doms=("bool",) * 4, edges=None, hi=0), 60))
    return out
