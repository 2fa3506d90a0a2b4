"""The network does not depend on how its tables are listed."""
from symx import core
from .bbn_common import build, check_query, choose_evidence, ebay, make_net, names_of


def rows(c):
    def f(n, combos):
        o = c.choice("rows(%s)" % n, ["same", "reversed", "rotated"])
        return {"same": combos, "reversed": combos[::-1], "rotated": combos[1:] + combos[:1]}[o]
    return f


def givens(c, per_row=True):
    def f(n, pv, g):
        if len(g) < 2:
            return g
        tag = "givens(%s|%s)" % (n, pv) if per_row else "givens(%s)" % n
        return c.permutation(tag, g)
    return f


def values(c, per_row=True):
    def f(n, pv, v):
        tag = "values(%s|%s)" % (n, pv) if per_row else "values(%s)" % n
        return v[::-1] if c.choice(tag, [False, True]) else v
    return f


def listing(c, names, doms, edges, what, hi=1):
    net = make_net(c, names, doms, edges)
    kw = {}
    if "nodes" in what:
        kw["order"] = c.permutation("nodes", list(names))
    if "rows" in what:
        kw["row_order"] = rows(c)
    if "givens" in what:
        kw["given_order"] = givens(c)
    if "values" in what:
        kw["value_order"] = values(c, per_row="values-per-row" in what)
    conds = net.conditionals(**kw)
    if c.choice("tuples", [False, True]):
        conds = {n: [[tuple(map(tuple, g)), p] for g, p in r] for n, r in conds.items()}
    bn = c.no_raise("builds", lambda: ebay.build_bbn_from_conditionals(conds))
    ev = choose_evidence(c, net, hi=hi)
    res = c.no_raise("query-returns", lambda: bn.query(**ev))
    check_query(c, net, res, ev, "listing-independent")
    c.check("structure", {n.variable_name: sorted(p.variable_name for p in n.parents) for n in bn.nodes} == {n: sorted(net.parents[n]) for n in names},
            "parents of the built network differ")
    c.check("domains", {n: set(bn.domains[n]) for n in names} == {n: set(net.doms[n]) for n in names}, "domains of the built network differ")


def order_functions(c, names, doms, edges, hi=1, perm_domains=True):
    """Factor functions in every order, single or list form, argument order of the parents free."""
    net = make_net(c, names, doms, edges)
    par = {n: c.permutation("args(%s)" % n, p) for n, p in net.parents.items()}
    table = {}
    for (n, pv, v), x in net.table.items():
        d = dict(zip(net.parents[n], pv))
        table[(n, tuple(d[q] for q in par[n]), v)] = x
    from .bbn_common import Net, make_factor

    fs = [make_factor(n, par[n], table) for n in c.permutation("nodes", list(names))]
    dd = {n: list(net.doms[n]) for n in (c.permutation("domains", list(names)) if perm_domains else sorted(names))}
    bn = c.no_raise("builds", lambda: ebay.build_bbn(fs, domains=dd) if c.choice("list", [True, False]) else ebay.build_bbn(*fs, domains=dd))
    ev = choose_evidence(c, net, hi=hi)
    res = c.no_raise("query-returns", lambda: bn.query(**ev))
    check_query(c, net, res, ev, "listing-independent")


def chain_orders(c, n, first):
    """A chain (with one long-range edge) listed in every order."""
    names = tuple("c%d" % (n - i) for i in range(n))
    edges = [(i, i + 1) for i in range(n - 1)] + [(0, 2)]
    net = make_net(c, names, ("bool",) * n, edges)
    rest = [x for i, x in enumerate(names) if i != first]
    conds = net.conditionals(order=[names[first]] + c.permutation("nodes", rest))
    bn = c.no_raise("builds", lambda: ebay.build_bbn_from_conditionals(conds))
    c.check("structure", {x.variable_name: sorted(p.variable_name for p in x.parents) for x in bn.nodes} == {x: sorted(net.parents[x]) for x in names},
            "parents of the built network differ")
    res = c.no_raise("query-returns", lambda: bn.query())
    check_query(c, net, res, {}, "listing-independent")


LABELS = ["listing-independent", "structure", "domains"]
ASSUMPTIONS = ["probabilities are real, positive numbers", "tables list every parent combination exactly once, with the same states in every row"]
BOUNDS = {
    "quick": "3-variable collider, chain, triangle and 4-variable triple-parent networks; 5-variable chains with a shortcut in all 120 node orders; every node order; row orders same/reversed/rotated per node; "
    "parent order and state order permuted per row; at most 1 evidence variable",
    "thorough": "as quick with combinations of the reorderings and 2 evidence variables, 6-variable chains in all 720 orders",
}


def cases(tier):
    th = tier == "thorough"
    out = []
    col, ch, tr = [(0, 2), (1, 2)], [(0, 1), (1, 2)], [(0, 1), (0, 2), (1, 2)]
    for i, p in enumerate([("a", "b", "c"), ("c", "b", "a"), ("b", "c", "a")]):
        dm = [("bool", "str", "int"), ("tri", "bool", "str"), ("int", "str", "bool")][i]
        out.append(("nodes-rows-%d" % i, listing, dict(names=p, doms=dm, edges=[col, tr, ch][i], what=("nodes", "rows"), hi=(1 if not th else 2) if th or i == 0 else 0), 8))
        out.append(("givens-%d" % i, listing, dict(names=p, doms=dm, edges=[col, col, tr][i], what=("givens", "nodes") if th else ("givens",), hi=1), 5))
        out.append(("values-%d" % i, listing, dict(names=p, doms=("bool", "str", "int"), edges=[ch, tr, col][i], what=("values", "values-per-row"), hi=1 if th or i < 1 else 0), 8))
        out.append(("functions-%d" % i, order_functions, dict(names=p, doms=dm, edges=[tr, col, ch][i]), 5))
    out.append(("givens-4", listing, dict(names=("d", "b", "c", "a"), doms=("bool",) * 4, edges=[(0, 3), (1, 3), (2, 3)], what=("nodes",) if not th else ("nodes", "rows"), hi=0), 5))
    out.append(("functions-4", order_functions, dict(names=("c", "d", "a", "b"), doms=("bool",) * 4, edges=[(0, 3), (1, 3), (2, 3)], hi=0, perm_domains=th), 15))
    for part in range(5):
        out.append(("chain-5-%d" % part, chain_orders, dict(n=5, first=part), 6))
    if th:
        for part in range(6):
            out.append(("chain-6-%d" % part, chain_orders, dict(n=6, first=part), 30))
    return out
