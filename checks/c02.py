"""Posteriors given evidence equal the brute-force conditional distribution."""
from .bbn_common import SHAPES, build, check_query, choose_evidence, make_net, names_of, possible, rotate_names


def posterior(c, names, doms, how="conditionals", edges=None, zeros=0, order=None, hi=None, max_parents=3):
    net = make_net(c, names, doms, edges, zeros, order, max_parents)
    ev = choose_evidence(c, net, lo=1, hi=hi)
    if zeros:
        possible(c, net, ev)
    bn = build(c, net, how)
    res = c.no_raise("query-returns", lambda: bn.query(**ev), "query(%r)" % ev)
    check_query(c, net, res, ev, "posterior")


LABELS = ["posterior", "posterior-keys"]
ASSUMPTIONS = [
    "probabilities are real numbers (float rounding outside the claim; replays use floats within 1e-7)",
    "evidence has positive probability",
]
BOUNDS = {
    "quick": "every DAG with 3 labelled variables for all 6 name orders and every non-empty evidence set; every DAG with 4 variables for 1 name "
    "order with up to 2 evidence variables; 5-variable shapes with up to 2 evidence variables; up to 2 zero entries on 3 variables; binary and ternary states",
    "thorough": "as quick plus every evidence set on 4 variables for 6 name orders, 5- and 6-variable shapes with up to 3 evidence variables, up to 4 zero entries",
}


def cases(tier):
    out = []
    th = tier == "thorough"
    for i, p in enumerate(names_of(3)):
        out.append(("dag3-" + "".join(p), posterior, dict(names=p, doms=("bool", "str", "int"), how=["conditionals", "functions"][i % 2]), 2))
    for j, p in enumerate((names_of(3)[1], names_of(3)[2])):
        out.append(("dag3-tri-" + "".join(p), posterior, dict(names=p, doms=("tri", "bool", "int3")), 4))
        if j and not th:
            continue
        for k, e in enumerate([[(0, 1), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2), (1, 2)], [(0, 1)]]):
            out.append(("zeros-%d-%s" % (k, "".join(p)), posterior, dict(names=p, doms=("bool", "int", "str"), edges=e, zeros=4 if th else 2), 5))
    ps = [names_of(4)[i] for i in ((0, 5, 9, 14, 18, 23) if th else (10,))]
    for i, p in enumerate(ps):
        out.append(("dag4-" + "".join(p), posterior, dict(names=p, doms=("bool", "str", "int", "bool"), hi=None if th else 2, order=p[::-1] if i % 2 else None), 20))
    for i, s in enumerate(["chain5", "loop5", "poly5", "two5", "star5"] + (["huang6", "asia6", "naive5"] if th else [])):
        n, e = SHAPES[s]
        out.append((s, posterior, dict(names=rotate_names(n, i), doms=("bool",) * n, edges=e, hi=3 if th else 2, max_parents=4), 10))
    return out
