"""Prior marginals of the join-tree network equal brute-force enumeration of the joint."""
from .bbn_common import SHAPES, build, check_query, make_net, names_of, rotate_names

HOWS = ["conditionals", "functions", "function-list", "default-domains"]


def prior(c, names, doms, hows=("conditionals",), edges=None, zeros=0, order=None, max_parents=3, part=None):
    net = make_net(c, names, doms, edges, zeros, order, max_parents, part=part)
    how = c.choice("how", [h for h in hows if h != "default-domains" or set(doms) == {"bool"}])
    bn = c.no_raise("builds", lambda: build(c, net, how))
    res = c.no_raise("query-returns", lambda: bn.query())
    check_query(c, net, res, None, "prior")


LABELS = ["prior", "prior-keys"]
ASSUMPTIONS = [
    "probabilities are real numbers (float rounding outside the claim; replays use floats within 1e-7)",
    "table entries positive, except in the cases named zeros, where any bounded number of entries is exactly 0",
]
BOUNDS = {
    "quick": "every DAG with up to 4 labelled variables for 4 name orders (all 6 name orders for 3 variables), binary states "
    "(bool, str, int) and ternary states up to 3 variables; every DAG with 5 variables (one of 4 name orders per slice); five 6-variable shapes for 3 name orders; "
    "all positive table values; up to 2 zero entries for 3-variable networks",
    "thorough": "as quick plus every name order for 4 variables, mixed binary/ternary domains on 4 variables, "
    "every DAG with 5 variables for 16+2 name orders, every DAG with 6 variables whose first five have <=2 parents, up to 4 zero entries",
}


def cases(tier):
    out = []
    for p in names_of(3):
        out.append(("dag3-" + "".join(p), prior, dict(names=p, doms=("bool",) * 3, hows=HOWS), 1))
    for p in (names_of(3)[0], names_of(3)[4]):
        out.append(("dag3-tri-" + "".join(p), prior, dict(names=p, doms=("tri", "str", "int3"), hows=HOWS[:3]), 2))
        out.append(("dag3-zeros-" + "".join(p), prior, dict(names=p, doms=("bool", "int", "str"), zeros=2 if tier == "quick" else 4), 5))
    ps = names_of(4) if tier == "thorough" else [names_of(4)[i] for i in (0, 23, 10, 17)]
    for i, p in enumerate(ps):
        out.append(("dag4-" + "".join(p), prior, dict(names=p, doms=("bool", "str", "int", "bool"), hows=[HOWS[i % 3]], order=p[::-1] if i % 2 else None), 4))
    for i, s in enumerate(["chain5", "loop5", "poly5", "two5", "star5"]):
        n, e = SHAPES[s]
        out.append((s, prior, dict(names=rotate_names(n, i), doms=("bool",) * n, edges=e, max_parents=4), 1))
    for i, s in enumerate(["dense6", "hard6", "mix6", "huang6", "asia6"]):
        n, e = SHAPES[s]
        for k in range(8 if tier == "thorough" else 3):
            out.append(("%s-%d" % (s, k), prior, dict(names=rotate_names(n, 7 * k + i), doms=("bool",) * n, edges=e), 3))
    for k in range(16):
        p = rotate_names(5, k if tier == "thorough" else k // 4)
        out.append(("dag5-%d-%s" % (k, "".join(p)), prior, dict(names=p, doms=("bool",) * 5, part=k), 10))
    if tier == "thorough":
        for i, p in enumerate([names_of(4)[3], names_of(4)[14]]):
            out.append(("dag4-tri-" + "".join(p), prior, dict(names=p, doms=("tri", "bool", "tri", "str")), 8))
        for i, p in enumerate([names_of(5)[0], names_of(5)[77]]):
            out.append(("dag5-" + "".join(p), prior, dict(names=p, doms=("bool",) * 5), 20))
        for k in range(32):
            out.append(("dag6-%d" % k, prior, dict(names=rotate_names(6, k), doms=("bool",) * 6, max_parents=2, part=k), 60))
    return out
