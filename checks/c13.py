"""Invalid interventions are refused, and a refused intervention changes nothing."""
from .ie_common import check_marginals, core, engine, make, truncated


def _unchanged(c, ie, net, done):
    check_marginals(c, truncated(net, done), c.no_raise("query-returns", ie.query), None, "unchanged")


def _prior(c, ie, net, node):
    """Optionally an earlier intervention on the same node."""
    if c.choice("earlier-do", [False, True]):
        d = {s: 0.0 for s in net.doms[node]}
        d[net.doms[node][0]] = 1.0
        ie.do_intervention(node, dict(d))
        return {node: d}
    return {}


def weights(c, names, kinds, edges, node):
    """Arbitrary real weights for exactly the node's states: accepted exactly when they form a distribution."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    done = _prior(c, ie, net, node)
    ws = [c.real("w%d" % i, -3, 3) for i in range(len(net.doms[node]))]
    tot = sum(ws[1:], ws[0])
    eps = core.Fraction(1, 10 ** 6)
    arg = dict(zip(net.doms[node], ws))
    off = core.Or(tot > 1 + eps, tot < 1 - eps) if c.symbolic else bool(abs(tot - 1) > 1e-6)
    inside = core.And(*[core.And(w >= 0, w <= 1) for w in ws]) if c.symbolic else all(0 <= w <= 1 for w in ws)
    exact = (tot == 1) if c.symbolic else abs(tot - 1) < 1e-12
    try:
        ie.do_intervention(node, dict(arg))
    except ValueError as e:
        c.check("rejected-only-invalid", core.Not(core.And(exact, inside)) if c.symbolic else not (exact and inside), lambda: "%r rejected: %s" % (arg, e))
        _unchanged(c, ie, net, done)
        return
    c.check("accepted-only-valid", core.And(core.Not(off), inside) if c.symbolic else (not off and inside), lambda: "%r accepted" % (arg,))


def states(c, names, kinds, edges, node):
    """Distributions over other state sets, unknown states, unknown nodes and nodes without effects."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    done = _prior(c, ie, net, node)
    dom = net.doms[node]
    leaf = [n for n in net.nodes if not any(n in p for p in net.parents.values())][0]
    kind = c.choice("intervention", ["missing-state", "extra-state", "other-states", "extra-zero", "unknown-state", "none", "other-case", "unknown-node", "no-effect-point", "no-effect-distribution", "empty"])
    p = c.real("p", 0, 1)
    target = node
    if kind == "missing-state":
        arg = {dom[0]: 1.0} if c.choice("which", [0, 1]) == 0 else {dom[-1]: 1.0}
    elif kind == "extra-state":
        arg = {**{s: 0.0 for s in dom}, dom[0]: p, "zz": 1 - p}
    elif kind == "other-states":
        arg = {("new", i): (p if i == 0 else 1 - p if i == 1 else 0.0) for i in range(len(dom))}
    elif kind == "extra-zero":
        arg = {**{s: 0.0 for s in dom}, dom[0]: p, dom[1]: 1 - p, None: 0.0}
    elif kind == "unknown-state":
        arg = c.choice("state", ["zz", 99, 2.5, str(dom[0]) + " ", str(dom[0]) if not isinstance(dom[0], str) else dom[0].upper()])
    elif kind == "none":
        arg = None
    elif kind == "other-case":
        arg = {str(s).upper() + "!": (1.0 if i == 0 else 0.0) for i, s in enumerate(dom)}
    elif kind == "unknown-node":
        target, arg = c.choice("node", ["zz", "", names[0] + "x"]), {s: (1.0 if i == 0 else 0.0) for i, s in enumerate(dom)}
    elif kind == "no-effect-point":
        target, arg = leaf, net.doms[leaf][0]
    elif kind == "empty":
        arg = {}
    else:
        target, arg = leaf, {s: 1.0 if i == 0 else 0.0 for i, s in enumerate(net.doms[leaf])}
    c.raises("invalid-rejected", ValueError, lambda: ie.do_intervention(target, arg), "do(%r, %r)" % (target, arg))
    _unchanged(c, ie, net, done)


def rounding(c):
    """Distributions written with decimal fractions are accepted although their floating-point sum is not exactly 1."""
    net, bn = make(c, ("b", "a"), ("tri", "str"), [(0, 1)])
    ie = engine(c, bn)
    ps = c.choice("p", [(0.1, 0.2, 0.7), (0.1, 0.1, 0.8), (0.7, 0.2, 0.1), (0.15, 0.35, 0.5), (1 / 3, 1 / 3, 1 / 3), (0.9, 0.05, 0.05), (0.01, 0.29, 0.7), (0.02, 0.41, 0.57)])
    ps = [ps[i] for i in c.permutation("order", [0, 1, 2])]
    d = dict(zip(net.doms["b"], ps))
    c.no_raise("decimal-accepted", lambda: ie.do_intervention("b", d), "%r" % (d,))
    got = ie.query()["b"]
    for s, p in d.items():
        c.check("decimal-used", abs(float(got[s]) - p) < 1e-6 if not core.is_sym(got[s]) else core.And(got[s] - p < core.Fraction(1, 10 ** 6), got[s] - p > -core.Fraction(1, 10 ** 6)), lambda: "%r" % (got,))


LABELS = ["rejected-only-invalid", "accepted-only-valid", "invalid-rejected", "unchanged", "decimal-used"]
ASSUMPTIONS = ["weights whose sum differs from 1 by at most 1e-6 but not 0 may be treated either way", "pgmpy is replaced by a table container, pandas by stubs/pandas; the tables are arbitrary"]
BOUNDS = {"quick": "3 networks of 2-3 nodes, all positive tables, all weights in [-3,3] on 2-3 states, listed wrong state sets, states and nodes; with and without an earlier intervention; 8 decimal distributions in every order",
          "thorough": "5 networks of 2-4 nodes"}

SHAPES = [
    ("pair", ("b", "a"), ("str", "tri"), [(0, 1)], "b"),
    ("chain", ("c", "a", "b"), ("bool", "tri", "str"), [(0, 1), (1, 2)], "a"),
    ("collider", ("c", "a", "b"), ("float", "tri", "int"), [(0, 2), (1, 2)], "c"),
    ("full", ("b", "a", "c"), ("int3", "str", "bool"), [(0, 1), (0, 2), (1, 2)], "b"),
    ("confounded", ("u", "x", "m", "y"), ("int", "str", "bool", "neg"), [(0, 1), (0, 3), (1, 2), (2, 3)], "x"),
]


def cases(tier):
    use = SHAPES if tier == "thorough" else SHAPES[:3]
    out = [("weights-" + s[0], weights, dict(names=s[1], kinds=s[2], edges=s[3], node=s[4]), 5) for s in use]
    out += [("states-" + s[0], states, dict(names=s[1], kinds=s[2], edges=s[3], node=s[4]), 4) for s in use]
    return out + [("rounding", rounding, {}, 2)]
