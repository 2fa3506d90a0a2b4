"""Interventions replace a node's mechanism and nothing else (truncated factorisation)."""
from .ie_common import check_marginals, choose_evidence, core, engine, make, possible, truncated


def distribution(c, tag, dom):
    ps = [c.real("do%s(%s)" % (tag, s), pos=True, hi=1) for s in dom]
    c.define_simplex(ps)
    return dict(zip(dom, ps))


def choose_do(c, tag, net, nodes, few=False):
    """(node, argument given to the engine, resulting distribution)"""
    n = c.choice("do%s-node" % tag, nodes)
    dom = net.doms[n]
    kinds = ["point%d" % i for i in range(len(dom))] + ["point-dict", "distribution"]
    if few:
        kinds = kinds[:1] + kinds[len(dom) - 1 : len(dom)] + kinds[-1:]
    k = c.choice("do%s-kind" % tag, kinds)
    if k == "distribution" and len(dom) > 1:
        d = distribution(c, tag, dom)
        order = 1 if few else c.choice("do%s-order" % tag, [1, -1])
        return n, dict(list(d.items())[::order]), d
    if k in ("point-dict", "distribution"):
        s = dom[0]
        d = {x: 1.0 if x == s else 0.0 for x in dom}
        return n, dict(d), d
    s = dom[int(k[5:])]
    return n, s, {x: 1.0 if x == s else 0.0 for x in dom}


def intervene(c, names, kinds, edges, count=1, hi=1):
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    done = {}
    for k in range(count):
        ok = [n for n in net.nodes if any(n in p and m not in done for m, p in net.parents.items())]
        if not ok:
            raise core.PathEnd()
        n, arg, d = choose_do(c, str(k), net, ok, count > 1)
        given = dict(arg) if isinstance(arg, dict) else arg
        c.no_raise("accepted", lambda: ie.do_intervention(n, arg), "do(%s, %r)" % (n, arg))
        c.check("argument-unchanged", arg == given if not isinstance(arg, dict) else list(arg) == list(given) and all(arg[x] is given[x] for x in arg))
        done[n] = d
    after = truncated(net, done)
    ev = choose_evidence(c, after, hi=hi)
    possible(c, after, ev)
    res = c.no_raise("query-returns", lambda: ie.query(ev) if ev else ie.query(), "after do %r, evidence %r" % (done, ev))
    check_marginals(c, after, res, ev, "intervened")


def effect(c, names, kinds, edges, node):
    """Non-descendants keep their distribution, and the children see the new value through their unchanged tables."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    before = ie.query()
    s = c.choice("state", net.doms[node])
    c.no_raise("accepted", lambda: ie.do_intervention(node, s))
    after = ie.query()
    desc = {node}
    for n in net.nodes:
        if any(p in desc for p in net.parents[n]):
            desc.add(n)
    for n in net.nodes:
        if n not in desc:
            for x in net.doms[n]:
                c.check_eq("non-descendants", after[n][x], before[n][x], "P(%s=%s) changed by do(%s)" % (n, x, node))
    for x in net.doms[node]:
        c.check_eq("forced", after[node][x], 1 if x == s else 0)


LABELS = ["intervened", "intervened-keys", "non-descendants", "forced", "argument-unchanged"]
ASSUMPTIONS = ["evidence has positive probability after the intervention", "pgmpy is replaced by a table container, pandas by stubs/pandas; the tables are arbitrary", "node names are Python identifiers"]
BOUNDS = {"quick": "8 networks of 2-4 nodes with 1-3 states of mixed label kinds (text, integer, boolean, negative, float), point interventions on every state and arbitrary positive distributions, up to 2 interventions, evidence on up to 1 node, all positive tables",
          "thorough": "evidence on up to 2 nodes, up to 3 interventions, 5-node networks"}

SHAPES = [
    ("pair", ("b", "a"), ("str", "tri"), [(0, 1)]),
    ("chain", ("c", "a", "b"), ("bool", "tri", "str"), [(0, 1), (1, 2)]),
    ("fork", ("b", "c", "a"), ("int3", "str", "neg"), [(0, 1), (0, 2)]),
    ("collider", ("c", "a", "b"), ("float", "tri", "int"), [(0, 2), (1, 2)]),
    ("full", ("b", "a", "c"), ("neg", "str", "bool"), [(0, 1), (0, 2), (1, 2)]),
    ("diamond", ("d", "a", "c", "b"), ("bool", "int", "str", "neg"), [(0, 1), (0, 2), (1, 3), (2, 3)]),
    ("confounded", ("u", "x", "m", "y"), ("int", "str", "bool", "neg"), [(0, 1), (0, 3), (1, 2), (2, 3)]),
    ("mixed", ("d", "b", "a", "c"), ("int", "str", "tri", "bool"), [(0, 2), (1, 2), (2, 3)]),
]


def cases(tier):
    th = tier == "thorough"
    out = [(s[0], intervene, dict(names=s[1], kinds=s[2], edges=s[3], hi=2 if th else 1), 5) for s in SHAPES]
    out += [("two-" + s[0], intervene, dict(names=s[1], kinds=s[2], edges=s[3], count=2, hi=1 if th else 0), 8) for s in (SHAPES[1:] if th else [SHAPES[3], SHAPES[4], SHAPES[6]])]
    if th:
        out += [("three-" + s[0], intervene, dict(names=s[1], kinds=s[2], edges=s[3], count=3, hi=1), 30) for s in SHAPES[4:7]]
        out += [("five", intervene, dict(names=("e", "c", "a", "d", "b"), kinds=("bool",) * 5, edges=[(0, 2), (1, 2), (2, 3), (2, 4), (3, 4)], hi=1), 30)]
    out += [("effect-" + s[0], effect, dict(names=s[1], kinds=s[2], edges=s[3], node=n), 2) for s, n in ((SHAPES[4], "a"), (SHAPES[5], "a"), (SHAPES[6], "x"), (SHAPES[7], "a"))]
    return out
