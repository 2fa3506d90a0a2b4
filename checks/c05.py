"""Sampling: arbitrary random numbers, symbolic tables; every draw follows the exact conditional."""
import itertools

from symx import core
from .bbn_common import build, choose_evidence, make_net, marginals, possible
from .rng import symbolic_rng


def cond(net, given, var):
    """[(state, mass)], total mass, for var given an assignment."""
    m, tot = marginals(net, given)
    return [(s, m[(var, s)]) for s in net.doms[var]], tot


def follows(c, net, given, var, val, u):
    """u selects val for var by cumulating the exact conditional over the states in some order."""
    masses, tot = cond(net, given, var)
    md = dict(masses)
    alts = []
    for perm in itertools.permutations(net.doms[var]):
        i = perm.index(val)
        lo = 0
        for s in perm[:i]:
            lo = lo + md[s]
        hi = lo + md[val]
        if c.symbolic:
            alts.append(core.And(_le(lo, u * tot), _le(u * tot, hi)))
        else:
            alts.append(lo - 1e-9 <= u * tot <= hi + 1e-9)
    return core.Or(*alts) if c.symbolic else any(alts)


def _le(a, b):
    r = core.lift(a) <= core.lift(b)
    return r


def draw(c, names, doms, n=1, edges=None, zeros=0, how="conditionals", maxev=2, only=None):
    net = make_net(c, names, doms, edges, zeros)
    ev = choose_evidence(c, net, hi=maxev)
    if zeros:
        possible(c, net, ev)
    bn = build(c, net, how)
    with symbolic_rng(c) as draws:
        mine = dict(ev)
        if ev or c.choice("pass-empty", [True, False]):
            samples = c.no_raise("sampling-returns", lambda: bn.draw_samples(ev, n=n))
        else:
            samples = c.no_raise("sampling-returns", lambda: bn.draw_samples(n=n))
    c.check("evidence-unchanged", ev == mine)
    check_samples(c, net, ev, samples, draws, n)


def check_samples(c, net, ev, samples, draws, n):
    names = net.nodes
    _, total = marginals(net)
    c.lemma_eq(total, 1)
    for u in draws:
        c.lemma_eq(u * total, u)
    c.check("count", len(samples) == n, "asked for %d samples, got %d" % (n, len(samples)))
    free = [x for x in names if x not in ev]
    mapped = len(draws) == len(free) * n  # one number per drawn variable: the numbers can be attributed
    for k, s in enumerate(samples):
        c.check("complete", set(s) == set(names) and all(s[x] in net.doms[x] for x in names), "sample %r" % (s,))
        c.check("evidence-respected", all(s[x] == v for x, v in ev.items()), "sample %r, evidence %r" % (s, ev))
        _, tot = marginals(net, s)
        c.check("possible", tot > 0 if core.is_sym(tot) else tot > 0, lambda: "sample %r has probability zero" % (s,))
        if not mapped:
            continue
        us = draws[k * len(free):(k + 1) * len(free)]
        alts = []
        for order in itertools.permutations(free):
            given = dict(ev)
            parts = []
            for x, u in zip(order, us):
                parts.append(follows(c, net, given, x, s[x], u))
                given[x] = s[x]
            alts.append(core.And(*parts) if c.symbolic else all(parts))
            if (alts[-1] is True):
                break
        c.check("exact-conditional", core.Or(*alts) if c.symbolic else any(alts),
                lambda: "sample %r from random numbers %r is not an inverse-CDF draw" % (s, us))


LABELS = ["possible", "exact-conditional", "evidence-respected", "complete", "count"]
ASSUMPTIONS = [
    "the uniform source returns any real in [0,1) and the node picker any candidate",
    "probabilities are real numbers (cumulated sums are exact; float rounding outside the claim)",
    "one uniform number per drawn variable, consumed in drawing order",
]
BOUNDS = {
    "quick": "every 2-variable network (binary and ternary states, up to 3 zero entries), 1-2 samples; 3-variable chain, collider, fork and "
    "disconnected networks with at least one evidence variable, all tables",
    "thorough": "as quick plus 3-variable networks without evidence and 3 samples of 2 variables",
}


def cases(tier):
    th = tier == "thorough"
    out = []
    nm = ("b", "a")
    out.append(("pair", draw, dict(names=nm, doms=("bool", "str"), n=1), 3))
    out.append(("pair-tri", draw, dict(names=nm, doms=("tri", "bool"), n=1, edges=[(0, 1)], how="functions"), 3))
    out.append(("pair-zeros", draw, dict(names=nm, doms=("bool", "int"), n=1, zeros=3), 5))
    out.append(("pair-twice", draw, dict(names=nm, doms=("bool", "str"), n=2, maxev=1), 8))
    out.append(("pair-prefix", draw, dict(names=("x", "x1"), doms=("bool", "str"), n=1, edges=[(0, 1)]), 3))
    out.append(("pair-prefix2", draw, dict(names=("ab", "a"), doms=("tri", "str"), n=1, edges=[(0, 1)]), 3))
    for k, e in enumerate([[(0, 1), (1, 2)], [(0, 2), (1, 2)], [(0, 1), (0, 2)], [(0, 1)]]):
        out.append(("three-%d" % k, draw, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), n=1, edges=e, maxev=3 if th else 2), 10))
    if th:
        out.append(("pair-thrice", draw, dict(names=nm, doms=("bool", "str"), n=3, maxev=1, edges=[(0, 1)]), 20))
        out.append(("pair-tri2", draw, dict(names=nm, doms=("tri", "tri"), n=1, zeros=2), 20))
    return out
