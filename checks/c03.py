"""Evidence outside the network is rejected, evidence inside it is accepted."""
from symx import core
from .bbn_common import DOMS, Net, build, check_query, choose_dag, ebay, marginals, parents_of, sym_table
from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError

BAD_VARS = ["zz", "A", "f_a", "", "a ", "ab"]
BAD_VALS = {"bool": ["True", 2, None, "t"], "str": ["LO", "l", "", None, "lohi"], "int": [2, -1, "0", None, 0.5], "tri": ["d", "ab", 0]}


def reject(c, names, doms, how):
    e = choose_dag(c, len(names))
    par = parents_of(names, e)
    dd = {x: DOMS[d] for x, d in zip(names, doms)}
    net = Net(list(names), par, dd, sym_table(c, list(names), par, dd))
    bn = build(c, net, how)
    ev = {}
    # a valid part around the invalid one
    good = c.choice("valid-part", [None] + list(range(len(names))))
    bad = c.choice("invalid", ["variable", "value"])
    items = []
    if good is not None:
        items.append((names[good], dd[names[good]][c.choice("valid-value", [0, 1])]))
    if bad == "variable":
        k = c.choice("bad-variable", BAD_VARS)
        # the value is in the domain of every real variable of the default kind
        v = c.choice("its-value", [True, "lo", 0])
        exc = VariableNotInGraphError
    else:
        i = c.choice("bad-value-of", list(range(len(names))))
        k = names[i]
        if good == i:
            raise core.PathEnd()
        v = c.choice("bad-value", BAD_VALS[doms[i]])
        exc = VariableValueNotInDomainError
    pos = c.choice("first", [True, False])
    items.insert(0 if pos else len(items), (k, v))
    ev = dict(items)
    c.raises("rejected", exc, lambda: bn.query(**ev), "query(%r)" % (ev,))


def intval(c, names, nstates):
    """Integer states: the evidence value is an arbitrary integer."""
    n = len(names)
    e = choose_dag(c, n)
    par = parents_of(names, e)
    base = c.choice("first-state", [0, -1, 3])
    dd = {x: [base + i for i in range(nstates)] for x in names}
    net = Net(list(names), par, dd, sym_table(c, list(names), par, dd))
    bn = build(c, net, "functions")
    k = c.choice("evidence-variable", list(names))
    v = c.int("evidence-value", base - 3, base + nstates + 3)
    inside = core.Or(*[v == s for s in dd[k]]) if c.symbolic else v in dd[k]
    try:
        res = bn.query(**{k: v})
    except VariableValueNotInDomainError:
        c.check("int-rejected-only-outside", core.Not(inside) if c.symbolic else not inside, "value %r of %s rejected, states %r" % (v, k, dd[k]))
        return
    c.check("int-accepted-only-inside", inside, "value %r of %s accepted, states %r" % (v, k, dd[k]))
    m, tot = None, None
    # which state was it
    for s in dd[k]:
        if v == s:
            check_query(c, net, res, {k: s}, "posterior")
            c.check_eq("evidence-certain", res[(k, s)], 1)


def accept(c, names, doms, how):
    e = choose_dag(c, len(names))
    par = parents_of(names, e)
    dd = {x: DOMS[d] for x, d in zip(names, doms)}
    net = Net(list(names), par, dd, sym_table(c, list(names), par, dd))
    bn = build(c, net, how)
    ev = {}
    for n in c.permutation("order", list(names)):
        v = c.choice("evidence(%s)" % n, [None] + list(range(len(dd[n]))))
        if v is not None:
            ev[n] = dd[n][v]
    res = c.no_raise("accepted", lambda: bn.query(**ev), "query(%r)" % ev)
    for n, v in ev.items():
        for s in dd[n]:
            c.check_eq("evidence-certain", res[(n, s)], 1 if s == v else 0)


LABELS = ["rejected", "int-rejected-only-outside", "int-accepted-only-inside", "evidence-certain"]
ASSUMPTIONS = ["evidence is given with hashable values of the documented kinds", "probabilities are real numbers"]
BOUNDS = {
    "quick": "every DAG on 2 variables with bool/str/int/ternary states, one invalid item (6 foreign names, 3-5 foreign values per kind) next to "
    "an optional valid one, both orders; integer states with an arbitrary integer evidence value within 3 of the domain; all valid evidence sets in every order on 3 variables",
    "thorough": "as quick with 3 variables throughout",
}


def cases(tier):
    out = []
    n = 3 if tier == "thorough" else 2
    nm = ("b", "a", "c")[:n]
    for k, doms in enumerate([("bool", "str", "int"), ("int", "tri", "bool"), ("str", "bool", "tri")]):
        for how in ("conditionals", "functions"):
            out.append(("reject-%d-%s" % (k, how), reject, dict(names=nm, doms=doms[:n], how=how)))
    out.append(("int2", intval, dict(names=nm, nstates=2)))
    out.append(("int3", intval, dict(names=nm, nstates=3)))
    out.append(("accept-c", accept, dict(names=("c", "a", "b"), doms=("bool", "str", "int"), how="conditionals")))
    out.append(("accept-f", accept, dict(names=("a", "b", "c"), doms=("int", "str", "bool"), how="functions")))
    return out
