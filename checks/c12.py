"""Histories of interventions and resets: later answers reflect exactly the interventions in force."""
from .ie_common import check_marginals, choose_evidence, core, cpds_snapshot, engine, make, possible, same_cpds, truncated
from .c11 import choose_do, distribution


def _query(c, ie, net, done, tag, label, hi=1):
    after = truncated(net, done)
    ev = choose_evidence(c, after, tag, hi=hi)
    possible(c, after, ev)
    res = c.no_raise("query-returns", lambda: ie.query(ev) if ev else ie.query(), "after %r" % (done,))
    check_marginals(c, after, res, ev, label)


def history(c, names, kinds, edges, length, hi=1):
    net, bn = make(c, names, kinds, edges)
    before = cpds_snapshot(bn)
    ie = engine(c, bn)
    other = engine(c, bn)
    done = {}
    for k in range(length):
        t = str(k)
        op = c.choice("op" + t, ["do", "reset", "query", "rejected-do"] if k < length - 1 else ["do", "reset"])
        ok = [n for n in net.nodes if any(n in p and m not in done for m, p in net.parents.items())]
        if op == "do":
            if not ok:
                raise core.PathEnd()
            n, arg, d = choose_do(c, t, net, ok, True)
            c.no_raise("accepted", lambda: ie.do_intervention(n, arg))
            if isinstance(arg, dict) and c.choice("caller-edits" + t, [False, True]):
                for x in arg:
                    arg[x] = 0.25
            done[n] = d
        elif op == "reset":
            n = c.choice("reset" + t, net.nodes)
            c.no_raise("reset", lambda: ie.reset_do(n))
            done.pop(n, None)
        elif op == "query":
            ie.query({net.nodes[-1]: net.doms[net.nodes[-1]][0]})
        else:
            n = c.choice("bad-node" + t, net.nodes)
            dom = net.doms[n]
            c.raises("rejected", ValueError, lambda: ie.do_intervention(n, {**{x: 0.0 for x in dom}, dom[0]: 1.0, "new state": 0.0}))
    _query(c, ie, net, done, "", "in-force", hi)
    check_marginals(c, net, other.query(), None, "other-engine")
    same_cpds(c, "network-unchanged", before, cpds_snapshot(bn))


def long(c, names, kinds, edges, length, only=None):
    """Longer histories of arbitrary distributions and resets; every answer on the way counts."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    done = {}
    for k in range(length):
        t = str(k)
        if c.choice("op" + t, ["reset", "do"]) == "do":
            ok = [n for n in only or net.nodes if any(n in p and m not in done for m, p in net.parents.items())]
            if not ok:
                raise core.PathEnd()
            n = c.choice("do-node" + t, ok)
            d = distribution(c, t, net.doms[n])
            c.no_raise("accepted", lambda: ie.do_intervention(n, dict(d)))
            done[n] = d
        else:
            n = c.choice("reset" + t, only or net.nodes)
            c.no_raise("reset", lambda: ie.reset_do(n))
            done.pop(n, None)
    _query(c, ie, net, done, "", "in-force", 0)


def restore(c, names, kinds, edges, hi=0):
    """Resetting every intervened node restores the original answers, in any order."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    done = {}
    for k in range(2):
        ok = [n for n in net.nodes if any(n in p and m not in done for m, p in net.parents.items())]
        if not ok:
            raise core.PathEnd()
        n, arg, d = choose_do(c, str(k), net, ok, True)
        ie.do_intervention(n, arg)
        done[n] = d
    for n in c.permutation("reset-order", sorted(done)):
        c.no_raise("reset", lambda: ie.reset_do(n))
    _query(c, ie, net, {}, "", "restored", hi)


def refit(c, names, kinds, edges):
    """An engine keeps answering from the tables it was built with after the network is fitted again."""
    from .ie_common import Net, fit, sym_table
    import pgmpy.estimators as est
    from . import ie_common

    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    new = Net(net.nodes, net.parents, net.doms, {k: c.choice("new", [0.5]) for k in net.table})
    ie_common.NET[0] = new
    est.HOOK = ie_common._hook
    try:
        import pandas as pd

        k = max(len(d) for d in net.doms.values())
        bn.fit_cpds(pd.DataFrame({n: [d[i % len(d)] for i in range(k)] for n, d in net.doms.items()}))
    finally:
        est.HOOK = None
    ok = [n for n in net.nodes if any(n in p for p in net.parents.values())]
    n, arg, d = choose_do(c, "0", net, ok, True)
    ie.do_intervention(n, arg)
    ie.reset_do(n)
    _query(c, ie, net, {}, "", "own-tables")


LABELS = ["in-force", "other-engine", "network-unchanged", "restored", "own-tables", "rejected"]
ASSUMPTIONS = ["evidence has positive probability after the interventions", "pgmpy is replaced by a table container, pandas by stubs/pandas; the tables are arbitrary", "node names are Python identifiers"]
BOUNDS = {"quick": "histories of 2 operations (intervene, reset, query, rejected intervention) on 4 networks of 2-3 nodes, all positive tables and distributions, evidence on up to 1 node; 5 interventions or resets of a pair's parent, 3 of chain and full networks, with arbitrary distributions",
          "thorough": "histories of 3 operations, 4-node networks"}

SHAPES = [
    ("pair", ("b", "a"), ("str", "tri"), [(0, 1)]),
    ("chain", ("c", "a", "b"), ("bool", "str", "int"), [(0, 1), (1, 2)]),
    ("collider", ("c", "a", "b"), ("float", "str", "int"), [(0, 2), (1, 2)]),
    ("full", ("b", "a", "c"), ("neg", "str", "bool"), [(0, 1), (0, 2), (1, 2)]),
    ("confounded", ("u", "x", "m", "y"), ("int", "str", "bool", "neg"), [(0, 1), (0, 3), (1, 2), (2, 3)]),
]


def cases(tier):
    th = tier == "thorough"
    out = [("history-" + s[0], history, dict(names=s[1], kinds=s[2], edges=s[3], length=3 if th and i < 4 else 2, hi=0 if i and not th else 1), 10) for i, s in enumerate(SHAPES[:4] if not th else SHAPES)]
    out += [("restore-" + s[0], restore, dict(names=s[1], kinds=s[2], edges=s[3]), 8) for s in (SHAPES[2:4] + (SHAPES[4:] if th else []))]
    out += [("long-pair", long, dict(names=SHAPES[0][1], kinds=SHAPES[0][2], edges=SHAPES[0][3], length=6 if th else 5, only=["b"]), 8),
            ("long-chain", long, dict(names=SHAPES[1][1], kinds=SHAPES[1][2], edges=SHAPES[1][3], length=4 if th else 3, only=["c", "a"]), 8),
            ("long-full", long, dict(names=SHAPES[3][1], kinds=SHAPES[3][2], edges=SHAPES[3][3], length=4 if th else 3, only=["b", "a"]), 8)]
    out += [("refit", refit, dict(names=SHAPES[1][1], kinds=SHAPES[1][2], edges=SHAPES[1][3]), 3)]
    return out
