"""Evaluation: every state's predicted probability is scored against that state's own occurrences."""
from .ie_common import core, env, make, marginals  # noqa: F401


def _rows(c, net, columns, k):
    return [{n: net.doms[n][c.choice("row%d-%s" % (i, n), list(range(len(net.doms[n]))))] for n in columns} for i in range(k)]


def _scores(net, rows, node):
    out = []
    for r in rows:
        m, tot = marginals(net, {p: r[p] for p in net.parents[node]})
        for s in net.doms[node]:
            out.append((1 if r[node] == s else 0, m[(node, s)] / tot))
    return out


def roc(c, names, kinds, edges, node, nrows, absent=()):
    import pandas as pd
    from causalnex.evaluation import roc_auc

    net, bn = make(c, names, kinds, edges)
    cols = [node] + list(net.parents[node]) + [n for n in net.nodes if n != node and n not in net.parents[node]][:1]
    rows = _rows(c, net, cols, nrows)
    df = pd.DataFrame({n: [r[n] for r in rows] for n in cols}, index=[5 - i for i in range(nrows)], columns=cols)
    res, area = c.no_raise("reports", lambda: roc_auc(bn, df, node), "rows %r" % (rows,))
    # oracle: micro-average over all (row, state) pairs
    sc = _scores(net, rows, node)
    P, N = sum(t for t, _ in sc), sum(1 - t for t, _ in sc)
    pts = {(0, 0)}
    for _, cut in sc:
        tp = fp = 0
        for t, x in sc:
            if bool(x >= cut) if not _close(c, x, cut) else True:
                tp, fp = tp + t, fp + 1 - t
        pts.add((fp, tp))
    pts = sorted(pts)
    want = sum((b[0] - a[0]) * (b[1] + a[1]) for a, b in zip(pts, pts[1:])) / (2.0 * N * P)
    c.check_eq("auc", area, want, "area %r, expected %r for rows %r" % (area, want, rows))
    got = [(float(f), float(t)) for f, t in res]
    exp = [(f / N, t / P) for f, t in pts]
    ok = got[0] == (0.0, 0.0) and got[-1] == (1.0, 1.0) and all(any(abs(f - g) + abs(t - u) < 1e-9 for g, u in exp) for f, t in got) and got == sorted(got)
    c.check("roc", ok, lambda: "curve %r, expected points %r" % (got, exp))
    # every corner of the expected curve is on the reported one
    if len(got) == len(exp):
        c.check("roc", all(abs(a[0] - b[0]) + abs(a[1] - b[1]) < 1e-9 for a, b in zip(got, exp)), lambda: "curve %r, expected %r" % (got, exp))


def _close(c, x, y):
    return not c.symbolic and abs(float(x) - float(y)) < 1e-12


def report(c, names, kinds, edges, node, nrows):
    import pandas as pd
    from causalnex.evaluation import classification_report

    net, bn = make(c, names, kinds, edges)
    cols = list(net.parents[node])[::-1] + [node]
    rows = _rows(c, net, cols, nrows)
    df = pd.DataFrame({n: [r[n] for r in rows] for n in cols}, columns=cols)
    out = c.no_raise("reports", lambda: classification_report(bn, df, node))
    for r in rows if c.symbolic else []:
        m, _ = marginals(net, {p: r[p] for p in net.parents[node]})
        for i, s in enumerate(net.doms[node]):
            for q in net.doms[node][:i]:
                c.assume(m[(node, s)] != m[(node, q)])
    pred = []
    for r in rows:
        m, _ = marginals(net, {p: r[p] for p in net.parents[node]})
        best = None
        for s in sorted(net.doms[node]):
            if best is None or bool(m[(node, s)] > m[(node, best)]):
                best = s
        pred.append(best)
    want = {"%s_%s" % (node, s): s for s in net.doms[node]}
    c.check("states", set(want) <= set(out) and all(k in want or "avg" in k or k == "accuracy" for k in out), lambda: "report keys %r" % (list(out),))
    ties = any(not c.symbolic and any(abs(float(marginals(net, {p: r[p] for p in net.parents[node]})[0][(node, s)]) - float(marginals(net, {p: r[p] for p in net.parents[node]})[0][(node, q)])) < 1e-9
                                      for s in net.doms[node] if s != q) for r, q in zip(rows, pred))
    if ties:
        raise core.PathEnd()
    for k, s in want.items():
        tp = sum(1 for r, q in zip(rows, pred) if r[node] == s and q == s)
        pp, tt = sum(1 for q in pred if q == s), sum(1 for r in rows if r[node] == s)
        pr, rc = (tp / pp if pp else 0.0), (tp / tt if tt else 0.0)
        e = {"precision": pr, "recall": rc, "f1-score": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "support": tt}
        c.check("report", all(abs(float(out[k][x]) - v) < 1e-9 for x, v in e.items()), lambda: "%s: %r, expected %r (true %r, predicted %r)" % (k, out[k], e, [r[node] for r in rows], pred))


LABELS = ["auc", "roc", "states", "report"]
ASSUMPTIONS = ["test rows contain all parents of the node", "sklearn's roc_curve, auc and classification_report are replaced by their definitions, pgmpy and pandas by stubs; the tables are arbitrary",
               "equal probabilities of two states may be broken either way"]
BOUNDS = {"quick": "networks of 2-3 nodes, 2-3 states of mixed label kinds (names that are prefixes of labels, negative, two-digit and boolean labels), 1-2 test rows with every combination of values, all positive tables",
          "thorough": "up to 3 test rows"}

PAIR = dict(names=("a", "b"), kinds=("str", "bool"), edges=[(0, 1)])
INT3 = dict(names=("b", "a"), kinds=("bool", "int3"), edges=[(0, 1)])
LO = dict(names=("x", "lo"), kinds=("int", "str"), edges=[(0, 1)])
COLL = dict(names=("c", "a", "b"), kinds=("int", "str", "neg"), edges=[(0, 2), (1, 2)])
TRI = dict(names=("x", "cab"), kinds=("int", "tri"), edges=[(0, 1)])


def cases(tier):
    th = tier == "thorough"
    out = [("roc-pair", roc, dict(node="b", nrows=2, **PAIR), 5), ("roc-int3", roc, dict(node="a", nrows=2 if th else 1, **INT3), 5), ("roc-names", roc, dict(node="lo", nrows=2, **LO), 5),
           ("roc-root", roc, dict(node="a", nrows=2, **PAIR), 5), ("roc-collider", roc, dict(node="b", nrows=2 if th else 1, **COLL), 5), ("roc-tri", roc, dict(node="cab", nrows=1, **TRI), 5)]
    out += [("report-pair", report, dict(node="b", nrows=3 if th else 2, **PAIR), 5), ("report-int3", report, dict(node="a", nrows=2, **INT3), 5), ("report-collider", report, dict(node="b", nrows=2 if th else 1, **COLL), 5), ("report-tri", report, dict(node="cab", nrows=2, **TRI), 5)]
    return out
