"""Shared pieces for the join-tree belief network: symbolic networks and the brute-force oracle."""
import itertools
import random as _random

from symx import core, engine

engine.bootstrap()
import causalnex.ebaybbn as ebay  # noqa: E402
from causalnex.ebaybbn import bbn as bbnmod  # noqa: E402


class Net:
    """A Bayesian network with symbolic tables: parents, domains, table[(node, parent values, value)]."""

    def __init__(self, nodes, parents, doms, table):
        self.nodes, self.parents, self.doms, self.table = nodes, parents, doms, table

    def joint(self):
        """[(assignment, probability)] over all assignments."""
        out = []
        for vals in itertools.product(*[self.doms[n] for n in self.nodes]):
            a = dict(zip(self.nodes, vals))
            p = 1
            for n in self.nodes:
                p = p * self.table[(n, tuple(a[q] for q in self.parents[n]), a[n])]
            out.append((a, p))
        return out

    def conditionals(self, order=None, row_order=None, given_order=None, value_order=None):
        """The {node: [[[(parent, value)...], {value: prob}]...]} form."""
        d = {}
        for n in order or self.nodes:
            rows = []
            combos = list(itertools.product(*[self.doms[q] for q in self.parents[n]]))
            if row_order:
                combos = row_order(n, combos)
            for pv in combos:
                givens = [[q, v] for q, v in zip(self.parents[n], pv)]
                if given_order:
                    givens = given_order(n, pv, givens)
                vals = list(self.doms[n])
                if value_order:
                    vals = value_order(n, pv, vals)
                rows.append([givens, {v: self.table[(n, pv, v)] for v in vals}])
            d[n] = rows
        return d

    def functions(self, order=None):
        """Factor functions f(parent..., child), named f_<node>."""
        fs = []
        for n in order or self.nodes:
            fs.append(make_factor(n, self.parents[n], self.table))
        return fs


def make_factor(n, parents, table):
    args = list(parents) + [n]
    env = {"T": table, "N": n}
    src = "def f_%s(%s):\n    return T[(N, (%s), %s)]\n" % (n, ", ".join(args), "".join(p + ", " for p in parents), n)
    exec(src, env)  # pylint: disable=exec-used
    return env["f_%s" % n]


DOMS = {
    "bool": [True, False],
    "str": ["lo", "hi"],
    "int": [0, 1],
    "tri": ["a", "b", "c"],
    "int3": [2, 10, 1],
}


def sym_table(c, nodes, parents, doms, zeros=None):
    """Positive symbolic entries, rows summing to one; zeros(n, pv, v) -> True makes an entry exactly 0."""
    table = {}
    for n in nodes:
        for pv in itertools.product(*[doms[q] for q in parents[n]]):
            free = [v for v in doms[n] if not (zeros and zeros(n, pv, v))]
            if not free:
                raise core.PathEnd()
            for v in doms[n]:
                if v not in free:
                    table[(n, pv, v)] = 0.0
                elif len(free) == 1:
                    table[(n, pv, v)] = 1.0
                else:
                    table[(n, pv, v)] = c.real("p(%s=%s|%s)" % (n, v, ",".join(map(str, pv))), pos=True, hi=1)
            if len(free) > 1:
                c.define_simplex([table[(n, pv, v)] for v in free])
    return table


def connected(nodes, edges):
    if not nodes:
        return True
    seen, todo = {nodes[0]}, [nodes[0]]
    while todo:
        x = todo.pop()
        for a, b in edges:
            for u, w in ((a, b), (b, a)):
                if u == x and w not in seen:
                    seen.add(w)
                    todo.append(w)
    return len(seen) == len(nodes)


def choose_dag(c, n, max_parents=3, only_connected=False, part=None):
    """A symbolic DAG over n positions: nodes in topological order, edges forked.

    part = bits deciding the edges into the last node (one slice of the case split)."""
    edges = []
    for j in range(n):
        k = 0
        for i in range(j):
            if part is not None and j == n - 1:
                if part >> i & 1:
                    edges.append((i, j))
                continue
            if k < max_parents and c.choice("edge%d-%d" % (i, j), [False, True]):
                edges.append((i, j))
                k += 1
    if only_connected and not connected(list(range(n)), edges):
        raise core.PathEnd()
    return edges


def parents_of(names, edges):
    return {names[j]: [names[i] for i, jj in edges if jj == j] for j in range(len(names))}


def marginals(net, evidence=None):
    """{(node, value): unnormalised mass}, total mass of the evidence."""
    m = {(n, v): 0 for n in net.nodes for v in net.doms[n]}
    tot = 0
    for a, p in net.joint():
        if evidence and any(a[k] != v for k, v in evidence.items()):
            continue
        tot = tot + p
        for n in net.nodes:
            m[(n, a[n])] = m[(n, a[n])] + p
    return m, tot


def check_query(c, net, res, evidence=None, label="posterior"):
    m, tot = marginals(net, evidence)
    keys = set(m)
    c.check(label + "-keys", set(res.keys()) == keys, lambda: "result keys %r, expected %r" % (sorted(map(str, res)), sorted(map(str, keys))))
    for k in m:
        exp = m[k] / tot if evidence else m[k]
        c.check_eq(label, res[k], exp, "P(%s=%s|%s)" % (k[0], k[1], evidence))


def build(c, net, how, **kw):
    """A network object from the tables through one of the public constructors."""
    if how == "conditionals":
        return ebay.build_bbn_from_conditionals(net.conditionals(**kw))
    fs = net.functions(**kw)
    doms = {n: list(d) for n, d in net.doms.items()}
    if how == "default-domains":
        return ebay.build_bbn(*fs)
    if how == "function-list":
        return ebay.build_bbn(fs, domains=doms)
    return ebay.build_bbn(*fs, domains=doms)


def make_net(c, names, doms, edges=None, zeros=0, order=None, max_parents=3, only_connected=False, part=None):
    """Symbolic network over names (topological order); zeros = bound on the number of zero entries."""
    e = choose_dag(c, len(names), max_parents, only_connected, part) if edges is None else edges
    par = parents_of(names, e)
    dd = {x: DOMS[d] for x, d in zip(names, doms)}
    cells = [0]

    def z(nn, pv, v):
        if cells[0] >= zeros:
            return False
        r = c.choice("zero(%s=%s|%s)" % (nn, v, pv), [False, True])
        cells[0] += bool(r)
        return r

    order = list(order or names)
    return Net(order, par, dd, sym_table(c, list(names), par, dd, z if zeros else None))


def choose_evidence(c, net, tag="", lo=0, hi=None):
    """A symbolic partial assignment."""
    ev = {}
    for n in net.nodes:
        if hi is not None and len(ev) >= hi:
            break
        v = c.choice("evidence%s(%s)" % (tag, n), [None] + list(range(len(net.doms[n]))))
        if v is not None:
            ev[n] = net.doms[n][v]
    if len(ev) < lo:
        raise core.PathEnd()
    return ev


def possible(c, net, ev):
    """Keep only evidence of positive probability."""
    _, tot = marginals(net, ev)
    c.assume(tot > 0)


def names_of(n):
    base = "abcdefgh"[:n]
    return [tuple(p) for p in itertools.permutations(base)]


SHAPES = {
    # positions are topological; connected and disconnected shapes beyond the enumerated size
    "chain5": (5, [(0, 1), (1, 2), (2, 3), (3, 4)]),
    "loop5": (5, [(0, 1), (0, 2), (1, 3), (2, 4), (3, 4)]),
    "poly5": (5, [(0, 2), (1, 2), (2, 3), (2, 4)]),
    "two5": (5, [(0, 1), (2, 3), (2, 4), (3, 4)]),
    "huang6": (6, [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 5)]),
    "asia6": (6, [(0, 2), (1, 3), (2, 4), (3, 4), (4, 5), (1, 5)]),
    "star5": (5, [(0, 4), (1, 4), (2, 4), (3, 4)]),
    "dense6": (6, [(0, 1), (0, 3), (2, 3), (1, 4), (3, 4), (2, 5), (3, 5), (4, 5)]),
    "hard6": (6, [(0, 1), (0, 2), (1, 3), (2, 4), (3, 5), (4, 5), (0, 5)]),
    "mix6": (6, [(0, 2), (1, 2), (2, 3), (1, 4), (3, 4), (4, 5)]),
    "naive5": (5, [(0, 1), (0, 2), (0, 3), (0, 4)]),
}


def rotate_names(n, k):
    ps = names_of(n)
    return ps[(k * 37 + 11) % len(ps)]


class OSet(set):
    """A set whose iteration order is a symbolic choice (stands in for hash and address order)."""

    budget = [0]

    def __init__(self, it=()):
        it = list(it)
        set.__init__(self, it)
        self._order = []
        for x in it:
            if not any(x is y or x == y for y in self._order):
                self._order.append(x)

    def __iter__(self):
        cur = [x for x in self._order if set.__contains__(self, x)]
        cur += [x for x in set.__iter__(self) if not any(x is y for y in cur) and x not in cur]
        if len(cur) > 1:
            c = core.CTX
            k = OSet.budget[0]
            OSet.budget[0] = k - 1
            if k > 0:
                if len(cur) <= 3:
                    cur = c.permutation("setorder%d" % k, cur)
                else:
                    o = c.choice("setorder%d" % k, ["same", "reversed", "rotated", "swapped"])
                    cur = {"same": cur, "reversed": cur[::-1], "rotated": cur[1:] + cur[:1], "swapped": [cur[1], cur[0]] + cur[2:]}[o]
            elif OSet.rest == "reversed":
                cur = cur[::-1]
        return iter(cur)

    rest = "same"

    def add(self, x):
        if x not in self:
            self._order.append(x)
        set.add(self, x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def intersection(self, *os):
        return OSet(x for x in list(self._order) if set.__contains__(self, x) and all(x in o for o in os))

    def union(self, *os):
        return OSet(list(self._order) + [x for o in os for x in o])

    def difference(self, *os):
        return OSet(x for x in list(self._order) if set.__contains__(self, x) and not any(x in o for o in os))

    __and__ = intersection
    __or__ = union
    __sub__ = difference


class set_orders:
    """Within the block, sets made by name in the join-tree code iterate in symbolic order."""

    def __init__(self, c, budget):
        self.budget = budget
        OSet.rest = c.choice("setorder-rest", ["same", "reversed"])

    def __enter__(self):
        OSet.budget[0] = self.budget
        bbnmod.set = OSet

    def __exit__(self, *a):
        del bbnmod.set
