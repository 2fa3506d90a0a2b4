"""Random structures: for every outcome of the random generator, a weighted acyclic graph of the requested kind."""
from checks import env, npx
from checks import sm_common as sc
from symx import core

import numpy as np


def _mods():
    return npx.load("causalnex.structure.data_generators.core", "causalnex.structure.data_generators.wrappers")


class Draws:
    """Every draw arbitrary within the support of its distribution; positions outside `free` are settled concretely
    (by a pattern), to bound the number of paths."""

    def __init__(self, c, free=None, fixed=0.25):
        self.c, self.free, self.fixed, self.n = c, free, fixed, 0

    def __call__(self, kind, shape, args):
        c = self.c
        k, self.n = self.n, self.n + 1
        size = int(np.prod(shape)) if shape else 1
        if kind == "permutation":
            x = args["x"]
            a = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
            order = c.permutation("perm%d" % k, list(range(len(a)))) if len(a) <= 3 else list(range(len(a)))
            return a[order]
        if kind == "choice":
            pool = list(args["a"]) if np.ndim(args["a"]) else list(range(int(args["a"])))
            uniq = sorted(set(int(x) for x in pool))
            return np.array([c.choice("choice%d.%d" % (k, i), uniq) for i in range(size)], dtype=int).reshape(shape)
        if kind == "randint":
            raise core.EngineError("randint")
        lo, hi = None, None
        if kind in ("uniform", "random", "random_sample"):
            lo, hi = args.get("low", 0.0), args.get("high", 1.0)
        elif kind == "exponential":
            lo = 0.0
        out = np.empty(size, dtype=object if npx.symbolic() else float)
        unit = kind in ("random", "random_sample") or (kind == "uniform" and not core.is_sym(lo) and (lo, hi) == (0.0, 1.0))
        for i in range(size):
            if unit and self.free is not None and i not in self.free:
                out[i] = self.fixed if not isinstance(self.fixed, (list, tuple)) else self.fixed[i % len(self.fixed)]
            elif lo is not None and hi is not None:
                out[i] = c.real("u%d.%d" % (k, i), lo=lo, hi=hi, hi_strict=unit)
            else:
                out[i] = c.real("%s%d.%d" % (kind, k, i), lo=lo, nonneg=lo == 0.0)
        out = out.reshape(shape)
        return out if shape else out[()]


def within(w, lo, hi):
    return core.Or(core.And(w >= lo, w <= hi), core.And(-w >= lo, -w <= hi))


def static(c, n, kind, free=None, fixed=0.25, degrees=None, strict=True):
    core_, _ = _mods()
    degree = c.choice("degree", degrees or ([0, 1] if n == 2 else [1, n - 1]))
    # signs are ignored in the bounds
    lo = c.real("w_min", lo=0, default=0.25) if not strict else c.real("w_min", pos=True, default=0.25)
    hi = c.real("w_max", nonneg=True, default=0.75)
    neg = c.choice("negated", [False, True]) if n == 2 else False
    with npx.source(Draws(c, free, fixed)):
        call = lambda: core_.generate_structure(n, degree, graph_type=kind, w_min=-lo if neg else lo, w_max=hi)
        if bool(lo > hi):
            c.raises("bounds-rejected", ValueError, call, "w_min above w_max")
            return
        sm = c.no_raise("accepted", call)
    c.check("nodes", sorted(sm.nodes) == list(range(n)), lambda: "nodes %r" % (list(sm.nodes),))
    es = list(sm.edges)
    c.check("acyclic", not sc.cyclic(es), lambda: "cycle in %r" % (es,))
    for u, v, w in sm.edges(data="weight"):
        c.check("weight-range", within(w, lo, hi), lambda: "weight %r of %r outside the bounds" % (w, (u, v)))
    if not strict:
        return
    if kind == "full" or (kind == "erdos-renyi" and degree >= n - 1):
        c.check("complete", len(es) == n * (n - 1) // 2, lambda: "%d edges in a %s graph of degree %d" % (len(es), kind, degree))
    if degree == 0 and kind != "full":
        c.check("empty", not es, lambda: "edges %r with degree 0" % (es,))
    if kind == "barabasi-albert" and round(degree / 2) >= 1:
        und = set(frozenset(e) for e in es)
        comp = len(sc.components(list(range(n)), es))
        c.check("connected", comp == 1, lambda: "edges %r of a barabasi-albert graph" % (es,))


def dynamic(c, n, p, inter, intra="erdos-renyi", free=None, fixed=0.25, degrees=((0, 0), (1, 1)), decays=(1.0, 2.0)):
    _, W = _mods()
    di, de = c.choice("degrees", list(degrees))
    decay = c.choice("decay", list(decays))
    lo, hi = c.real("w_min_intra", pos=True, default=0.25), c.real("w_max_intra", nonneg=True, default=0.75)
    lo2, hi2 = c.real("w_min_inter", pos=True, default=0.5), c.real("w_max_inter", nonneg=True, default=1.0)
    with npx.source(Draws(c, free, fixed)):
        call = lambda: W.generate_structure_dynamic(n, p, di, de, graph_type_intra=intra, graph_type_inter=inter, w_min_intra=lo, w_max_intra=hi,
                                                    w_min_inter=lo2, w_max_inter=hi2, w_decay=decay)
        if bool(core.Or(lo > hi, lo2 > hi2)):
            c.raises("bounds-rejected", ValueError, call, "minimum weight above the maximum")
            return
        sm = c.no_raise("accepted", call)
    names = {"%d_lag%d" % (i, k) for i in range(n) for k in range(p + 1)}
    c.check("nodes", set(sm.nodes) == names, lambda: "nodes %r" % (sorted(sm.nodes),))
    intra_e, inter_e = [], []
    for u, v, w in sm.edges(data="weight"):
        ku, kv = int(u.rsplit("_lag", 1)[1]), int(v.rsplit("_lag", 1)[1])
        c.check("direction", kv == 0, lambda: "edge %s -> %s does not end at the present" % (u, v))
        if ku == 0:
            intra_e.append((u, v))
            c.check("weight-range", within(w, lo, hi), lambda: "weight %r of %r" % (w, (u, v)))
        else:
            inter_e.append((u, v))
            c.check("decayed-range", within(w * decay ** (ku - 1), lo2, hi2), lambda: "weight %r of %r" % (w, (u, v)))
    c.check("acyclic", not sc.cyclic(intra_e), lambda: "cycle in %r" % (intra_e,))
    if inter == "full" or de >= n:
        c.check("complete", len(inter_e) == n * n * p, lambda: "%d lagged edges" % len(inter_e))
    elif de == 0:
        c.check("empty", not inter_e, lambda: "lagged edges %r with degree 0" % (inter_e,))
    if di == 0 and intra != "full":
        c.check("empty", not intra_e, lambda: "edges %r with degree 0" % (intra_e,))
    if intra == "full" or di >= n - 1 and intra == "erdos-renyi":
        c.check("complete", len(intra_e) == n * (n - 1) // 2, lambda: "%d present edges" % len(intra_e))


def reject(c):
    C, W = _mods()
    which = c.choice("which", ["few-nodes", "few-nodes-dynamic", "type", "type-intra", "type-inter"])
    bad = c.choice("type", ["erdos_renyi", "", "Full", "barabasi-albert"])
    n = c.choice("n", [1, 0])
    kind = c.choice("kind", ["erdos-renyi", "barabasi-albert", "full"])
    with npx.source(Draws(c, free=())):
        if which == "few-nodes":
            c.raises("invalid-rejected", ValueError, lambda: C.generate_structure(n, 1, graph_type=kind))
        elif which == "few-nodes-dynamic":
            c.raises("invalid-rejected", ValueError, lambda: W.generate_structure_dynamic(n, 1, 1, 1, graph_type_intra=kind))
        elif which == "type" and bad != "barabasi-albert":
            c.raises("invalid-rejected", ValueError, lambda: C.generate_structure(2, 1, graph_type=bad))
        elif which == "type-intra" and bad != "barabasi-albert":
            c.raises("invalid-rejected", ValueError, lambda: W.generate_structure_dynamic(2, 1, 1, 1, graph_type_intra=bad))
        elif which == "type-inter":
            c.raises("invalid-rejected", ValueError, lambda: W.generate_structure_dynamic(2, 1, 1, 1, graph_type_inter=bad))


LABELS = ["nodes", "acyclic", "weight-range", "complete", "empty", "connected", "direction", "decayed-range", "bounds-rejected", "invalid-rejected"]
ASSUMPTIONS = ["random draws lie in the support of their distribution (unit draws below 1); permutations are arbitrary", "the smallest weight is positive (a weight of 0 is no edge) except in the cases that only bound weights",
               "pandas, numpy and networkx are replaced by models where numbers are symbolic"]
BOUNDS = {"quick": "2 nodes with all draws free; 3 nodes with up to 4 positions of each unit draw free (others fixed, several patterns), all permutations; dynamic: 2 variables, up to 2 lags; arbitrary weight bounds",
          "thorough": "3 nodes with 6 free positions, 4 nodes with 4, 2 variables and 3 lags"}


def cases(tier):
    out = []
    for kind in ("erdos-renyi", "full"):
        out.append(("%s-2" % kind, static, dict(n=2, kind=kind), 5))
        for tag, free, fixed in (("a", (3, 6, 1), 0.75), ("b", (3, 7), 0.25), ("c", (7, 2), [0.75, 0.25])):
            out.append(("%s-3%s" % (kind, tag), static, dict(n=3, kind=kind, free=free, fixed=fixed), 10))
    out.append(("barabasi-2", static, dict(n=2, kind="barabasi-albert", degrees=[0, 2, 3]), 5))
    out.append(("barabasi-3", static, dict(n=3, kind="barabasi-albert", degrees=[2, 4], free=(1, 3, 6)), 10))
    out.append(("barabasi-4", static, dict(n=4, kind="barabasi-albert", degrees=[2], free=(4,)), 10))
    out.append(("zero-weight", static, dict(n=2, kind="full", strict=False, free=(1, 2)), 5))
    for inter in ("erdos-renyi", "full"):
        out.append(("dynamic-%s-1" % inter, dynamic, dict(n=2, p=1, inter=inter, free=(0, 2), degrees=((0, 1), (1, 2))), 10))
        out.append(("dynamic-%s-2" % inter, dynamic, dict(n=2, p=2, inter=inter, free=(2, 5), fixed=[0.25, 0.75], degrees=((1, 1), (0, 0))), 10))
    out.append(("dynamic-full", dynamic, dict(n=2, p=2, inter="erdos-renyi", intra="full", free=(3, 6), fixed=[0.75, 0.25], degrees=((0, 2),)), 10))
    out.append(("dynamic-p0", dynamic, dict(n=2, p=0, inter="erdos-renyi", free=(2,)), 3))
    out.append(("dynamic-barabasi", dynamic, dict(n=2, p=1, inter="full", intra="barabasi-albert", free=(1,), degrees=((2, 0),)), 3))
    out.append(("reject", reject, {}, 2))
    if tier == "thorough":
        for kind in ("erdos-renyi", "full"):
            out.append(("%s-3all" % kind, static, dict(n=3, kind=kind, free=(1, 2, 3, 5, 6, 7), fixed=0.75), 100))
            out.append(("%s-4" % kind, static, dict(n=4, kind=kind, free=(4, 8, 9, 14), fixed=[0.75, 0.25]), 60))
        out.append(("dynamic-3", dynamic, dict(n=3, p=1, inter="erdos-renyi", free=(1, 3, 6), fixed=0.75), 60))
        out.append(("dynamic-lag3", dynamic, dict(n=2, p=3, inter="erdos-renyi", free=(2, 5, 11), fixed=0.75), 60))
    return out
