"""NOTEARS / DYNOTEARS with the optimiser and the matrix exponential supplied by the check."""
import warnings
from types import SimpleNamespace

import numpy as np

from checks import env, npx
from symx import core
from symx import poly as P

BOUNDED = {None, "nelder-mead", "l-bfgs-b", "tnc", "slsqp", "powell", "trust-constr", "cobyla"}


def modules():
    return npx.load("causalnex.structure.notears", "causalnex.structure.dynotears")


def pairs(bounds, n):
    """Bounds of every variable as (lo, hi)."""
    if bounds is None:
        return [(None, None)] * n
    if hasattr(bounds, "lb"):
        f = lambda v: None if v in (np.inf, -np.inf) else v
        return [(f(a), f(b)) for a, b in zip(np.broadcast_to(bounds.lb, (n,)), np.broadcast_to(bounds.ub, (n,)))]
    out = []
    for lo, hi in bounds:
        out.append((None if lo is None or lo == -np.inf else lo, None if hi is None or hi == np.inf else hi))
    if len(out) != n:
        raise ValueError("length of x0 != length of bounds")
    return out


class Run:
    """Records of one learning run."""

    def __init__(self, c, expm, calls=3, on_call=None):
        self.c, self.mode, self.limit, self.on_call = c, expm, calls, on_call
        self.xs = []
        self.bounds = []
        self.exps = []

    def minimize(self, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None, options=None):
        if constraints:
            raise core.EngineError("a constrained optimiser is not modelled")
        x0 = np.asarray(x0)
        n = x0.size
        bs = pairs(bounds, n) if method is None or str(method).lower() in BOUNDED else [(None, None)] * n
        k = len(self.xs)
        self.c.assume(k < self.limit)
        vals = []
        for i, (lo, hi) in enumerate(bs):
            if lo is not None and hi is not None and lo == hi:
                vals.append(float(lo))
            else:
                vals.append(self.value(k, i, lo, hi))
        x = arr(vals)
        self.xs.append(list(vals))
        self.bounds.append(bs)
        if self.on_call is not None:
            if jac is True:
                f, g = (lambda z: fun(z, *args)[0]), (lambda z: fun(z, *args)[1])
            else:
                f, g = (lambda z: fun(z, *args)), ((lambda z: jac(z, *args)) if callable(jac) else None)
            free = [i for i, (lo, hi) in enumerate(bs) if not (lo is not None and lo == hi)]
            self.on_call(f, g, x, free, k)
        import scipy.optimize

        return scipy.optimize.OptimizeResult(x=x, success=True, fun=0.0, status=0, message="", nit=1, jac=None)

    def value(self, k, i, lo, hi):
        return self.c.real("x%d.%d" % (k, i), lo=lo, hi=hi, nonneg=lo == 0)

    def expm(self, M):
        M = np.asarray(M)
        d = M.shape[0]
        if self.mode == "free":
            key = repr([core.lift(v).n.key() if core.is_sym(v) else float(v) for v in M.ravel()])
            for k, (kk, t) in enumerate(self.exps):
                if kk == key:
                    break
            else:
                t = self.c.real("h%d" % len(self.exps), nonneg=True)
                self.exps.append((key, t))
            E = np.eye(d).astype(object if core.is_sym(t) else float)
            E[0, 0] = E[0, 0] + t
            return E
        if self.mode == "formal":
            if not npx.symbolic():
                import scipy.linalg

                return scipy.linalg.expm(np.asarray(M, dtype=float))
            M = npx.obj(M)
            key = repr([core.lift(v).n.key() for v in M.ravel()])
            for kk, E, _ in self.exps:
                if kk == key:
                    return E.copy()
            n = len(self.exps)
            E = np.empty((d, d), dtype=object)
            for i in range(d):
                for j in range(d):
                    E[i, j] = self.c.real("E%d.%d.%d" % (n, i, j), lo=1 if i == j else 0)
            self.exps.append((key, E, M))
            return E.copy()
        if self.mode == "series":
            return series(M, d)
        raise core.EngineError(self.mode)

    def __enter__(self):
        self.h = npx.hooks(minimize=self.minimize, expm=self.expm)
        self.h.__enter__()
        self.w = warnings.catch_warnings(record=True)
        self.warned = self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.w.__exit__(*a)
        self.h.__exit__(*a)

    @property
    def unconverged(self):
        return any("converge" in str(w.message) for w in self.warned)


def arr(vals):
    if npx.symbolic():
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return a
    return np.array(vals, dtype=float)


def series(M, k):
    """The exponential's power series up to the k-th power."""
    d = M.shape[0]
    E = np.eye(d).astype(M.dtype)
    T = E
    for i in range(1, k + 1):
        T = T.dot(M) / i
        E = E + T
    return E


def frame(c, cols, rows, tag="d"):
    import pandas as pd

    return pd.DataFrame({n: [c.real("%s.%s.%d" % (tag, n, i), default=0.25 * i + j) for i in range(rows)] for j, n in enumerate(cols)})


def matrix(c, rows, d, tag="d"):
    return arr([c.real("%s.%d.%d" % (tag, i, j), default=0.25 * i + j) for i in range(rows) for j in range(d)]).reshape(rows, d)


def close(a, b):
    return a is b or a == b


def tabu(c, nodes, edges, tag="", which=("edges", "parents", "children")):
    """Arbitrary tabu arguments (None, or any subset) and the predicate they stand for."""
    kw = {}
    for w in which:
        items = edges if w == "edges" else nodes
        k = c.choice(tag + "tabu-" + w, ["none", "given"])
        if k == "given":
            kw["tabu_edges" if w == "edges" else "tabu_parent_nodes" if w == "parents" else "tabu_child_nodes"] = [x for x in items if c.bool("%stabu-%s-%s" % (tag, w, x))]
    te, tp, tc = kw.get("tabu_edges") or (), kw.get("tabu_parent_nodes") or (), kw.get("tabu_child_nodes") or ()
    banned = lambda e: e[:3] in te or e[-2] in tp or e[-1] in tc
    return kw, banned


def check_graph(c, sm, nodes, possible, banned, thr, origin="learned"):
    """Constraints of a learned graph; `possible`: the edges that may exist at all."""
    ns = list(sm.nodes)
    c.check("nodes", len(ns) == len(nodes) and set(ns) == set(nodes), lambda: "nodes %r, expected %r" % (ns, nodes))
    for u, v, d in sm.edges(data=True):
        c.check("no-self-loop", u != v, "self loop on %r" % (u,))
        c.check("possible", (u, v) in possible, "edge %r -> %r goes against time or the columns" % (u, v))
        c.check("tabu", not banned(possible[(u, v)]), "edge %r -> %r is forbidden" % (u, v))
        w = d["weight"]
        c.check("nonzero", core.Or(w < 0, w > 0) if core.is_sym(w) else w != 0, "edge %r -> %r has weight 0" % (u, v))
        c.check("threshold", core.Or(w >= thr, w <= -thr), lambda: "edge %r -> %r below the threshold" % (u, v))
        if origin:
            c.check("origin", d.get("origin") == origin, "origin of %r -> %r is %r" % (u, v, d.get("origin")))


def check_thresholded(c, sm, full, thr):
    """sm is `full` (threshold 0) without its edges below the threshold."""
    edges = {(u, v): d["weight"] for u, v, d in sm.edges(data=True)}
    every = {(u, v): d["weight"] for u, v, d in full.edges(data=True)}
    for e, w in edges.items():
        c.check("weight", e in every, lambda: "edge %r appears only under a threshold" % (e,))
        c.check_eq("weight", w, every[e], "weight of %r" % (e,))
    for e, w in every.items():
        if e not in edges:
            c.check("complete", core.And(w <= thr, w >= -thr), lambda: "edge %r of weight %r is above the threshold but missing" % (e, w))


def weights(x, d, p):
    """The weights {(lag, i, j)} one optimiser result stands for; None for an unknown parametrisation."""
    q = d * d
    if p == 0 and len(x) == q:
        return {(0, i, j): x[i * d + j] for i in range(d) for j in range(d)}
    if len(x) == 2 * q * (p + 1):
        return {(k, i, j): x[2 * k * q + i * d + j] - x[(2 * k + 1) * q + i * d + j] for k in range(p + 1) for i in range(d) for j in range(d)}
    return None


def check_free(c, run, d, p, allowed):
    """Every allowed weight {(lag, i, j)} may be learned with either sign."""
    q = d * d
    for bs in run.bounds:
        above, below = [hi is None or hi > 0 for lo, hi in bs], [lo is None or lo < 0 for lo, hi in bs]
        for k, i, j in allowed:
            if p == 0 and len(bs) == q:
                a, b = above[i * d + j], below[i * d + j]
            elif len(bs) == 2 * q * (p + 1):
                m, n = 2 * k * q + i * d + j, (2 * k + 1) * q + i * d + j
                a, b = above[m] or below[n], below[m] or above[n]
            else:
                return
            c.check("only-tabu", bool(a and b), lambda: "column %d -> column %d at lag %d is kept out of the graph although no tabu names it (positive %s, negative %s)" % (i, j, k, a, b))


def check_learned(c, full, run, d, p, slot):
    """`full` (learned with threshold 0) has exactly the nonzero weights of a result of the optimiser."""
    got = {slot[e]: full.edges[e]["weight"] for e in full.edges}
    cand = []
    for x in reversed(run.xs):
        W = weights(x, d, p)
        if W is None:
            return
        eqs = [got.get(s, 0.0) == w for s, w in W.items()]
        if all(e is True or (not core.is_sym(e) and bool(e)) for e in eqs):
            return c.check("complete", True, "")
        cand.append(core.And(*eqs))
    ok = core.Or(*cand) if npx.symbolic() else any(all(abs(float(got.get(s, 0.0)) - float(w)) <= 1e-9 for s, w in weights(x, d, p).items()) for x in run.xs)
    c.check("complete", ok, lambda: "learned edges %r are no result of the optimiser: %r" % (got, [weights(x, d, p) for x in run.xs]))


# -- formal derivatives (symbolic runs)
def _root_reduce(p):
    """Even powers of square roots replaced by what is under the root."""
    args = core.CTX.aux_args
    while True:
        for v in sorted(p.vids()):
            if v in args and args[v][0] == "sqrt" and any(e > 1 for m in p.t for w, e in m if w == v):
                a = args[v][1][0]
                if a.d is not core.ONE:
                    raise core.EngineError("square root of a quotient")
                out = P.Poly({})
                for m, c in p.t.items():
                    e = dict(m).get(v, 0)
                    rest = tuple((w, k) for w, k in m if w != v)
                    t = P.Poly({rest + () if not e % 2 else tuple(sorted(rest + ((v, 1),))): c})
                    for _ in range(e // 2):
                        t = t * a.n
                    out = out + t
                p = out
                break
        else:
            return p


def derivative(f, x, exps, dM=None):
    """d f / d x for symbolic f; the matrix exponentials E = expm(M) in `exps` enter through d trace(E) = trace(E dM)."""
    f = core.lift(f)
    p = _root_reduce(f.n)
    if f.d is not core.ONE:
        raise core.EngineError("derivative of a quotient")
    args = core.CTX.aux_args
    bad = [args[v][0] for v in p.vids() if v in args]
    if bad:
        raise core.EngineError("derivative of %s" % bad[0])
    (vid,) = x.n.vids()
    out = core.SymReal(p.diff(vid))
    for _, E, M in exps:
        d = len(E)
        part = [[core.SymReal(p.diff(next(iter(E[i, j].n.vids())))) for j in range(d)] for i in range(d)]
        if not all(part[i][j].n.is_zero() for i in range(d) for j in range(d) if i != j) or not all((part[i][i] - part[0][0]).n.is_zero() for i in range(d)):
            raise core.EngineError("the objective is not a function of the exponential's trace")
        s = 0
        for i in range(d):
            for j in range(d):
                dm = core.SymReal(_root_reduce(core.lift(M[i, j]).n).diff(vid))
                s = s + E[j, i] * dm
        out = out + part[0][0] * s
    return out


def loss(X, W, XL=None, A=None):
    """1/(2n) times the squared residuals."""
    n, d = X.shape
    R = [[X[r, j] - sum(X[r, i] * W[i][j] for i in range(d)) - (sum(XL[r, i] * A[i][j] for i in range(XL.shape[1])) if XL is not None else 0) for j in range(d)] for r in range(n)]
    return sum(v * v for row in R for v in row) / (2 * n)
