"""Generated data under arbitrary random draws, and the structural equations they must satisfy."""
import itertools

from checks import env, npx
from checks import sm_common as sc  # noqa: F401
from symx import core

import numpy as np

KIND = {"gaussian": "normal", "normal": "normal", "student-t": "standard_t", "gumbel": "gumbel", "exponential": "exponential", "probit": "normal", "logit": "logistic", "uniform": "uniform"}


class Draw:
    """One call of the generator: `z` the standard variates (location 0, scale 1), `v` the numbers returned."""

    def __init__(self, kind, args, z, v):
        self.kind, self.args, self.z, self.v = kind, args, z, v


class Draws:
    """Arbitrary random numbers. Location and scale are applied to an arbitrary standard variate, so that it does not matter
    whether the code passes them to the generator or applies them itself."""

    def __init__(self, c, distinct=True, seeds=None):
        self.c, self.calls, self.n, self.distinct, self.tag = c, [], 0, distinct, ""

    def __call__(self, kind, shape, args):
        c = self.c
        if kind in ("random", "random_sample"):
            kind, args = "uniform", {"low": 0.0, "high": 1.0}
        if kind == "standard_normal":
            kind, args = "normal", {"loc": 0.0, "scale": 1.0}
        if kind not in ("uniform", "normal", "logistic", "gumbel", "exponential", "standard_t"):
            raise core.EngineError("random.%s" % kind)
        size = int(np.prod(shape)) if shape else 1
        z = np.empty(size, dtype=object if npx.symbolic() else float)
        for i in range(size):
            name = "%s%s%d" % (self.tag, kind[:3], self.n)
            self.n += 1
            if kind == "uniform":
                z[i] = c.real(name, lo=0, hi=1, hi_strict=True)
            else:
                z[i] = c.real(name, nonneg=kind == "exponential")
        if kind == "uniform" and size > 1 and self.distinct:
            for i, j in itertools.combinations(range(size), 2):
                c.assume(core.Or(z[i] < z[j], z[j] < z[i]))  # almost surely
        z = z.reshape(shape) if shape else z[0]
        lo = args.get("low", 0.0) if kind == "uniform" else args.get("loc", 0.0)
        sc_ = args.get("high", 1.0) - lo if kind == "uniform" else args.get("scale", 1.0)
        v = z if core.lift(lo) is not None and core.lift(lo).is_const() and float(lo) == 0 and not core.is_sym(sc_) and sc_ == 1 else lo + z * sc_
        self.calls.append(Draw(kind, args, z, v))
        return v

    def of(self, kind, size):
        return [d for d in self.calls if d.kind == kind and np.size(d.z) == size]


def one_of(c, label, hyps, msg):
    """One of the hypotheses holds on this path (several draws may be the one meant)."""
    fs = []
    for h in hyps:
        f = h()
        if f is True or (isinstance(f, core.SymBool) and implied(c, f)):
            c.check(label, f, msg)
            return
        if f is not False:
            fs.append(f)
    c.check(label, core.Or(*fs) if fs else False, msg)


def implied(c, f):
    if not c.symbolic:
        return bool(f)
    import z3

    return c._check(z3.Not(f.f)) == z3.unsat


def same(a, b):
    if core.is_sym(a) or core.is_sym(b):
        d = core.lift(a - b)
        if d.d.is_const() and all(abs(k) < 1e-9 * abs(d.d.const_value()) for k in d.n.t.values()):
            return True  # equal up to the rounding of numbers computed in floating point
        return a == b
    return bool(abs(a - b) <= 1e-6 * (1 + abs(a)))


def weights(c, draws, edge, w, ku, kv, wkind):
    """Candidate coefficient matrices of an edge: the given weight (on one arbitrary pair of categories), or drawn."""
    if w is not None:
        out = []
        for i, j in itertools.product(range(ku), range(kv)):
            m = [[0] * kv for _ in range(ku)]
            m[i][j] = w
            out.append(m)
        return out
    return [[[d.v.ravel()[i * kv + j] for j in range(kv)] for i in range(ku)] for d in draws.of(wkind, ku * kv)]


class Check:
    def __init__(self, c, draws, feats, types, edges, X, n, scale, dist, intercept, zif=None, order=None):
        self.c, self.draws, self.feats, self.types, self.edges, self.X, self.n = c, draws, feats, types, edges, X, n
        self.scale, self.dist, self.intercept, self.zif = scale, dist, intercept, zif
        self.used = set()
        self.order = order or [f for u in feats for f in feats[u]]

    def latents(self, v):
        """All candidate latent means of a variable (rows x features), without its noise."""
        c = self.c
        kv = len(self.feats[v])
        par = [(u, w) for (u, x), w in self.edges.items() if x == v]
        cand = [weights(c, self.draws, (u, v), w, len(self.feats[u]), kv, KIND[self.dist["weight"]]) for u, w in par]
        total = sum(len(f) for f in self.feats.values())
        if self.intercept:
            col = self.order.index(self.feats[v][0])
            pools = []
            for d in self.draws.of(KIND[self.dist["intercept"]], total):
                vals = list(np.asarray(d.v, dtype=object).ravel())
                first = [vals[col:col + kv]]
                pools += first + [list(p) for p in itertools.permutations(vals, kv) if list(map(id, p)) != list(map(id, first[0]))]
        else:
            pools = [[0] * kv]
        for icpt in pools:
            for mats in itertools.product(*cand):
                rows = []
                for r in range(self.n):
                    row = list(icpt)
                    for (u, _), m in zip(par, mats):
                        for i, f in enumerate(self.feats[u]):
                            x = self.X[f][r]
                            for j in range(kv):
                                row[j] = row[j] + x * m[i][j]
                    rows.append(row)
                yield rows, bool(par)

    def noisy(self, v, kind):
        kv = len(self.feats[v])
        for rows, par in self.latents(v):
            for d in self.draws.of(kind, self.n * kv):
                if id(d) in self.used or (kind == "standard_t" and d.args.get("df") != 5):
                    continue
                z = np.asarray(d.z, dtype=object).reshape(self.n, kv)
                s = self.scale if par else 1
                yield d, [[rows[r][j] + s * z[r, j] for j in range(kv)] for r in range(self.n)]

    def continuous(self, v):
        f = self.feats[v][0]
        hyps = []

        def h(d, lat):
            def run():
                r = core.And(*[same(self.X[f][t], lat[t][0]) for t in range(self.n)]) if npx.symbolic() else all(same(self.X[f][t], lat[t][0]) for t in range(self.n))
                if r is True:
                    self.used.add(id(d))
                return r
            return run

        one_of(self.c, "equation", [h(d, lat) for d, lat in self.noisy(v, KIND[self.dist["continuous"]])], "%s is not the weighted sum of its parents plus intercept and noise" % (v,))

    def binary(self, v):
        f = self.feats[v][0]
        y = [int(x) for x in self.X[f]]
        self.c.check("binary", all(float(a) in (0, 1) for a in self.X[f]), lambda: "values %r" % (list(self.X[f]),))

        def h(lat):
            def run():
                out = []
                for a, b in itertools.permutations(range(self.n), 2):
                    if y[a] > y[b]:
                        out.append(lat[a][0] > lat[b][0])
                pos, neg = [lat[t][0] > 0 for t in range(self.n)], [lat[t][0] <= 0 for t in range(self.n)]
                out.append(core.Or(core.And(*pos), core.And(*neg), core.And(*[pos[t] if y[t] else neg[t] for t in range(self.n)])))
                return core.And(*out)
            return run

        one_of(self.c, "binary", [h(lat) for _, lat in self.noisy(v, KIND[self.dist["binary"]])], "%s is not its latent value cut off" % (v,))

    def categorical(self, v):
        fs = self.feats[v]
        k = []
        for t in range(self.n):
            row = [float(self.X[f][t]) for f in fs]
            self.c.check("one-hot", sorted(row) == [0.0] * (len(fs) - 1) + [1.0], lambda: "row %r of %s" % (row, v))
            k.append(row.index(1.0))

        def h(lat):
            return lambda: core.And(*[lat[t][k[t]] >= lat[t][j] for t in range(self.n) for j in range(len(fs)) if j != k[t]])

        one_of(self.c, "one-hot", [h(lat) for _, lat in self.noisy(v, KIND[self.dist["categorical"]])], "%s is not the category of the largest latent value" % (v,))

    def count(self, v):
        f = self.feats[v][0]
        ks = [int(x) for x in self.X[f]]
        self.c.check("count", all(float(x) == int(x) >= 0 for x in self.X[f]), lambda: "values %r" % (list(self.X[f]),))
        us = [np.asarray(d.z, dtype=object).ravel() for d in self.draws.of("uniform", self.n)]
        hyps = []
        for rows, par in self.latents(v):
            for p in itertools.permutations(us, 2 if par else 3):
                hyps.append(self._count(ks, rows, p))
        one_of(self.c, "count", hyps, "%s is not the zero-inflated Poisson quantile of its rate" % (v,))

    def _count(self, ks, rows, us):
        def run():
            out = []
            for t in range(self.n):
                eta = rows[t][0] + (us[0][t] if len(us) == 3 else 0)
                zif, u = us[-2][t], us[-1][t]
                zero = zif < self.zif
                if ks[t] == 0:
                    out.append(core.Or(zero, self._between(0, eta, u)))
                else:
                    out.append(core.And(core.Not(zero), self._between(ks[t], eta, u)))
            return core.And(*out)
        return run

    @staticmethod
    def _between(k, eta, u):
        def at(lam):
            E = lam.__neg__().exp() if core.is_sym(lam) else float(np.exp(-lam))
            cdf, term = [], E
            for i in range(k + 1):
                cdf.append(term if not cdf else cdf[-1] + term)
                term = term * lam / (i + 1)
            eps = 0 if core.is_sym(u) or core.is_sym(lam) else 1e-9
            hi = u < cdf[k] + eps
            return hi if k == 0 else core.And(u >= cdf[k - 1] - eps, hi)

        if not core.is_sym(eta):
            return at(eta if eta >= 0 else float(np.exp(eta)))
        # the path has settled the sign of the latent value
        if bool(eta < 0):
            return at(eta.exp())
        return at(eta)

    def all(self):
        for v, t in self.types.items():
            getattr(self, t)(v)
