"""Non-linear tabular data: each variable is its documented type applied to a Gaussian process of its own parents' rows."""
import itertools

from checks import env, npx
from checks import gen_common as gc
from checks.c52 import ref_features
from checks.c61 import graph, _mods, Float, BIN, CAT, CONT
from symx import core

import numpy as np


def own(i):
    return 2.0 + i


def cross(i):
    return 0.5 + 0.25 * i


def kernel(log):
    from sklearn.gaussian_process.kernels import Kernel

    class K(Kernel):
        """An arbitrary kernel: every covariance it returns is recognisable, and the same for the same inputs."""

        def __init__(self):
            self.known = []

        def number(self, X):
            for i, Z in enumerate(self.known):
                if Z.shape == X.shape and all(gc.same(a, b) is True for a, b in zip(Z.ravel(), X.ravel())):
                    return i
            self.known.append(np.array(X))
            return len(self.known) - 1

        def __call__(self, X, Y=None, eval_gradient=False):
            X = np.asarray(X)
            if Y is None:
                cov = np.eye(len(X)) * own(self.number(X))
            else:
                Y = np.asarray(Y)
                cov = np.eye(len(X), len(Y)) * cross(min(self.number(X), self.number(Y)))
            log.append((np.array(X), None if Y is None else np.array(Y), cov))
            return cov

    return K()


class GP(gc.Draws):
    """Multivariate normal draws are arbitrary vectors; `free` positions stay symbolic in long ones."""

    def __init__(self, c, log, free=None):
        super().__init__(c)
        self.log, self.free, self.mvn = log, free, []

    def __call__(self, kind, shape, args):
        c = self.c
        if kind == "multivariate_normal":
            cov = np.asarray(args["cov"])
            n = len(cov)
            f = self.vector("%sgp%d" % (self.tag, self.n), n, -1, 1)
            self.n += 1
            c.assume(core.Or(f[0] < f[1], f[1] < f[0])) if n > 1 else None
            # the most recent kernel evaluation belongs to this draw
            xs = [X for X, Y, _ in self.log if Y is None and len(X) == n]
            self.mvn.append((xs[-1] if xs else None, cov, f, args.get("mean")))
            return f
        if self.free is not None and shape and int(np.prod(shape)) > 10:
            f = self.vector("%s%d" % (kind[:3], self.n), int(np.prod(shape)), 0, 1)
            self.n += 1
            self.calls.append(gc.Draw(kind, args, f, f * args.get("scale", 1.0)))
            return self.calls[-1].v
        return super().__call__(kind, shape, args)

    def vector(self, name, n, lo, hi):
        f = np.empty(n, dtype=object if npx.symbolic() else float)
        for i in range(n):
            if self.free is not None and n > 10:
                base = ((i * 37 + (11 * self.n if "gp" in name else 0)) % n + 0.5) / n
                f[i] = self.c.real("%s.%d" % (name, i), lo=base - 2.2 / n, hi=base + 2.2 / n) if i in self.free and "gp" not in name else base
            else:
                f[i] = self.c.real("%s.%d" % (name, i))
        if self.free is not None and n > 10:
            for i in [k for k in self.free if k < n and "gp" not in name]:  # no (near) ties: which of two equal inputs got which value would not be observable
                for j in range(n):
                    if j != i and (j not in self.free or j < i) and (j in self.free or abs(((i * 37) % n) - ((j * 37) % n)) < 4):
                        self.c.assume(core.Or(f[i] <= f[j] - 1e-3, f[i] >= f[j] + 1e-3))
        return f


class Check(gc.Check):
    def latents(self, v):
        par = [u for (u, x) in self.edges if x == v]
        kv = len(self.feats[v])
        if not par:
            yield [[0] * kv for _ in range(self.n)], False
            return
        cols = [f for u in par for f in self.feats[u]]
        fs = [f for f in self.processes(cols)]
        for p in itertools.permutations(fs, kv):
            yield [[p[j][r] for j in range(kv)] for r in range(self.n)], True

    def processes(self, cols):
        """Scaled sample functions whose inputs are the given columns."""
        mvn, n = self.draws.mvn, self.n
        for perm in itertools.permutations(cols):
            X = [[self.X[f][r] for f in perm] for r in range(n)]
            i = 0
            while i < len(mvn):
                # one draw over all rows, or successive draws over a partition of the rows
                rows, f, k = [], [], i
                while k < len(mvn) and len(rows) < n and mvn[k][0] is not None:
                    rows += [list(r) for r in mvn[k][0]]
                    f += list(mvn[k][2])
                    k += 1
                if len(rows) == n:
                    where = match(rows, X)
                    if where is not None:
                        y = np.empty(n, dtype=object if npx.symbolic() else float)
                        y[:] = f
                        m = sum(y) / n
                        var = sum((t - m) * (t - m) for t in y) / n
                        sd = core.lift(var).sqrt(nonneg=True) if core.is_sym(var) else float(var) ** 0.5
                        yield [y[w] / sd for w in where]
                i += 1


def match(rows, X):
    """For each row of X the position of the same row among `rows` (identical entries), each used once."""
    if all(gc.same(a, b) is True for r, x in zip(rows, X) for a, b in zip(r, x)) and all(len(r) == len(x) for r, x in zip(rows, X)):
        return list(range(len(X)))
    left = list(range(len(rows)))
    out = []
    for x in X:
        hit = [i for i in left if len(rows[i]) == len(x) and all(gc.same(a, b) is True for a, b in zip(rows[i], x))]
        if not hit:
            return None
        out.append(hit[0])
        left.remove(hit[0])
    return out


def data(c, nodes, types, edges, n, dist=None, default=None, logs=None, via="sem", free=None):
    C, W = _mods()
    schema = dict(types)
    types = {v: types.get(v, default or "continuous") for v in nodes}
    feats = ref_features(types)
    kinds = {v: t.split(":")[0] for v, t in types.items()}
    names = [f for v in nodes for f in feats[v]]
    g, w = graph(c, nodes, edges, True)
    full = {"continuous": "gaussian", "binary": "logit", "categorical": "logit", "count": 0.05}
    asked = {k: c.choice(k, v) for k, v in (dist or {}).items()}
    if "count" in kinds.values():
        z = c.real("zero-inflation", lo=0, hi=1, default=0.25)
        asked["count"] = Float(z) if npx.symbolic() else z
    full.update(asked)
    scale = c.real("noise_std", pos=True, default=0.5)
    log = []
    draws = GP(c, log, free)
    with npx.source(draws), npx.logs(logs):
        if via == "sem":
            df = c.no_raise("accepted", lambda: C.nonlinear_sem_generator(g, kernel=kernel(log), schema=schema or None, **({"default_type": default} if default else {}),
                                                                           noise_std=scale, n_samples=n, distributions=asked or None, seed=3))
        else:
            kind = list(kinds.values())[0]
            kw = dict(zero_inflation_factor=full["count"]) if kind == "count" else dict(noise_scale=scale, distribution=full[kind])
            if kind == "categorical":
                kw["n_categories"] = int(default.split(":")[1])
            df = c.no_raise("accepted", lambda: getattr(W, via)(g, n_samples=n, kernel=kernel(log), seed=3, **kw))
    if isinstance(df, np.ndarray):
        c.check("columns", df.shape == (n, len(names)), lambda: "shape %r" % (df.shape,))
        X = {f: list(df[:, i]) for i, f in enumerate(names)}
    else:
        c.check("columns", sorted(df.columns) == sorted(names), lambda: "columns %r" % (list(df.columns),))
        X = {f: list(df[f].values) for f in names}
        names = list(df.columns)
    c.check("covariance", all(any(np.shape(cov) == np.shape(k) and np.array_equal(np.asarray(cov, dtype=float), k) for _, Y, k in log if Y is None) for _, cov, _, _ in draws.mvn) if free is None else True,
            "a sample was drawn with a covariance that is not the kernel's")
    if free is not None:  # one process, drawn in batches
        for i, (X_, cov, f, mean) in enumerate(draws.mvn):
            m = len(f)
            ref, var = [0.0] * m, [own(i)] * m
            if i:
                k = min(m, len(draws.mvn[i - 1][2]))
                for j in range(k):
                    ref[j] = draws.mvn[i - 1][2][j] * (cross(i - 1) / own(i - 1))
                    var[j] -= cross(i - 1) ** 2 / own(i - 1)
            c.check("covariance", np.allclose(np.asarray(cov, dtype=float), np.diag(var), atol=1e-3), lambda: "batch %d is not drawn with its covariance given the batch before" % i)
            for a, b in zip(np.asarray(mean).ravel(), ref):
                d = a - b
                c.check("conditional-mean", core.And(d <= 1e-3, d >= -1e-3) if core.is_sym(d) else abs(d) <= 1e-3, lambda: "batch %d is not drawn around its mean given the batch before" % i)
    Check(c, draws, feats, kinds, w, X, n, scale, full, False, zif=full["count"], order=names).all()


def reject(c):
    C, _ = _mods()
    which = c.choice("which", ["cycle", "continuous", "binary", "categorical", "count", "type"])
    bad = c.choice("bad", ["", "Normal", "cauchy"])
    g, _ = graph(c, ["a", "b"], [("b", "a")] + ([("a", "b")] if which == "cycle" else []), given=False)
    kind = which if which in ("continuous", "binary", "count") else "categorical:2" if which == "categorical" else "continuous"
    dist = {}
    if which in ("continuous", "binary", "categorical"):
        dist[which] = bad
    elif which == "count":
        z = c.real("zero-inflation")
        c.assume(core.Or(z < 0, z > 1))
        dist["count"] = Float(z) if npx.symbolic() else z
    elif which == "type":
        kind = bad or "unknown"
    log = []
    with npx.source(GP(c, log)), npx.logs(8):
        c.raises("invalid-rejected", ValueError, lambda: C.nonlinear_sem_generator(g, kernel=kernel(log), default_type=kind, n_samples=2, distributions=dist or None), "%s: %s" % (which, bad))


def again(c, kind, via="sem"):
    """The same seed gives the same data, whatever was drawn in between."""
    C, W = _mods()
    g, _ = graph(c, ["a", "b"], [("b", "a")] if kind == "continuous" else [], given=False)
    log = []
    draws = GP(c, log)
    real_seed = npx.R.seed

    def seed(s=None):
        if s is not None:
            draws.tag, draws.n = "seed%r-" % (s,), 0
    npx.R.seed = seed
    seed_ = c.choice("seed", [5, 1])
    try:
        out = []
        for k in range(2):
            with npx.source(draws), npx.logs(6):
                if k:
                    npx.R.normal(size=3)
                K = kernel(log)
                if via == "sem":
                    df = c.no_raise("accepted", lambda: C.nonlinear_sem_generator(g, kernel=K, default_type=kind, n_samples=2, seed=seed_))
                else:
                    df = c.no_raise("accepted", lambda: getattr(W, via)(g, n_samples=1 if "count" in via or "categ" in via else 2, kernel=K, seed=seed_))
            out.append([list(r) for r in df] if isinstance(df, np.ndarray) else [list(df[m].values) for m in df.columns])
    finally:
        npx.R.seed = real_seed
    for a, b in zip(*out):
        for x, y in zip(a, b):
            c.check_eq("repeatable", x, y, "two calls with one seed differ")


LABELS = ["repeatable", "columns", "covariance", "conditional-mean", "equation", "binary", "one-hot", "count", "invalid-rejected"]
ASSUMPTIONS = ["random draws are arbitrary numbers in the support of their distribution; draws of one call are distinct (almost surely)", "the kernel is arbitrary (a stand-in returns recognisable covariances)",
               "a batch of a long sample after the first is drawn given the one before it (as documented for the splitting in sorted batches)", "counts: at most 3 on a path",
               "pandas, numpy and networkx are replaced by models where numbers are symbolic"]
BOUNDS = {"quick": "2-3 variables of the listed types, 2-3 rows with all draws arbitrary; 101 rows (two batches) with 2 and 203 rows (three batches) with 1 arbitrary entry near the boundary", "thorough": "3 rows and more mixed graphs; 203 rows with 2 arbitrary entries"}


def cases(tier):
    out = [
        ("continuous", data, dict(nodes=["b", "a"], types={}, edges=[("a", "b")], n=3, dist={"continuous": CONT}), 5),
        ("three", data, dict(nodes=["c", "a", "b"], types={}, edges=[("a", "b"), ("b", "c"), ("a", "c")], n=2, dist={"continuous": ["normal", "gumbel"]}), 5),
        ("binary", data, dict(nodes=["b", "a"], types={"b": "binary"}, edges=[("a", "b")], n=2, dist={"binary": BIN}), 5),
        ("binary-parent", data, dict(nodes=["b", "a"], types={"a": "binary"}, edges=[("a", "b")], n=2), 5),
        ("categorical", data, dict(nodes=["b", "a"], types={"b": "categorical:2"}, edges=[("a", "b")], n=2, dist={"categorical": CAT[:2]}), 5),
        ("categorical-parent", data, dict(nodes=["b", "a"], types={"a": "categorical:2"}, edges=[("a", "b")], n=2), 5),
        ("count", data, dict(nodes=["b", "a"], types={"b": "count"}, edges=[("a", "b")], n=2, logs=6), 8),
        ("batches", data, dict(nodes=["b", "a"], types={}, edges=[("a", "b")], n=101, free=(3, 77)), 30),
        ("three-batches", data, dict(nodes=["b", "a"], types={}, edges=[("a", "b")], n=203, free=(140,)), 40),
        ("repeat", again, dict(kind="continuous"), 2),
        ("repeat-binary", again, dict(kind="binary"), 2),
        ("reject", reject, {}, 2),
    ]
    for via, t in (("generate_continuous_data", "continuous"), ("generate_continuous_dataframe", "continuous"), ("generate_binary_data", "binary"), ("generate_binary_dataframe", "binary"),
                   ("generate_categorical_dataframe", "categorical:2"), ("generate_count_dataframe", "count")):
        dist = {"continuous": {"continuous": ["gumbel", "student-t"]}, "binary": {"binary": ["probit"]}, "categorical:2": {"categorical": ["probit"]}}.get(t)
        one = t in ("count", "categorical:2")
        out.append((via, data, dict(nodes=["a"] if one else ["b", "a"], types={}, default=t, edges=[] if one else [("a", "b")], n=1 if one else 2, dist=dist, logs=4, via=via), 6))
        out.append(("repeat-" + via, again, dict(kind="binary" if "binary" in via else "continuous" if "contin" in via else "x", via=via), 3))
    if tier == "thorough":
        out += [
            ("mixed", data, dict(nodes=["c", "b", "a"], types={"a": "binary"}, edges=[("a", "b"), ("b", "c"), ("a", "c")], n=3), 20),
            ("binary3", data, dict(nodes=["b", "a"], types={"b": "binary"}, edges=[("a", "b")], n=3, dist={"binary": BIN}), 20),
            ("batches3", data, dict(nodes=["b", "a"], types={}, edges=[("a", "b")], n=203, free=(3, 140)), 60),
        ]
    return out
