"""Discretiser: each value lands in the bucket its split points define, and the split points are the documented ones."""
from checks import env  # noqa: F401
from checks import npx
from symx import core

np = npx.np
mod = npx.load("causalnex.discretiser.discretiser")


def arr(vals, shape=None):
    a = np.empty(len(vals), dtype=object if any(core.is_sym(v) for v in vals) else float)
    a[:] = vals
    return a if shape is None else a.reshape(shape)


def pick(c, vals, lo):
    """Minimum (lo) or maximum without naming which one: a fresh number with its defining facts."""
    r = vals[0]
    for v in vals[1:]:
        if (bool(v < r)) if lo else (bool(v > r)):
            r = v
    return r


def ref_points(c, method, par, data):
    xs = npx._sorted(data)
    if method == "uniform":
        lo, hi = xs[0], xs[-1]
        return [lo + (hi - lo) * (k + 1) / par for k in range(par - 1)]
    if method == "quantile":
        qs = [core.Fraction(k + 1, par) for k in range(par - 1)]
    elif method == "outlier":
        qs = [par, 1 - par]
    else:
        qs = par
    return [npx.interp_quantile(xs, q) if core.is_sym(q) or c.symbolic else np.quantile(np.array(xs, dtype=float), float(q)) for q in qs]


def in_bucket(c, label, bucket, y, points):
    """bucket = number of split points that are <= y"""
    b = int(bucket)
    c.check(label, 0 <= b <= len(points) and core_and(c, [points[i] <= y for i in range(b)] + [points[i] > y for i in range(b, len(points))]),
            lambda: "value %r went to bucket %r with split points %r" % (y, bucket, points))


def core_and(c, xs):
    return core.And(*xs) if any(core.is_sym(x) for x in xs) else all(bool(x) for x in xs)


def _distinct(c, points, y):
    """In a concrete run keep away from ties decided by rounding."""
    return c.symbolic or all(abs(float(p) - float(y)) > 1e-9 for p in points)


def learned(c, method, par, nfit, nnew, refit=False, symbolic_par=False, shape=None):
    kw = {"uniform": "num_buckets", "quantile": "num_buckets", "outlier": "outlier_percentile", "percentiles": "percentile_split_points"}[method]
    if symbolic_par and method == "outlier":
        par = c.real("percentile", 0, core.Fraction(1, 2), hi_strict=True)
    elif symbolic_par:
        ps = [c.real("p%d" % i, 0, 1) for i in range(par)]
        for a, b in zip(ps, ps[1:]):
            c.assume(a <= b)
        par = ps
    d = c.no_raise("constructs", lambda: mod.Discretiser(method=method, **{kw: par}))
    rounds = 2 if refit else 1
    for r in range(rounds):
        n = nfit if r == rounds - 1 else 2
        data = [c.real("x%d-%d" % (r, i)) for i in range(n)]
        a = arr(data, shape)
        new = [c.real("y%d-%d" % (r, i)) for i in range(nnew)]
        last = r == rounds - 1
        if last and c.choice("how", ["fit+transform", "fit_transform"]) == "fit_transform":
            got = c.no_raise("fits", lambda: d.fit_transform(a))
            out, vals = list(np.asarray(got).ravel()), data
        else:
            res = c.no_raise("fits", lambda: d.fit(a))
            c.check("fit-returns-self", res is d)
            out, vals = [], []
            if last:
                t = c.no_raise("transforms", lambda: d.transform(arr(new)))
                out, vals = list(np.asarray(t).ravel()), new
        c.check("data-unchanged", all(x is y or bool(x == y) for x, y in zip(a.ravel(), data)), "the fitted data changed: %r" % (a,))
    points = ref_points(c, method, par, data)
    c.check("count", len(out) == len(vals))
    got_pts = list(d.numeric_split_points)
    c.check("count", len(got_pts) == len(points), lambda: "split points %r" % (got_pts,))
    for g, p in zip(got_pts, points):
        c.check_eq("split-points", g, p, "split points %r for data %r" % (got_pts, data))
    for b, y in zip(out, vals):
        if _distinct(c, points, y):
            in_bucket(c, "bucket", b, y, points)


def fixed(c, npoints, nnew, as_shape=None):
    pts = [c.real("p%d" % i) for i in range(npoints)]
    inc = core_and(c, [a <= b for a, b in zip(pts, pts[1:])]) if npoints > 1 else True
    try:
        d = mod.Discretiser(method="fixed", numeric_split_points=list(pts))
    except ValueError as e:
        c.check("decreasing-points-rejected", core.Not(inc) if core.is_sym(inc) else not inc, lambda: "points %r rejected: %s" % (pts, e))
        return
    c.check("increasing-points-accepted", inc, lambda: "points %r accepted" % (pts,))
    ys = [c.real("y%d" % i) for i in range(nnew)]
    out = c.no_raise("transforms", lambda: d.transform(arr(ys, as_shape)))
    c.check("count", np.shape(out) == np.shape(arr(ys, as_shape)), lambda: "shape %r" % (np.shape(out),))
    for b, y in zip(np.asarray(out).ravel(), ys):
        in_bucket(c, "bucket", b, y, pts)
    # learning is refused and leaves the given points alone
    c.raises("fixed-refuses-fit", RuntimeError, lambda: d.fit(arr(ys)))
    c.raises("fixed-refuses-fit", RuntimeError, lambda: d.fit_transform(arr(ys)))
    again = c.no_raise("transforms", lambda: d.transform(arr(ys, as_shape)))
    for b, y in zip(np.asarray(again).ravel(), ys):
        in_bucket(c, "bucket", b, y, pts)


def params(c):
    """Constructor arguments are accepted exactly when they are documented as valid."""
    kind = c.choice("argument", ["outlier", "percentiles", "points-other-method", "missing", "method"])
    if kind == "outlier":
        p = c.real("p", -2, 2)
        ok = core_and(c, [p >= 0, p < core.Fraction(1, 2)])
        call = lambda: mod.Discretiser(method="outlier", outlier_percentile=p)
        what = p
    elif kind == "percentiles":
        ps = [c.real("p%d" % i, -2, 2) for i in range(c.choice("n", [1, 2, 3]))]
        ok = core_and(c, [x >= 0 for x in ps] + [x <= 1 for x in ps] + [a <= b for a, b in zip(ps, ps[1:])])
        call = lambda: mod.Discretiser(method="percentiles", percentile_split_points=list(ps))
        what = ps
    elif kind == "points-other-method":
        return
    elif kind == "missing":
        m = c.choice("method", ["uniform", "quantile", "outlier", "fixed", "percentiles"])
        other = {"uniform": dict(outlier_percentile=0.25), "quantile": dict(numeric_split_points=[0.5]), "outlier": dict(num_buckets=2), "fixed": dict(percentile_split_points=[0.5]),
                 "percentiles": dict(numeric_split_points=[0.5])}[m]
        c.raises("missing-argument-rejected", ValueError, lambda: mod.Discretiser(method=m, **(other if c.bool("other") else {})), m)
        return
    else:
        m = c.choice("method", ["Uniform", "", "fix", None, "percentile"])
        c.raises("unknown-method-rejected", ValueError, lambda: mod.Discretiser(method=m, num_buckets=3, outlier_percentile=0.25, numeric_split_points=[1.0], percentile_split_points=[0.5]), m)
        return
    try:
        call()
    except ValueError as e:
        c.check("invalid-only-rejected", core.Not(ok) if core.is_sym(ok) else not ok, lambda: "%r rejected: %s" % (what, e))
        return
    c.check("valid-only-accepted", ok, lambda: "%r accepted" % (what,))


LABELS = ["bucket", "split-points", "data-unchanged", "decreasing-points-rejected", "increasing-points-accepted", "invalid-only-rejected", "valid-only-accepted", "missing-argument-rejected"]
ASSUMPTIONS = ["data are real numbers (no missing values); numpy's quantile and digitize are replaced by their documented definitions on symbolic entries", "quantile buckets 2 and 4 (other bucket widths are not exact in floating point)"]
BOUNDS = {"quick": "up to 4 fitted values and 2 new values, up to 3 split points, symbolic percentiles; refitting", "thorough": "up to 5 fitted values, 3 new values, 4 split points"}


def cases(tier):
    th = tier == "thorough"
    out = [("fixed%d" % n, fixed, dict(npoints=n, nnew=2), 2) for n in ((0, 1, 2, 3, 4) if th else (0, 1, 2, 3))]
    out.append(("fixed-shape", fixed, dict(npoints=2, nnew=4, as_shape=(2, 2)), 3))
    for b in (1, 2, 3, 4):
        out.append(("uniform-%d" % b, learned, dict(method="uniform", par=b, nfit=4 if th else 3, nnew=2), 5))
    out.append(("uniform-refit", learned, dict(method="uniform", par=3, nfit=3, nnew=1, refit=True), 5))
    out.append(("uniform-2d", learned, dict(method="uniform", par=2, nfit=4, nnew=1, shape=(2, 2)), 5))
    for b in (2, 4):
        out.append(("quantile-%d" % b, learned, dict(method="quantile", par=b, nfit=5 if th and b == 2 else 4, nnew=1), 5))
    out.append(("outlier", learned, dict(method="outlier", par=None, nfit=4 if th else 3, nnew=1, symbolic_par=True), 10))
    out.append(("outlier-fixed", learned, dict(method="outlier", par=0.25, nfit=4, nnew=1), 5))
    out.append(("percentiles-1", learned, dict(method="percentiles", par=1, nfit=3, nnew=1, symbolic_par=True), 10))
    out.append(("percentiles-2", learned, dict(method="percentiles", par=2, nfit=3 if th else 2, nnew=1, symbolic_par=True), 10))
    out.append(("percentiles-const", learned, dict(method="percentiles", par=[0.0, 0.125, 0.5, 1.0], nfit=4, nnew=1), 10))
    out.append(("params", params, {}, 1))
    return out
