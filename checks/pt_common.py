"""The PyTorch NOTEARS with the optimiser supplied by the check."""
import itertools

import numpy as np

from checks import env, npx
from checks import nt_common as nt
from symx import core
from symx import poly as P

NAMES = ["b", "a", "c", "d"]
CATS = {"cat2": [2.0, 5.0], "cont": None, "bin": [0.0, 1.0], "ord": [1.0, 2.0, 4.0], "ord4": [3.0, 1.0, 7.0, 2.0], "cat": [3.0, 1.0, 2.0], "poiss": [0.0, 2.0, 1.0]}


def kind(t):
    return t.rstrip("0123456789")


def modules():
    return npx.load("causalnex.structure.pytorch.notears", "causalnex.structure.pytorch.core")


def data(types, rows=3):
    """Plain columns of the given types (a categorical column shows each of its categories)."""
    cols = []
    for j, t in enumerate(types):
        vals = CATS[t] or [0.5 + j, -1.0 + 0.5 * j, 2.0 - j]
        cols.append([float(vals[(i + j) % len(vals)]) for i in range(rows)])
    return np.array(cols).T


def groups(types, order=None, rows=3):
    """Expanded column -> original column, as documented: further categories are appended in the order of the schema."""
    out = list(range(len(types)))
    X = data(types, rows)
    for j in order or range(len(types)):
        if types[j].startswith("cat"):
            out += [j] * (len(set(X[:, j])) - 1)
    return out


def names(types, order=None, rows=3):
    """Names of the expanded columns of a frame."""
    g = groups(types, order, rows)
    seen, out = {}, []
    for j in g:
        k = seen.get(j, 0)
        seen[j] = k + 1
        out.append("%s%d" % (NAMES[j], k) if k else NAMES[j])
    return out


class Run(nt.Run):
    """As for NOTEARS; the optimised vector holds the weights of all layers and the biases. With `opaque`, numbers read off
    the model on the way (the acyclicity measure) are arbitrary nonnegative ones."""

    def __init__(self, c, calls=1, on_call=None, opaque=False, fixed=False, positive=False, some=None, rest=None):
        nt.Run.__init__(self, c, "none", calls, on_call)
        self.opaque, self.items, self.fixed, self.positive = opaque, 0, fixed, positive
        self.some, self.rest = some, rest

    def value(self, k, i, lo, hi):
        if self.some is not None and i not in self.some:
            return self.point(k, i, lo, hi) if self.rest is None else self.rest
        if self.positive:  # nonzero weights, so that no sign has to be told apart
            return self.c.real("x%d.%d" % (k, i), lo=0.125, nonneg=True) if (lo, hi) == (None, None) else nt.Run.value(self, k, i, lo, hi)
        if not self.fixed:
            return nt.Run.value(self, k, i, lo, hi)
        return self.point(k, i, lo, hi)

    def point(self, k, i, lo, hi):
        v = 0.375 + 0.625 * ((i * 7 + 3 * k) % 11) / 4.0 * (-1) ** (i % 3)  # some point
        return min(max(v, v if lo is None else lo), v if hi is None else hi)

    def item(self, x):
        self.items += 1
        return self.c.real("item%d" % self.items, nonneg=True)

    def __enter__(self):
        import torch

        if core.CTX is not None and npx.symbolic():
            core.CTX.bare = True
        if self.opaque:
            torch.ITEM[0] = self.item
        return nt.Run.__enter__(self)

    def __exit__(self, *a):
        import torch

        torch.ITEM[0] = None
        nt.Run.__exit__(self, *a)


# -- formal derivatives (symbolic runs)
def _of_var(v, vid, seen):
    if v == vid:
        return 1
    if v in seen:
        return seen[v]
    kind, args = core.CTX.aux_args.get(v, (None, None))
    if kind is None:
        r = 0
    else:
        y, x = core.SymReal(P.Poly({((v, 1),): 1})), args[0]
        dx = derivative(x, vid, seen)
        if not core.is_sym(dx) and dx == 0:
            r = 0
        elif kind == "exp":
            r = y * dx
        elif kind == "log":
            r = dx * core.lift(x).inv()
        elif kind == "sigmoid":
            r = y * (1 - y) * dx
        elif kind == "rsqrt":
            r = core.lift(-0.5) * y * y * y * dx
        elif kind == "abs":
            r = dx * (1 if bool(x > 0) else -1)
        else:
            raise core.EngineError("derivative of %s" % kind)
    seen[v] = r
    return r


def _of_poly(p, vid, seen):
    out = 0
    for v in sorted(p.vids()):
        dv = _of_var(v, vid, seen)
        if core.is_sym(dv) or dv != 0:
            out = out + core.SymReal(p.diff(v)) * dv
    return out


def derivative(f, vid, seen=None):
    """d f / d (variable vid), through the functions exp, log, sigmoid, 1/sqrt and abs."""
    seen = {} if seen is None else seen
    f = core.lift(f)
    n = _of_poly(f.n, vid, seen)
    if f.d is core.ONE or f.d.is_const():
        return n / core.SymReal(f.d) if f.d is not core.ONE else n
    d = _of_poly(f.d, vid, seen)
    N, D = core.SymReal(f.n), core.SymReal(f.d)
    return (n * D - N * d) / (D * D)


def at(f, vid, value):
    """The term f with the variable replaced by a number."""
    memo = {vid: value}

    def of(v):
        if v not in memo:
            kind, args = core.CTX.aux_args.get(v, (None, None))
            if kind is None or all(vid not in _support(core.lift(a)) for a in args):
                memo[v] = core.SymReal(P.Poly({((v, 1),): 1}))
            else:
                memo[v] = _fn(kind, at(args[0], vid, value))
        return memo[v]

    def poly(p):
        out = 0
        for mono, k in p.t.items():
            term = core.wrap_const(core.to_frac(k))
            for v, e in mono:
                for _ in range(e):
                    term = term * of(v)
            out = out + term
        return out

    f = core.lift(f)
    return poly(f.n) if f.d is core.ONE else poly(f.n) / poly(f.d)


def _support(f, seen=None):
    seen = set() if seen is None else seen
    for v in set(f.n.vids()) | set(f.d.vids()):
        if v not in seen:
            seen.add(v)
            for a in core.CTX.aux_args.get(v, (None, ()))[1]:
                _support(core.lift(a), seen)
    return seen


def _fn(kind, z):
    if core.is_sym(z):
        return getattr(z, kind)()
    if core.CTX is not None and getattr(core.CTX, "bare", False):
        return core.wrap_const(core.of_const(kind, z))
    return float(core._OF_CONST[kind](z))


# -- reference losses, from the documented distributions
def _softplus(z):
    return log(1 + exp(z))


def exp(z):
    return _fn("exp", z)


def log(z):
    return _fn("log", z)


def sigmoid(z):
    return _fn("sigmoid", z)


def expand(X, types, order):
    """Data after the documented preprocessing: categories one-hot, ordinal values replaced by their rank."""
    cols = [[X[i, j] for i in range(len(X))] for j in range(X.shape[1])]
    more = []
    where = {}
    for j in order:
        where[j] = [j]
        if types[j].startswith("cat"):
            cats = sorted(set(cols[j]))
            onehot = [[1.0 if v == k else 0.0 for v in cols[j]] for k in cats]
            cols[j] = onehot[0]
            for h in onehot[1:]:
                where[j].append(X.shape[1] + len(more))
                more.append(h)
        if kind(types[j]) == "ord":
            cats = sorted(set(cols[j]))
            cols[j] = [float(cats.index(v)) for v in cols[j]]
    return cols + more, where


def loss(cols, where, types, Z):
    """Average negative log-likelihood (up to the documented constants); Z[row][column] are the linear predictions."""
    n = len(Z)
    out = 0
    for j, idx in where.items():
        t = kind(types[j])
        for i in range(n):
            z, x = Z[i][j], cols[j][i]
            if t == "cont":
                v = 0.5 * (z - x) * (z - x)
            elif t == "bin":
                v = _softplus(z) - x * z
            elif t == "poiss":
                v = exp(z) - x * z
            elif t == "ord":
                k, m = int(x), int(max(cols[j])) + 1
                cut = [float(np.log(a / (1 - a))) for a in [sum(1 for y in cols[j] if y <= b) / n for b in range(m - 1)]]
                hi = sigmoid(cut[k] - z) if k < m - 1 else 1
                lo = sigmoid(cut[k - 1] - z) if k else 0
                v = -log(hi - lo)
            else:
                k = [cols[m][i] for m in idx].index(1.0)
                v = log(sum(exp(Z[i][m]) for m in idx)) - Z[i][idx[k]]
            out = out + v / n
    return out
