"""The repository's modules imported with array libraries that carry symbolic entries.

`load(name)` imports a causalnex module with `numpy` (and on request `scipy.optimize`, `scipy.linalg`, `networkx`) bound to
proxies. A proxy answers every attribute with the real library's; the listed functions also accept arrays holding symbolic
numbers (object arrays), and array creation yields object arrays during a symbolic run. In a concrete run (replay) the real
library does everything, except where a check supplies the result of an external routine (random numbers, an optimiser)."""
import importlib
import math
import operator
import sys
import types

import numpy as np
import networkx as nx
import scipy.linalg  # noqa: F401
import scipy.optimize  # noqa: F401
import scipy.sparse  # noqa: F401
import pandas  # noqa: F401  (the model)
import sklearn.base  # noqa: F401
import sklearn.gaussian_process.kernels  # noqa: F401
import sklearn.preprocessing  # noqa: F401
import sklearn.utils  # noqa: F401

from symx import core


def symbolic():
    return core.CTX is not None and core.CTX.symbolic


def _walk(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            yield from x.flat
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _walk(y)
    else:
        yield x


def has_sym(*xs):
    for x in xs:
        x = getattr(x, "_symx_values", x)
        for y in _walk(x):
            if core.is_sym(y) or isinstance(y, (core.SymBool, LogVal)):
                return True
            v = getattr(y, "values", None)
            if v is not None and not callable(v) and y is not x and has_sym(v):
                return True
    return False


def obj(x):
    a = np.asarray(x)
    return a if a.dtype == object else a.astype(object)



def _isfloat(dtype):
    return dtype is None or dtype is float or dtype is np.float64 or (not isinstance(dtype, type) and np.dtype(dtype) == np.float64) or dtype == "float"


class _Mod(types.ModuleType):
    def __init__(self, base, name):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__["__spec__"] = getattr(base, "__spec__", None)
        self.__dict__["__path__"] = getattr(base, "__path__", [])

    def __getattr__(self, n):
        return getattr(self._base, n)

    def __dir__(self):
        return dir(self._base)


def _filled(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v)
    return a


P = _Mod(np, "numpy")
_UN = [0]


def _make(name, v):
    real = getattr(np, name)

    def f(shape, dtype=None, *a, **k):
        if symbolic() and _isfloat(dtype):
            return _filled(shape, v)
        return real(shape, dtype if dtype is not None else float, *a, **k)

    return f


def _make_like(name, v):
    real = getattr(np, name)

    def f(x, dtype=None, **k):
        if symbolic() and (np.asarray(x).dtype == object or (dtype is None and np.asarray(x).dtype.kind == "f")) and _isfloat(dtype):
            return _filled(np.asarray(x).shape, v)
        return real(x, dtype=dtype, **k)

    return f


P.zeros, P.ones = _make("zeros", 0.0), _make("ones", 1.0)
P.zeros_like, P.ones_like = _make_like("zeros_like", 0.0), _make_like("ones_like", 1.0)


def _uninit(shape):
    """Uninitialised memory: arbitrary numbers."""
    a = np.empty(shape, dtype=object)
    for i in range(a.size):
        _UN[0] += 1
        a.flat[i] = core.CTX.real("uninitialised%d" % _UN[0])
    return a


def _empty(shape, dtype=None, *a, **k):
    if symbolic() and _isfloat(dtype):
        return _uninit(shape)
    return np.empty(shape, dtype if dtype is not None else float, *a, **k)


def _empty_like(x, dtype=None, **k):
    if symbolic() and np.asarray(x).dtype.kind in "fO" and _isfloat(dtype):
        return _uninit(np.asarray(x).shape)
    return np.empty_like(x, dtype=dtype, **k)


def _full(shape, v, dtype=None, **k):
    if dtype is None and (isinstance(v, (bool, int, np.integer, np.bool_, str)) or (isinstance(v, np.ndarray) and v.dtype.kind in "iub")):
        return np.full(shape, v, **k)  # numpy takes the fill value's dtype
    if symbolic() and _isfloat(dtype) and not isinstance(v, (bool, str)):
        return _filled(shape, v)
    return np.full(shape, v, dtype=dtype, **k)


def _full_like(x, v, dtype=None, **k):
    if symbolic() and _isfloat(dtype) and np.asarray(x).dtype.kind in "fO":
        return _filled(np.asarray(x).shape, v)
    return np.full_like(x, v, dtype=dtype, **k)


def _eye(n, m=None, k=0, dtype=float, **kw):
    if symbolic() and _isfloat(dtype):
        return np.eye(n, m, k).astype(object)
    return np.eye(n, m, k, dtype=dtype, **kw)


def _identity(n, dtype=None, **k):
    return _eye(n, dtype=dtype or float)


P.empty, P.empty_like, P.full, P.full_like, P.eye, P.identity = _empty, _empty_like, _full, _full_like, _eye, _identity
P.float, P.int, P.bool, P.object = float, int, bool, object  # as in the numpy versions the repository pins


def _array(real):
    def f(x, dtype=None, *a, **k):
        if dtype is not None and _isfloat(dtype) and has_sym(x):
            r = real(x, dtype=object, *a, **k)
            return r
        return real(x, dtype, *a, **k)

    return f


P.array, P.asarray = _array(np.array), _array(np.asarray)
for _n in ("asfarray", "ascontiguousarray", "asanyarray"):
    if hasattr(np, _n):
        setattr(P, _n, _array(getattr(np, _n)))


# -- order statistics
def _sorted(xs):
    xs = list(xs)
    for i in range(1, len(xs)):
        j = i
        while j and bool(xs[j] < xs[j - 1]):
            xs[j], xs[j - 1] = xs[j - 1], xs[j]
            j -= 1
    return xs


def interp_quantile(xs, q):
    """Linear interpolation between order statistics (numpy's default); xs already sorted."""
    h = (len(xs) - 1) * core.lift(q)
    f = core.floor_(h)
    i = int(f)
    if i >= len(xs) - 1:
        return xs[-1]
    return xs[i] + (xs[i + 1] - xs[i]) * (h - i)


def _quantile(real, scale):
    def f(a, q, axis=None, **k):
        if not has_sym(a, q):
            return real(a, q, axis=axis, **k)
        if axis is not None or k:
            raise core.EngineError("quantile options %r" % ((axis, k),))
        qs = list(np.asarray(q, dtype=object).ravel())
        for x in qs:
            if bool(x < 0) or bool(x > scale):
                raise ValueError("Quantiles must be in the range [0, %d]" % scale)
        xs = _sorted(obj(a).ravel())
        out = [interp_quantile(xs, core.lift(x) / scale) for x in qs]
        if np.ndim(q) == 0:
            return out[0]
        r = np.empty(len(out), dtype=object)
        r[:] = out
        return r

    return f


P.quantile, P.percentile = _quantile(np.quantile, 1), _quantile(np.percentile, 100)


def _median(a, axis=None, **k):
    return P.quantile(a, 0.5, axis=axis) if has_sym(a) else np.median(a, axis=axis, **k)


P.median = _median


def _digitize(x, bins, right=False):
    xs = getattr(x, "values", x)
    bins_ = list(np.asarray(getattr(bins, "values", bins), dtype=object).ravel())
    if not has_sym(xs, bins_):
        return np.digitize(xs, np.asarray(bins_, dtype=float), right=right)
    up = all(bool(bins_[i] <= bins_[i + 1]) for i in range(len(bins_) - 1))
    if not up and not all(bool(bins_[i] >= bins_[i + 1]) for i in range(len(bins_) - 1)):
        raise ValueError("bins must be monotonically increasing or decreasing")
    a = obj(xs)
    out = np.empty(a.shape, dtype=np.int64)
    for i, v in enumerate(a.flat):
        if up:
            n = 0
            while n < len(bins_) and bool((v > bins_[n]) if right else (v >= bins_[n])):
                n += 1
        else:
            n = len(bins_)
            while n and bool((v > bins_[n - 1]) if right else (v >= bins_[n - 1])):
                n -= 1
        out.flat[i] = n
    return out if a.ndim else out[()]


def _linspace(a, b, num=50, endpoint=True, **k):
    if not has_sym(a, b):
        return np.linspace(a, b, num, endpoint=endpoint, **k)
    div = num - 1 if endpoint else num
    out = _filled(num, a)
    for i in range(num):
        out[i] = a + (b - a) * i / div if div else a
    return out


P.linspace = _linspace


def _searchsorted(a, v, side="left", sorter=None):
    if not has_sym(a, v):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    xs = list(obj(a))
    if sorter is not None:
        xs = [xs[i] for i in sorter]
    vv = obj(v)
    out = np.empty(vv.shape, dtype=np.int64)
    for i, t in enumerate(vv.flat):
        n = 0
        while n < len(xs) and bool((xs[n] <= t) if side == "right" else (xs[n] < t)):
            n += 1
        out.flat[i] = n
    return out if vv.ndim else out[()]


P.digitize, P.searchsorted = _digitize, _searchsorted


# -- elementwise
def _pred(real, const):
    def f(x, *a, **k):
        if has_sym(x):
            v = obj(getattr(x, "values", x))
            r = np.frompyfunc(lambda y: const if core.is_sym(y) else bool(real(float(y))), 1, 1)(v)
            return r.astype(bool) if isinstance(r, np.ndarray) else bool(r)
        return real(np.asarray(x, dtype=float) if np.asarray(x).dtype == object else x, *a, **k)

    return f


P.isfinite, P.isnan, P.isinf = _pred(np.isfinite, True), _pred(np.isnan, False), _pred(np.isinf, False)


class LogVal:
    """The logarithm of a positive symbolic number, kept as that number (inside `logs`): sums become products and comparisons
    are made between the numbers themselves."""

    left = None

    def __init__(self, x):
        self.x = x

    @staticmethod
    def of(o):
        return o.x if isinstance(o, LogVal) else core.lift(o).exp()

    def __add__(self, o):
        return LogVal(self.x * LogVal.of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return LogVal(self.x / LogVal.of(o))

    def __rsub__(self, o):
        return LogVal(LogVal.of(o) / self.x)

    def __neg__(self):
        return LogVal(1 / self.x)

    def exp(self):
        return self.x

    def _cmp(self, o, op):
        if LogVal.left is not None:
            LogVal.left -= 1
            if LogVal.left < 0:
                core.CTX.assume(False)
        return op(self.x, LogVal.of(o))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)


class logs:
    """Logarithms stay symbolic; at most `comparisons` comparisons between logarithms are followed on one path."""

    on = False

    def __init__(self, comparisons=None):
        self.n = comparisons

    def __enter__(self):
        logs.on, LogVal.left = True, self.n

    def __exit__(self, *a):
        logs.on, LogVal.left = False, None


def _elem(name):
    real = getattr(np, name)

    def one(x):
        if name == "log" and logs.on and core.is_sym(x):
            return LogVal(core.lift(x))
        if isinstance(x, (core.SymReal, LogVal)):
            return getattr(x, name)()
        return real(float(x))

    def f(x, *a, **k):
        if isinstance(x, (core.SymReal, LogVal)):
            return one(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.frompyfunc(one, 1, 1)(x) if has_sym(x) and not (a or k) else real(x.astype(float), *a, **k)
        return real(x, *a, **k)

    return f


for _n in ("exp", "log", "sqrt", "tanh", "sin"):
    setattr(P, _n, _elem(_n))


def _sign(x):
    if has_sym(x):
        r = np.frompyfunc(lambda y: core.lift(y).sign(), 1, 1)(obj(x))
        return r
    return np.sign(x)


P.sign = _sign


def _logaddexp(a, b, **k):
    if has_sym(a, b):
        return P.log(P.exp(a) + P.exp(b))
    return np.logaddexp(np.asarray(a, dtype=float), np.asarray(b, dtype=float), **k)


P.logaddexp = _logaddexp


def _isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    if has_sym(a, b):
        return np.frompyfunc(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), 2, 1)(obj(a), obj(b)).astype(bool)
    return np.isclose(a, b, rtol=rtol, atol=atol, **k)


P.isclose = _isclose
P.allclose = lambda a, b, **k: bool(np.all(_isclose(a, b, **k)))


def _clip(a, lo=None, hi=None, **k):
    if has_sym(a, lo, hi):
        def one(x):
            if lo is not None and bool(x < lo):
                return lo
            return hi if hi is not None and bool(x > hi) else x

        return np.frompyfunc(one, 1, 1)(obj(a))
    return np.clip(a, lo, hi, **k)


P.clip = _clip


def _square(x, *a, **k):
    return x * x if has_sym(x) else np.square(x, *a, **k)


P.square = _square


# -- linear algebra
def _norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return np.linalg.norm(np.asarray(x, dtype=float), ord=ord, axis=axis, keepdims=keepdims)
    a = obj(x)
    if keepdims:
        raise core.EngineError("norm keepdims")
    if axis is None:
        if ord not in (None, 2, "fro") or (ord == 2 and a.ndim > 1):
            if ord == 1 and a.ndim == 1:
                return sum(abs(v) for v in a)
            raise core.EngineError("norm ord %r" % (ord,))
        vals = [a.ravel()]
        return _root(vals[0])
    if ord not in (None, 2):
        raise core.EngineError("norm ord %r" % (ord,))
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = _root(b[ix])
    return out


def _root(vs):
    s = 0
    for v in vs:
        s = s + v * v
    return core.lift(s).sqrt(nonneg=True)  # a sum of squares


P.linalg = _Mod(np.linalg, "numpy.linalg")
P.linalg.norm = _norm


def det(a):
    n = len(a)
    if n == 0:
        return 1
    if n == 1:
        return a[0][0]
    s = 0
    for j in range(n):
        s = s + (-1) ** j * a[0][j] * det([r[:j] + r[j + 1:] for r in a[1:]])
    return s


def _solve(a, b):
    if not has_sym(a, b):
        return np.linalg.solve(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    A = [list(r) for r in obj(a)]
    n = len(A)
    d = det(A)
    B = obj(b)
    cols = B.reshape(n, -1)
    out = np.empty(cols.shape, dtype=object)
    for k in range(cols.shape[1]):
        for i in range(n):
            M = [r[:i] + [cols[t, k]] + r[i + 1:] for t, r in enumerate(A)]
            out[i, k] = det(M) / d
    return out.reshape(B.shape)


P.linalg.solve = _solve
for _n in ("inv", "eig", "eigvals", "svd", "matrix_power", "det", "pinv", "lstsq", "cholesky", "matrix_rank", "slogdet"):
    def _g(real, name):
        def f(x, *a, **k):
            if has_sym(x):
                if name == "matrix_power":
                    r = np.eye(len(x)).astype(object)
                    for _ in range(a[0]):
                        r = r.dot(x)
                    return r
                raise core.EngineError("numpy.linalg.%s of symbolic entries" % name)
            return real(np.asarray(x, dtype=float), *a, **k)

        return f

    setattr(P.linalg, _n, _g(getattr(np.linalg, _n), _n))


# -- randomness: a check supplies the source; without one the real generator answers
class Source:
    """draw(kind, shape, params) -> array"""

    cur = None


def _shape(size):
    return () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))


def _rand(kind, real, names, defaults, size_pos):
    def f(*a, **k):
        if Source.cur is None:
            return real(*a, **k)
        args = dict(zip(names, defaults))
        for n, v in zip(names + ["size"], a):
            args[n] = v
        for n, v in k.items():
            if n not in names + ["size"]:
                raise core.EngineError("random.%s option %s" % (kind, n))
            args[n] = v
        size = args.pop("size", None)
        if size is None:
            sh = ()
            for v in args.values():
                if np.ndim(v):
                    sh = np.broadcast_shapes(sh, np.shape(v))
        else:
            sh = _shape(size)
        return Source.cur(kind, sh, args)

    f.__name__ = kind
    return f


R = _Mod(np.random, "numpy.random")
P.random = R
_SPEC = {
    "uniform": (["low", "high"], [0.0, 1.0]),
    "normal": (["loc", "scale"], [0.0, 1.0]),
    "logistic": (["loc", "scale"], [0.0, 1.0]),
    "gumbel": (["loc", "scale"], [0.0, 1.0]),
    "exponential": (["scale"], [1.0]),
    "standard_t": (["df"], [None]),
    "poisson": (["lam"], [1.0]),
    "multivariate_normal": (["mean", "cov"], [None, None]),
    "random_sample": ([], []),
    "random": ([], []),
    "standard_normal": ([], []),
    "laplace": (["loc", "scale"], [0.0, 1.0]),
    "binomial": (["n", "p"], [None, None]),
    "randint": (["low", "high"], [None, None]),
    "choice": (["a"], [None]),
    "permutation": (["x"], [None]),
}
for _n, (_names, _defs) in _SPEC.items():
    setattr(R, _n, _rand(_n, getattr(np.random, _n), list(_names), list(_defs), len(_names)))
R.rand = lambda *sh: np.random.rand(*sh) if Source.cur is None else Source.cur("uniform", tuple(sh), {"low": 0.0, "high": 1.0})
R.randn = lambda *sh: np.random.randn(*sh) if Source.cur is None else Source.cur("normal", tuple(sh), {"loc": 0.0, "scale": 1.0})
SEEDS = []


def _seed(*a, **k):
    if Source.cur is None:
        return np.random.seed(*a, **k)
    SEEDS.append(a[0] if a else k.get("seed"))
    return None


R.seed = _seed


def _no_gen(*a, **k):
    if Source.cur is None:
        return np.random.default_rng(*a, **k)
    raise core.EngineError("numpy.random generators are not modelled")


R.default_rng = _no_gen


class source:
    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        Source.cur = self.fn
        del SEEDS[:]
        _UN[0] = 0
        return self

    def __exit__(self, *a):
        Source.cur = None


# -- networkx with symbolic weights
_from_np, _to_np = nx.from_numpy_array, nx.to_numpy_array


def from_numpy_array(A, parallel_edges=False, create_using=None, edge_attr="weight", nodelist=None, **k):
    a = np.asarray(A)
    if a.dtype != object:
        return _from_np(A, parallel_edges=parallel_edges, create_using=create_using, **({} if nodelist is None else {"nodelist": nodelist}), **k)
    G = nx.empty_graph(0, create_using)
    n, m = a.shape
    if n != m:
        raise nx.NetworkXError("Adjacency matrix not square: nx,ny=%s" % (a.shape,))
    nodes = list(range(n)) if nodelist is None else list(nodelist)
    G.add_nodes_from(nodes)
    for i in range(n):
        for j in range(n):
            v = a[i, j]
            if bool(v != 0) and (G.is_directed() or i <= j):
                G.add_edge(nodes[i], nodes[j], **{edge_attr: v})
    return G


def to_numpy_array(G, nodelist=None, dtype=None, order=None, weight="weight", nonedge=0.0, **k):
    if not any(core.is_sym(d.get(weight)) for _, _, d in G.edges(data=True)):
        return _to_np(G, nodelist=nodelist, dtype=dtype, order=order, weight=weight, nonedge=nonedge, **k)
    nodes = list(G) if nodelist is None else list(nodelist)
    if set(nodes) - set(G) or len(set(nodes)) != len(nodes):
        raise nx.NetworkXError("bad nodelist")
    A = _filled((len(nodes), len(nodes)), nonedge)
    ix = {n: i for i, n in enumerate(nodes)}
    for u, v, d in G.edges(data=True):
        if u in ix and v in ix:
            A[ix[u], ix[v]] = d.get(weight, 1)
            if not G.is_directed():
                A[ix[v], ix[u]] = d.get(weight, 1)
    return A


for _m in list(sys.modules.values()):
    if getattr(_m, "__name__", "").startswith("networkx"):
        for _k, _v in (("from_numpy_array", from_numpy_array), ("to_numpy_array", to_numpy_array)):
            if _k in vars(_m):
                setattr(_m, _k, _v)


class SymCSR:
    """csr_matrix of symbolic entries: only what is needed to hand it to networkx."""

    def __init__(self, a):
        self.a = a
        self.shape = a.shape


_csr = scipy.sparse.csr_matrix


def csr_matrix(a, *r, **k):
    return SymCSR(obj(a)) if has_sym(a) else _csr(np.asarray(a, dtype=float) if isinstance(a, np.ndarray) and a.dtype == object else a, *r, **k)


import networkx.algorithms.bipartite as _bip  # noqa: E402

_fb = _bip.from_biadjacency_matrix


def from_biadjacency_matrix(A, create_using=None, edge_attribute="weight", **k):
    if not isinstance(A, SymCSR):
        return _fb(A, create_using=create_using, edge_attribute=edge_attribute, **k)
    n, m = A.shape
    G = nx.empty_graph(0, create_using)
    G.add_nodes_from(range(n), bipartite=0)
    G.add_nodes_from(range(n, n + m), bipartite=1)
    for i in range(n):
        for j in range(m):
            if bool(A.a[i, j] != 0):
                G.add_edge(i, n + j, **{edge_attribute: A.a[i, j]})
    return G


_bip.from_biadjacency_matrix = from_biadjacency_matrix

SPARSE = _Mod(scipy.sparse, "scipy.sparse")
SPARSE.csr_matrix = csr_matrix
LINALG = _Mod(scipy.linalg, "scipy.linalg")
OPT = _Mod(scipy.optimize, "scipy.optimize")
HOOKS = {}  # what stands in for an external numerical routine during one run


def _hooked(mod, base, name):
    def f(*a, **k):
        if name in HOOKS:
            return HOOKS[name](*a, **k)
        if has_sym(*a):
            raise core.EngineError("%s of symbolic entries" % name)
        return getattr(base, name)(*[x.astype(float) if isinstance(x, np.ndarray) and x.dtype == object else x for x in a], **k)

    f.__name__ = name
    setattr(mod, name, f)


_hooked(LINALG, scipy.linalg, "expm")
_hooked(OPT, scipy.optimize, "minimize")


class hooks:
    def __init__(self, **fns):
        self.fns = fns

    def __enter__(self):
        HOOKS.update(self.fns)
        _UN[0] = 0

    def __exit__(self, *a):
        HOOKS.clear()


SCIPY = _Mod(scipy, "scipy")
SCIPY.linalg, SCIPY.optimize, SCIPY.sparse = LINALG, OPT, SPARSE


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __eq__(cls, other):
        return other is cls or other is float

    def __hash__(cls):
        return hash(float)


class _Float(metaclass=_FloatMeta):
    """`float` in a loaded module: symbolic numbers stay what they are."""

    def __new__(cls, x=0.0):
        while isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        return x if core.is_sym(x) else float(x)


def load(*names):
    """Import causalnex modules with the proxies in place of the libraries."""
    repl = {"numpy": P, "numpy.random": R, "numpy.linalg": P.linalg, "scipy": SCIPY, "scipy.linalg": LINALG, "scipy.optimize": OPT, "scipy.sparse": SPARSE}
    old = {k: sys.modules.get(k) for k in repl}
    sys.modules.update(repl)
    try:
        mods = [importlib.import_module(n) for n in names]
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    for m in mods:
        if m.__name__.startswith("causalnex.structure.pytorch"):
            m.__dict__["float"] = _Float
    return mods[0] if len(mods) == 1 else mods
