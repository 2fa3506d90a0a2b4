"""A model of the part of PyTorch that causalnex touches: tensors over numpy arrays (entries may be symbolic) with
reverse-mode differentiation. Real arithmetic; anything not modelled raises EngineError (no verdict)."""
import builtins as _b

import numpy as _np

from symx import core as _core

__version__ = "1.7.1"


def _unsupported(what):
    raise _core.EngineError("torch model: %s is not modelled" % (what,))


class _DType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "torch." + self.name


float32 = float = _DType("float32")
float64 = double = _DType("float64")
int64 = long = _DType("int64")
int32 = _DType("int32")
bool = _DType("bool")
_default = [float32]


def get_default_dtype():
    return _default[0]


def set_default_dtype(d):
    _default[0] = d


class device:
    def __init__(self, kind="cpu", index=None):
        self.type, self.index = kind, index

    def __repr__(self):
        return "device(type=%r)" % self.type

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)


_GRAD = [True]
ITEM = [None]  # a check's replacement for the conversion of a one-element tensor to a number


class no_grad:
    def __enter__(self):
        self._old = _GRAD[0]
        _GRAD[0] = False

    def __exit__(self, *a):
        _GRAD[0] = self._old

    def __call__(self, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            with no_grad():
                return f(*a, **k)

        return g


def is_grad_enabled():
    return _GRAD[0]


def _np_of(x):
    if isinstance(x, Tensor):
        return x._a
    a = _np.asarray(x)
    if a.dtype.kind in "US":
        raise TypeError("new(): invalid data type 'str'")
    return a


def _norm(a):
    """object arrays of plain numbers become float arrays."""
    a = _np.asarray(a)
    if a.dtype == object and not any_sym(a):
        try:
            return a.astype("float64")
        except (TypeError, ValueError):
            return a
    return a


def any_sym(a):
    return a.dtype == object and _b.any(_core.is_sym(x) for x in a.ravel())


def _el(f, name):
    def g(a):
        a = _np.asarray(a)
        if a.dtype == object:
            out = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                x = a[i]
                out[i] = getattr(x, name)() if _core.is_sym(x) else h(x)
            return out
        if _core.CTX is not None and getattr(_core.CTX, "bare", False) and name in _core._OF_CONST:
            return _np.vectorize(h, otypes=[float])(a) if a.size else f(a)
        return f(a)

    def h(x):
        x = _b.float(x)
        if _core.CTX is not None and getattr(_core.CTX, "bare", False) and name in _core._OF_CONST and _np.isfinite(x) and (x > 0 or name not in ("log", "rsqrt")) and _b.abs(x) < 30:
            return _b.float(_core.of_const(name, x))
        return f(x)

    return g


_sigmoid = _el(lambda x: 1 / (1 + _np.exp(-x)), "sigmoid")
_rsqrt = _el(lambda x: 1 / _np.sqrt(x), "rsqrt")
_exp, _log, _sqrt = _el(_np.exp, "exp"), _el(_np.log, "log"), _el(_np.sqrt, "sqrt")


def _recip(a):
    """1/a where a is known not to be zero (the logarithm or the root was differentiable)."""
    return _el(lambda x: 1 / x if x else _np.inf, "inv")(a) if a.dtype == object else 1 / a


class _Sign:
    """Sign of a symbolic number, told apart by the solver where it is not known."""

    @staticmethod
    def of(x):
        if not _core.is_sym(x):
            return _b.float(_np.sign(_b.float(x)))
        s = _core.lift(x).sign()
        return s if s is not None else 1.0 if _b.bool(x > 0) else -1.0 if _b.bool(x < 0) else 0.0


def _sign(a):
    a = _np.asarray(a)
    if a.dtype != object:
        return _np.sign(a)
    out = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(*a.shape):
        out[i] = _Sign.of(a[i])
    return out


def _unbroadcast(g, shape):
    g = _np.asarray(g)
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = g.sum(axis=i, keepdims=True)
    return g


class _Arr(_np.ndarray):
    """Array with symbolic entries: conversion to a floating type keeps them."""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and any_sym(_np.asarray(self)) and _np.dtype(dtype).kind == "f":
            return self.copy()
        return _np.asarray(self).astype(dtype, *a, **k)


def _out(a):
    return a.view(_Arr) if a.dtype == object else a


class Size(tuple):
    def numel(self):
        n = 1
        for x in self:
            n *= x
        return n


class Tensor:
    __array_priority__ = 2000

    def __init__(self, *a, requires_grad=False, _raw=None):
        if _raw is not None:
            self._a = _np.asarray(_raw)
        elif a and all_ints(a):
            self._a = _np.zeros(a)  # uninitialised in torch
        elif len(a) == 1:
            self._a = _norm(_np.array(_np_of(a[0])))
            if self._a.dtype.kind in "iub":
                self._a = self._a.astype("float64")
        else:
            _unsupported("Tensor constructor")
        self.requires_grad = requires_grad
        self.grad = None
        self._par = []

    # -- plumbing
    @staticmethod
    def _mk(a, parents=()):
        t = Tensor(_raw=a)
        if _GRAD[0]:
            t._par = [(p, v) for p, v in parents if p.requires_grad]
            t.requires_grad = _b.bool(t._par)
        return t

    def __getattr__(self, name):
        if name.startswith("_") or name == "bounds":
            raise AttributeError(name)
        _unsupported("Tensor.%s" % name)

    @property
    def data(self):
        return Tensor(_raw=self._a)

    @data.setter
    def data(self, v):
        self._a = v._a

    @property
    def shape(self):
        return Size(self._a.shape)

    def size(self, dim=None):
        return self.shape if dim is None else self._a.shape[dim]

    @property
    def ndim(self):
        return self._a.ndim

    def dim(self):
        return self._a.ndim

    def numel(self):
        return _b.int(self._a.size)

    nelement = numel

    @property
    def device(self):
        return device("cpu")

    @property
    def dtype(self):
        k = self._a.dtype.kind
        if k in "iu" or (k == "O" and self._a.size and all(isinstance(x, _b.int) or (isinstance(x, _core.SymReal) and x.isint) for x in self._a.ravel()) and False):
            return int64
        return {"b": bool}.get(k, float64 if self._a.dtype == _np.float64 and False else float32)

    @property
    def is_sparse(self):
        return False

    @property
    def is_leaf(self):
        return not self._par

    def to(self, *a, **k):
        t = self
        for x in list(a) + list(k.values()):
            if x in (float32, float64):
                t = t.float()
            elif x in (int64, int32):
                t = t.long()
        return t

    def cpu(self):
        return self

    def cuda(self, *a):
        _unsupported("cuda")

    def contiguous(self):
        return self

    def to_dense(self):
        return self

    def float(self):
        if self._a.dtype.kind in "iub":
            return Tensor._mk(self._a.astype("float64"))
        return self

    double = float

    def type(self, *a):
        return self.to(*a)

    def long(self):
        a = self._a
        if a.dtype == object:
            out = _np.empty(a.shape, dtype="int64")
            for i in _np.ndindex(*a.shape):
                out[i] = _b.int(a[i])
            return Tensor._mk(out)
        return Tensor._mk(a.astype("int64"))

    int = long

    def detach(self):
        return Tensor(_raw=self._a)

    def numpy(self):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return _out(self._a)

    def __array__(self, dtype=None, copy=None):
        return self.numpy() if dtype is None else self.numpy().astype(dtype)

    def tolist(self):
        return self._a.tolist()

    def item(self):
        if self._a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        x = self._a.reshape(-1)[0]
        if ITEM[0] is not None:
            return ITEM[0](x)
        return x.item() if isinstance(x, _np.generic) else x

    def __float__(self):
        x = self.item()
        return x if isinstance(x, _b.float) else _b.float(x)

    def __int__(self):
        return _b.int(self.item())

    def __index__(self):
        return _b.int(self.item())

    def __bool__(self):
        return _b.bool(self.item())

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter([self[i] for i in range(len(self._a))])

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "tensor(%r)" % (self._a,)

    def requires_grad_(self, r=True):
        self.requires_grad = r
        return self

    def clone(self):
        return Tensor._mk(self._a.copy(), [(self, lambda g: g)])

    def new(self, *a):
        return Tensor(_raw=_np.zeros(a if a else 0))

    def new_zeros(self, *a):
        return zeros(*a)

    def zero_(self):
        self._a[...] = 0.0
        return self

    def fill_(self, v):
        self._a[...] = v
        return self

    def copy_(self, o):
        self._a[...] = _np_of(o)
        return self

    def __deepcopy__(self, memo):
        t = type(self).__new__(type(self))
        memo[id(self)] = t
        import copy

        for k, v in self.__dict__.items():
            if k == "_a":
                t._a = self._a.copy()
            elif k == "_par":
                t._par = []
            else:
                t.__dict__[k] = copy.deepcopy(v, memo)
        return t

    # -- shape
    def view(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        old = self._a.shape
        return Tensor._mk(self._a.reshape(s), [(self, lambda g: _np.asarray(g).reshape(old))])

    reshape = view

    def view_as(self, o):
        return self.view(*o._a.shape) if o._a.shape else self.view(())

    def flatten(self):
        return self.view(-1)

    def t(self):
        return Tensor._mk(self._a.T, [(self, lambda g: _np.asarray(g).T)])

    @property
    def T(self):
        return self.t()

    def transpose(self, i, j):
        return Tensor._mk(_np.swapaxes(self._a, i, j), [(self, lambda g: _np.swapaxes(_np.asarray(g), i, j))])

    def permute(self, *d):
        d = d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d
        inv = _np.argsort(d)
        return Tensor._mk(self._a.transpose(d), [(self, lambda g: _np.asarray(g).transpose(inv))])

    def squeeze(self, dim=None):
        old = self._a.shape
        if dim is None:
            a = self._a.squeeze()
        elif self._a.shape[dim] == 1:
            a = self._a.squeeze(axis=dim)
        else:
            a = self._a
        return Tensor._mk(a, [(self, lambda g: _np.asarray(g).reshape(old))])

    def unsqueeze(self, dim):
        old = self._a.shape
        return Tensor._mk(_np.expand_dims(self._a, dim), [(self, lambda g: _np.asarray(g).reshape(old))])

    def expand(self, *s):
        old = self._a.shape
        return Tensor._mk(_np.broadcast_to(self._a, s).copy(), [(self, lambda g: _unbroadcast(g, old))])

    def repeat(self, *s):
        _unsupported("repeat")

    @staticmethod
    def _ix(k):
        f = lambda x: (x._a if isinstance(x, Tensor) else (_np.asarray(x, dtype="int64") if isinstance(x, list) and not x else x))
        return tuple(f(x) for x in k) if isinstance(k, tuple) else f(k)

    def __getitem__(self, k):
        k = Tensor._ix(k)
        shape = self._a.shape
        r = self._a[k]
        if not isinstance(r, _np.ndarray):
            q = _np.empty((), dtype=self._a.dtype)
            q[()] = r
            r = q

        def vjp(g):
            z = _zeros_like(shape, g)
            if _fancy(k):
                for pos, src in zip(_np.ndindex(*_np.asarray(g).shape), _flatpos(shape, k)):
                    z.reshape(-1)[src] = z.reshape(-1)[src] + _np.asarray(g)[pos]
            else:
                z[k] = g
            return z

        return Tensor._mk(r, [(self, vjp)])

    def __setitem__(self, k, v):
        k = Tensor._ix(k)
        v = v if isinstance(v, Tensor) else Tensor(_raw=_np_of(v))
        if _GRAD[0] and self.requires_grad and not self._par:
            raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
        old = Tensor(_raw=self._a)
        old.requires_grad, old._par = self.requires_grad, self._par
        if v._a.dtype == object and self._a.dtype != object:
            self._a = self._a.astype(object)
        tshape = self._a[k].shape if isinstance(self._a[k], _np.ndarray) else ()
        self._a[k] = v._a if v._a.shape else v._a[()]
        if not _GRAD[0]:
            return
        vshape = v._a.shape

        def v_old(g):
            g = _np.array(g)
            g[k] = 0.0
            return g

        def v_new(g):
            return _unbroadcast(_np.asarray(g)[k], vshape).reshape(vshape)

        par = []
        if old.requires_grad:
            par.append((old, v_old))
        if v.requires_grad:
            par.append((v, v_new))
        self._par = par
        self.requires_grad = _b.bool(par)

    def gather(self, dim, index):
        idx = index._a.astype(_b.int) if index._a.dtype != object else index.long()._a
        if dim not in (0, 1) or self._a.ndim != 2:
            _unsupported("gather")
        out = _np.empty(idx.shape, dtype=self._a.dtype)
        src = {}
        for p in _np.ndindex(*idx.shape):
            j = _b.int(idx[p])
            q = (p[0], j) if dim == 1 else (j, p[1])
            if not 0 <= j < self._a.shape[dim]:
                raise RuntimeError("index %d is out of bounds for dimension %d with size %d" % (j, dim, self._a.shape[dim]))
            src[p] = q
            out[p] = self._a[q]
        shape = self._a.shape

        def vjp(g):
            z = _zeros_like(shape, g)
            for p, q in src.items():
                z[q] = z[q] + _np.asarray(g)[p]
            return z

        return Tensor._mk(out, [(self, vjp)])

    # -- arithmetic
    def _bin(self, o, f, va, vb):
        o = o if isinstance(o, Tensor) else Tensor(_raw=_np_of(o))
        a, b = self._a, o._a
        r = f(a, b)
        r = _np.asarray(r, dtype=object) if _core.is_sym(r) else _np.asarray(r)
        ca, cb = a.copy(), b.copy()
        return Tensor._mk(r, [(self, lambda g: _unbroadcast(va(g, ca, cb), ca.shape)), (o, lambda g: _unbroadcast(vb(g, ca, cb), cb.shape))])

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda g, a, b: g, lambda g, a, b: g)

    __radd__ = add = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda g, a, b: g, lambda g, a, b: -g)

    sub = __sub__

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda g, a, b: g * b, lambda g, a, b: g * a)

    __rmul__ = mul = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b, lambda g, a, b: g / b, lambda g, a, b: -g * a / (b * b))

    div = __truediv__

    def __rtruediv__(self, o):
        return Tensor(_raw=_np_of(o)) / self

    def __neg__(self):
        return self * -1

    neg = __neg__

    def __pow__(self, k):
        if isinstance(k, Tensor):
            k = k.item()
        if isinstance(k, _b.float) and k == _b.int(k):
            k = _b.int(k)
        if k == 0.5:
            return self.sqrt()
        if not isinstance(k, _b.int) or k < 0:
            _unsupported("pow(%r)" % (k,))
        if k == 0:
            return ones(*self._a.shape)
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    pow = __pow__

    def _old(self):
        """The value before an operation in place, with its own history."""
        old = Tensor(_raw=self._a.copy())
        old.requires_grad, old._par = self.requires_grad, self._par
        return old

    def _inplace(self, r):
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace(self._old() + o)

    add_ = __iadd__

    def __isub__(self, o):
        return self._inplace(self._old() - o)

    def __imul__(self, o):
        return self._inplace(self._old() * o)

    mul_ = __imul__

    def __itruediv__(self, o):
        return self._inplace(self._old() / o)

    def _cmp(self, o, f):
        b = _np_of(o)
        a, b = _np.broadcast_arrays(self._a, b)
        out = _np.zeros(a.shape, dtype="bool")
        for i in _np.ndindex(*a.shape):
            out[i] = _b.bool(f(a[i], b[i]))
        return Tensor._mk(out)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __invert__(self):
        return Tensor._mk(~self._a)

    def any(self):
        return Tensor._mk(_np.asarray(self._a.any()))

    def all(self):
        return Tensor._mk(_np.asarray(self._a.all()))

    def _unary(self, f, d):
        a = self._a.copy()
        r = _np.asarray(f(a))
        return Tensor._mk(r, [(self, lambda g: g * d(a, r))])

    def abs(self):
        return self._unary(lambda a: _np.abs(a) if a.dtype != object else _el(_np.abs, "__abs__")(a), lambda a, r: _sign(a))

    __abs__ = abs

    def exp(self):
        return self._unary(_exp, lambda a, r: r)

    def log(self):
        return self._unary(_log, lambda a, r: _recip(a))

    def sqrt(self):
        return self._unary(_sqrt, lambda a, r: 0.5 * _recip(r))

    def sigmoid(self):
        return self._unary(_sigmoid, lambda a, r: r * (1 - r))

    def rsqrt(self):
        return self._unary(_rsqrt, lambda a, r: -0.5 * r * r * r)

    def relu(self):
        return self * (self > 0).float()

    def square(self):
        return self * self

    def sign(self):
        return Tensor._mk(_sign(self._a))

    def round(self):
        return Tensor._mk(_el(_np.round, "rint")(self._a))

    def sum(self, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        shape = self._a.shape
        r = self._a.sum(axis=dim, keepdims=keepdim) if dim is not None else self._a.sum()
        r = _np.asarray(r)

        def vjp(g):
            g = _np.asarray(g)
            if dim is None:
                g = g.reshape((1,) * len(shape))
            elif not keepdim:
                for d in sorted([x % len(shape) for x in (dim if isinstance(dim, (tuple, list)) else [dim])]):
                    g = _np.expand_dims(g, d)
            return _np.broadcast_to(g, shape).copy()

        return Tensor._mk(r, [(self, vjp)])

    def mean(self, dim=None, keepdim=False, axis=None):
        dim = axis if dim is None else dim
        s = self.sum(dim=dim, keepdim=keepdim)
        n = self._a.size // _b.max(s._a.size, 1) if s._a.size else 1
        return s / n

    def var(self, dim=None, unbiased=True):
        n = self._a.shape[dim] if dim is not None else self._a.size
        m = self.mean(dim=dim, keepdim=True) if dim is not None else self.mean()
        d = self - m
        return (d * d).sum(dim=dim) / (n - 1 if unbiased else n)

    def trace(self):
        return (self * eye(self._a.shape[0])).sum()

    def diagonal(self):
        return self[list(range(self._a.shape[0])), list(range(self._a.shape[0]))]

    diag = diagonal

    def fill_diagonal_(self, v):
        for i in range(self._a.shape[0]):
            self[i, i] = v
        return self

    def max(self, dim=None):
        if dim is not None:
            _unsupported("max over a dimension")
        r = list(self.view(-1))
        best = r[0]
        for x in r[1:]:
            if x > best:
                best = x
        return best

    def argmax(self, dim=None, keepdim=False):
        a = self._a

        def am(v):
            k = 0
            for i in range(1, len(v)):
                if _b.bool(v[i] > v[k]):
                    k = i
            return k

        if dim is None:
            return Tensor._mk(_np.asarray(am(a.ravel())))
        m = _np.moveaxis(a, dim, -1)
        out = _np.zeros(m.shape[:-1], dtype="int64")
        for i in _np.ndindex(*out.shape):
            out[i] = am(m[i])
        return Tensor._mk(_np.expand_dims(out, dim) if keepdim else out)

    def softmax(self, dim):
        e = self.exp()
        return e / e.sum(dim=dim, keepdim=True)

    def log_softmax(self, dim):
        return self - self.exp().sum(dim=dim, keepdim=True).log()

    def matmul(self, o):
        a, b = self._a.copy(), o._a.copy()

        def v1(g):
            g = _np.asarray(g)
            if b.ndim == 1:
                return _unbroadcast(_np.expand_dims(g, -1) * b, a.shape)
            if a.ndim == 1:
                return _np.matmul(b, g)
            return _unbroadcast(_mm(g, _np.swapaxes(b, -1, -2)), a.shape)

        def v2(g):
            g = _np.asarray(g)
            if a.ndim == 1:
                return _np.outer(a, g) if b.ndim == 2 else a * g
            if b.ndim == 1:
                return _unbroadcast(_mm(_np.swapaxes(a, -1, -2), _np.expand_dims(g, -1))[..., 0], b.shape)
            return _unbroadcast(_mm(_np.swapaxes(a, -1, -2), g), b.shape)

        return Tensor._mk(_np.asarray(_mm(a, b)), [(self, v1), (o, v2)])

    __matmul__ = mm = matmul

    def matrix_power(self, n):
        if n < 0:
            _unsupported("negative matrix_power")
        if n == 0:
            return eye(self._a.shape[0])
        r = self
        for _ in range(n - 1):
            r = r.matmul(self)
        return r

    # -- differentiation
    def backward(self, gradient=None, retain_graph=None, create_graph=False):
        if self._a.size != 1 and gradient is None:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        if not self.requires_grad:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        for t, g in _backprop(self, _np_of(gradient) if gradient is not None else None):
            if not t._par and t.requires_grad:
                t.grad = Tensor(_raw=g) if t.grad is None else Tensor(_raw=t.grad._a + g)


def all_ints(a):
    return _b.all(isinstance(x, (_b.int, _np.integer)) for x in a)


def _mm(a, b):
    if a.dtype == object or b.dtype == object:
        if a.ndim <= 2 and b.ndim <= 2:
            return a.astype(object).dot(b.astype(object))
        a2, b2 = a.astype(object), b.astype(object)
        sh = _np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
        a2 = _np.broadcast_to(a2, sh + a2.shape[-2:])
        b2 = _np.broadcast_to(b2, sh + b2.shape[-2:])
        out = _np.empty(sh + (a2.shape[-2], b2.shape[-1]), dtype=object)
        for i in _np.ndindex(*sh):
            out[i] = a2[i].dot(b2[i])
        return out
    return _np.matmul(a, b)


def _zeros_like(shape, g):
    return _np.zeros(shape, dtype=object if _np.asarray(g).dtype == object else "float64")


def _fancy(k):
    ks = k if isinstance(k, tuple) else (k,)
    return _b.any(isinstance(x, (list, _np.ndarray)) for x in ks)


def _flatpos(shape, k):
    idx = _np.arange(_b.int(_np.prod(shape))).reshape(shape)
    return _np.asarray(idx[k]).ravel()


def _backprop(root, g0=None):
    order, seen = [], set()
    stack = [(root, False)]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if id(t) in seen:
            continue
        seen.add(id(t))
        stack.append((t, True))
        for p, _ in t._par:
            stack.append((p, False))
    grads = {id(root): g0 if g0 is not None else _np.ones(root._a.shape)}
    out = []
    for t in reversed(order):
        g = grads.get(id(t))
        if g is None:
            continue
        g = _np.asarray(g)
        out.append((t, g))
        for p, v in t._par:
            d = _np.asarray(v(g))
            grads[id(p)] = d if id(p) not in grads else grads[id(p)] + d
    return out


class _Autograd:
    @staticmethod
    def grad(outputs, inputs, create_graph=False, retain_graph=None, allow_unused=False):
        ins = inputs if isinstance(inputs, (list, tuple)) else [inputs]
        outs = outputs if isinstance(outputs, (list, tuple)) else [outputs]
        tot = {}
        for o in outs:
            for t, g in _backprop(o):
                tot[id(t)] = g if id(t) not in tot else tot[id(t)] + g
        res = []
        for i in ins:
            if id(i) not in tot:
                if allow_unused:
                    res.append(None)
                    continue
                raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph.")
            res.append(Tensor(_raw=tot[id(i)]))
        return tuple(res)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        _unsupported("autograd.%s" % n)


autograd = _Autograd()


# --------------------------------------------------------------------------- functions
def _T(x):
    return x if isinstance(x, Tensor) else Tensor(_raw=_np_of(x))


def tensor(x, dtype=None, device=None, requires_grad=False):
    a = _norm(_np.array(_np_of(x)))
    t = Tensor(_raw=a)
    if dtype in (float32, float64):
        t = t.float()
    t.requires_grad = requires_grad
    return t


def as_tensor(x, dtype=None, device=None):
    return x if isinstance(x, Tensor) else Tensor(_raw=_np_of(x))


def from_numpy(a):
    if not isinstance(a, _np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    return Tensor(_raw=a)


def _shape(s):
    return tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else tuple(_b.int(x) for x in s)


def zeros(*s, **k):
    return Tensor(_raw=_np.zeros(_shape(s)))


def ones(*s, **k):
    return Tensor(_raw=_np.ones(_shape(s)))


def empty(*s, **k):
    return Tensor(_raw=_np.zeros(_shape(s)))


def full(s, v, **k):
    return Tensor(_raw=_np.full(s, v))


def zeros_like(t, **k):
    return Tensor(_raw=_np.zeros(t._a.shape))


def ones_like(t, **k):
    return Tensor(_raw=_np.ones(t._a.shape))


def eye(n, **k):
    return Tensor(_raw=_np.eye(_b.int(n)))


def arange(*a, **k):
    return Tensor(_raw=_np.arange(*a))


def cat(ts, dim=0):
    ts = [t for t in ts]
    sizes = [t._a.shape[dim] for t in ts]
    offs = _np.cumsum([0] + sizes)
    par = []
    for i, t in enumerate(ts):
        def vjp(g, lo=offs[i], hi=offs[i + 1]):
            s = [slice(None)] * _np.asarray(g).ndim
            s[dim] = slice(lo, hi)
            return _np.asarray(g)[tuple(s)]
        par.append((t, vjp))
    return Tensor._mk(_np.concatenate([t._a for t in ts], axis=dim), par)


def stack(ts, dim=0):
    return cat([t.unsqueeze(dim) for t in ts], dim)


def hstack(ts):
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def vstack(ts):
    return cat([t if t.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def _fn(name):
    def f(x, *a, **k):
        return getattr(_T(x), name)(*a, **k)

    f.__name__ = name
    return f


for _n in ("sum", "mean", "abs", "exp", "log", "sqrt", "sigmoid", "softmax", "log_softmax", "argmax", "matmul", "mm", "matrix_power", "unsqueeze", "squeeze",
           "trace", "transpose", "relu", "square", "sign", "gather", "flatten", "reshape", "t", "diagonal", "diag", "var", "mul", "add", "sub", "div", "neg", "pow",
           "any", "all", "max", "round", "clone"):
    globals()[_n] = _fn(_n)


def dot(a, b):
    return (a * b).sum()


def logical_not(a):
    return ~_T(a)


def norm(t, p=2):
    return (t * t).sum().sqrt() if p == 2 else t.abs().sum()


def where(c, a, b):
    m = c.float()
    return m * a + (1 - m) * b


def isnan(t):
    return Tensor._mk(_np.zeros(t._a.shape, dtype="bool"))


def is_tensor(x):
    return isinstance(x, Tensor)


def manual_seed(s):
    return None


class _Cuda:
    @staticmethod
    def is_available():
        return False


cuda = _Cuda()


class _Optimizer:
    def __init__(self, params, defaults):
        ps = list(params)
        if not ps:
            raise ValueError("optimizer got an empty parameter list")
        self.param_groups = [dict(defaults, params=ps)]

    def zero_grad(self, set_to_none=False):
        for g in self.param_groups:
            for p in g["params"]:
                if p.grad is not None:
                    p.grad = None if set_to_none else Tensor(_raw=_np.zeros(p._a.shape))

    def step(self, *a):
        _unsupported("optimizer steps")


class _Optim:
    Optimizer = _Optimizer

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        _unsupported("optim.%s" % n)


optim = _Optim()


def _rand(shape, lo, hi):
    """Random initial values: overridden by the checks; otherwise fixed generic numbers."""
    n = _b.int(_np.prod(shape))
    return _np.array([lo + (hi - lo) * (((i * 37 + 11) % 64) / 64.0) for i in range(n)]).reshape(shape)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    _unsupported("torch.%s" % name)


import importlib as _il

nn = _il.import_module("torch.nn")
