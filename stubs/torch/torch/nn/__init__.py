import numpy as _np

import torch as _t
from torch import Tensor, _unsupported


class Parameter(Tensor):
    def __init__(self, data, requires_grad=True):
        Tensor.__init__(self, _raw=data._a)
        self.requires_grad = requires_grad


class Module:
    def __init__(self):
        self.training = True

    def _regs(self):
        d = self.__dict__
        if "_params" not in d:
            d["_params"], d["_mods"] = {}, {}
        return d["_params"], d["_mods"]

    def __setattr__(self, k, v):
        ps, ms = self._regs()
        if isinstance(v, Parameter):
            ps[k] = v
        elif isinstance(v, Module):
            ms[k] = v
        elif k in ps:
            ps[k] = v
        object.__setattr__(self, k, v)

    def register_parameter(self, k, v):
        ps, _ = self._regs()
        ps[k] = v
        object.__setattr__(self, k, v)

    def register_buffer(self, k, v):
        object.__setattr__(self, k, v)

    def add_module(self, k, v):
        setattr(self, k, v)

    def named_parameters(self, prefix=""):
        ps, ms = self._regs()
        for k, v in ps.items():
            if v is not None:
                yield prefix + k, v
        for k, m in ms.items():
            yield from m.named_parameters(prefix + k + ".")

    def parameters(self):
        return iter([p for _, p in self.named_parameters()])

    def children(self):
        return iter(self._regs()[1].values())

    def modules(self):
        yield self
        for m in self.children():
            yield from m.modules()

    def forward(self, *a):
        raise NotImplementedError

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def float(self):
        return self

    double = float

    def to(self, *a, **k):
        return self

    def train(self, mode=True):
        self.training = mode
        return self

    def eval(self):
        return self.train(False)

    def zero_grad(self):
        for p in self.parameters():
            p.grad = None


class ModuleList(Module):
    def __init__(self, mods=()):
        super().__init__()
        self._list = []
        for m in mods:
            self.append(m)

    def append(self, m):
        self._regs()[1][str(len(self._list))] = m
        self._list.append(m)
        return self

    def __iter__(self):
        return iter(self._list)

    def __len__(self):
        return len(self._list)

    def __getitem__(self, i):
        return self._list[i]


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        b = 1.0 / in_features ** 0.5
        self.weight = Parameter(Tensor(_raw=_t._rand((out_features, in_features), -b, b)))
        if bias:
            self.bias = Parameter(Tensor(_raw=_t._rand((out_features,), -b, b)))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        return functional.linear(x, self.weight, self.bias)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        self.n = normalized_shape if isinstance(normalized_shape, (tuple, list)) else (normalized_shape,)
        if len(self.n) != 1:
            _unsupported("LayerNorm over several dimensions")
        self.eps = eps
        if elementwise_affine:
            self.weight = Parameter(_t.ones(*self.n))
            self.bias = Parameter(_t.zeros(*self.n))
        else:
            self.weight = self.bias = None

    def forward(self, x):
        if x._a.shape[-1] != self.n[0]:
            raise RuntimeError("Given normalized_shape=%r, expected input with shape [*, %d]" % (list(self.n), self.n[0]))
        m = x.mean(dim=-1, keepdim=True)
        d = x - m
        v = (d * d).mean(dim=-1, keepdim=True)
        y = d * (v + self.eps).rsqrt()
        return y if self.weight is None else y * self.weight + self.bias


class Sigmoid(Module):
    def forward(self, x):
        return x.sigmoid()


class ReLU(Module):
    def forward(self, x):
        return x.relu()


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        self.ms = ModuleList(ms)

    def forward(self, x):
        for m in self.ms:
            x = m(x)
        return x


class _Init:
    @staticmethod
    def zeros_(t):
        t._a = _np.zeros(t._a.shape)
        return t

    @staticmethod
    def ones_(t):
        t._a = _np.ones(t._a.shape)
        return t

    @staticmethod
    def constant_(t, v):
        t._a = _np.full(t._a.shape, v)
        return t

    @staticmethod
    def uniform_(t, a=0.0, b=1.0):
        t._a = _t._rand(t._a.shape, a, b)
        return t

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        _unsupported("nn.init.%s" % n)


init = _Init()


class _F:
    @staticmethod
    def linear(x, w, b=None):
        y = x.matmul(w.t())
        return y if b is None else y + b

    @staticmethod
    def softplus(x):
        return (x.exp() + 1).log()

    @staticmethod
    def _red(x, reduction):
        return {"mean": x.mean, "sum": x.sum, "none": lambda: x}[reduction]()

    @classmethod
    def binary_cross_entropy_with_logits(cls, input, target, reduction="mean"):
        # -[y log s(x) + (1-y) log(1-s(x))] = softplus(x) - x y
        return cls._red(cls.softplus(input) - input * target, reduction)

    @classmethod
    def binary_cross_entropy(cls, input, target, reduction="mean"):
        return cls._red(-(target * input.log() + (1 - target) * (1 - input).log()), reduction)

    @classmethod
    def poisson_nll_loss(cls, input, target, log_input=True, full=False, size_average=None, eps=1e-8, reduce=None, reduction="mean"):
        if full:
            _unsupported("poisson_nll_loss(full=True)")
        r = input.exp() - target * input if log_input else input - target * (input + eps).log()
        return cls._red(r, reduction)

    @classmethod
    def cross_entropy(cls, input, target, reduction="mean"):
        return cls.nll_loss(input.log_softmax(dim=1), target, reduction)

    @classmethod
    def nll_loss(cls, input, target, reduction="mean"):
        return cls._red(-input.gather(dim=1, index=target.long().unsqueeze(1)).squeeze(1), reduction)

    @classmethod
    def mse_loss(cls, input, target, reduction="mean"):
        return cls._red((input - target) ** 2, reduction)

    @classmethod
    def l1_loss(cls, input, target, reduction="mean"):
        return cls._red((input - target).abs(), reduction)

    @staticmethod
    def softmax(x, dim):
        return x.softmax(dim)

    @staticmethod
    def log_softmax(x, dim):
        return x.log_softmax(dim)

    @staticmethod
    def sigmoid(x):
        return x.sigmoid()

    @staticmethod
    def layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
        m = LayerNorm(shape[-1], eps, weight is not None)
        if weight is not None:
            m.weight, m.bias = weight, bias
        return m(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        _unsupported("nn.functional.%s" % n)


functional = _F()


class BCEWithLogitsLoss(Module):
    def __init__(self, reduction="mean"):
        super().__init__()
        self.reduction = reduction

    def forward(self, x, y):
        return functional.binary_cross_entropy_with_logits(x, y, reduction=self.reduction)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    _unsupported("nn.%s" % name)


import sys as _sys  # noqa: E402

_sys.modules["torch.nn.functional"] = functional
