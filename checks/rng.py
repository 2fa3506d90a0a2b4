"""Symbolic randomness: every random source of the standard library module answers with arbitrary values."""
import math
import random as _r

from symx import core

_REAL = {k: getattr(_r, k) for k in ("random", "choice", "choices", "shuffle", "sample", "randint", "randrange", "uniform", "seed", "getrandbits")}
_isfinite = getattr(_r, "_isfinite", math.isfinite)
_STATE = {"c": None, "tag": "", "n": 0, "draws": [], "picks": 0, "eps": None}


class _SymRandom(_r.Random):
    def random(self):
        st = _STATE
        if st["c"] is None:
            return _r.Random.random(self)
        st["n"] += 1
        x = st["c"].real("u%s.%d" % (st["tag"], st["n"]), lo=0, hi=1, hi_strict=True)
        st["draws"].append(x)
        return x

    def choice(self, seq):
        st = _STATE
        if st["c"] is None:
            return _r.Random.choice(self, seq)
        seq = list(seq)
        if not seq:
            raise IndexError("Cannot choose from an empty sequence")
        st["picks"] += 1
        return seq[st["c"].choice("pick%s.%d" % (st["tag"], st["picks"]), list(range(len(seq))))]

    def _randbelow(self, n):
        st = _STATE
        if st["c"] is None:
            return _r.Random._randbelow(self, n)
        st["picks"] += 1
        return st["c"].choice("pick%s.%d" % (st["tag"], st["picks"]), list(range(n)))

    def seed(self, *a, **k):
        if _STATE["c"] is None:
            return _r.Random.seed(self, *a, **k)
        return None


_INST = _SymRandom()
_INSTALLED = []


def install():
    """Route the module-level functions (also those bound by `from random import ...` later) through the stub."""
    if _INSTALLED:
        return
    _INSTALLED.append(1)
    for k in _REAL:
        setattr(_r, k, getattr(_INST, k))
    if hasattr(_r, "_isfinite"):
        _r._isfinite = lambda x: True if core.is_sym(x) else _isfinite(x)
    try:
        from causalnex.ebaybbn import bbn as m

        for k, old in _REAL.items():
            for name, val in list(vars(m).items()):
                if getattr(val, "__name__", None) == k and getattr(val, "__self__", None).__class__ is _r.Random:
                    setattr(m, name, getattr(_INST, k))
    except ImportError:
        pass


class symbolic_rng:
    def __init__(self, c, tag=""):
        install()
        self.c, self.tag = c, tag

    def __enter__(self):
        _STATE.update(c=self.c, tag=self.tag, n=0, draws=[], picks=0)
        return _STATE["draws"]

    def __exit__(self, *a):
        _STATE["c"] = None
