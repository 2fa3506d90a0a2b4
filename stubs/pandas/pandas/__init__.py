"""A model of the part of pandas that causalnex touches, able to carry symbolic numbers.

Semantics follow pandas 1.x/2.x for the calls below. Anything not modelled raises EngineError (no verdict), never a
misleading ordinary exception."""
import copy as _copy
import itertools as _it
import re as _re

import numpy as _np

from symx import core as _core

__version__ = "1.5.3"
NaN = float("nan")


def _unsupported(what):
    raise _core.EngineError("pandas model: %s is not modelled" % (what,))


class _Strict:
    """Unknown public attributes end the run without a verdict."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        _unsupported("%s.%s" % (type(self).__name__, name))


def _is_missing(x):
    if x is None:
        return True
    if _core.is_sym(x):
        return False
    try:
        return isinstance(x, (float, _np.floating)) and x != x
    except TypeError:
        return False


def _arr(xs):
    """1-D array of the natural dtype; object when symbolic or mixed."""
    if isinstance(xs, _np.ndarray) and xs.ndim == 1:
        if xs.dtype.kind in "US":
            return xs.astype(object)
        if xs.dtype == object:
            return _tight(list(xs))
        return xs.copy()
    if isinstance(xs, Series):
        return xs._v.copy()
    if isinstance(xs, Index):
        return _arr(list(xs))
    return _tight(list(xs))


def _tight(xs):
    kinds = {type(x) for x in xs}
    if xs and all(k in (bool, _np.bool_) for k in kinds):
        return _np.array(xs, dtype=bool)
    if xs and all(k is not bool and k is not _np.bool_ and issubclass(k, (int, float, _np.integer, _np.floating)) for k in kinds):
        return _np.array(xs)
    if kinds and all(issubclass(k, (int, float, _np.integer, _np.floating)) or k is type(None) for k in kinds) and not (kinds & {bool, _np.bool_}) and kinds - {type(None)}:
        return _np.array([NaN if x is None else x for x in xs], dtype=float)
    out = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


def _dtype(v):
    if v.dtype == object and len(v) and all(_core.is_sym(x) or (isinstance(x, (int, float, _np.number)) and not isinstance(x, (bool, _np.bool_))) for x in v):
        if all((isinstance(x, _core.SymReal) and x.isint) or isinstance(x, (int, _np.integer)) for x in v):
            return _np.dtype("int64")
        return _np.dtype("float64")
    return v.dtype


def _numeric(v):
    return _dtype(v).kind in "iuf"


def _lab(x):
    """Labels compare as plain Python values."""
    return x.item() if isinstance(x, _np.generic) else x


def isnull(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isnull()
    if isinstance(x, (list, tuple, _np.ndarray, Index)):
        a = _np.asarray(x, dtype=object)
        return _np.array([_is_missing(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
    return _is_missing(x)


isna = isnull


def notnull(x):
    r = isnull(x)
    return (not r) if isinstance(r, bool) else ~r


notna = notnull


def unique(x):
    return Series(list(x)).unique()


# --------------------------------------------------------------------------- indexes
class Index(_Strict):
    def __init__(self, labels=(), name=None, names=None, dtype=None):
        self._l = [_lab(x) for x in labels]
        self._names = list(names) if names is not None else [name]

    @property
    def name(self):
        return self._names[0] if len(self._names) == 1 else None

    @name.setter
    def name(self, n):
        self._names = [n]

    @property
    def names(self):
        return list(self._names)

    @names.setter
    def names(self, n):
        self._names = list(n)

    @property
    def nlevels(self):
        return len(self._names)

    @property
    def values(self):
        return _arr(self._l) if not any(isinstance(x, tuple) for x in self._l) else _tight_obj(self._l)

    def to_numpy(self, *a, **k):
        return self.values

    def __array__(self, dtype=None, copy=None):
        v = self.values
        return v.astype(dtype) if dtype is not None else v

    @property
    def dtype(self):
        return _dtype(_arr(self._l)) if self._l else _np.dtype(object)

    @property
    def empty(self):
        return not self._l

    @property
    def size(self):
        return len(self._l)

    @property
    def shape(self):
        return (len(self._l),)

    @property
    def is_unique(self):
        return len(set(self._l)) == len(self._l)

    @property
    def is_monotonic_increasing(self):
        return all(bool(a <= b) for a, b in zip(self._l, self._l[1:]))

    def tolist(self):
        return list(self._l)

    to_list = tolist

    def to_series(self):
        return Series(self._l, index=self)

    def unique(self):
        return Index(_uniq(self._l), names=self._names)

    def copy(self, *a, **k):
        return Index(self._l, names=self._names)

    def rename(self, n):
        return Index(self._l, name=n)

    def map(self, f):
        return Index([f(x) for x in self._l])

    def get_loc(self, k):
        hits = [i for i, x in enumerate(self._l) if _same(x, k)]
        if not hits:
            raise KeyError(k)
        if len(hits) > 1:
            _unsupported("get_loc on duplicates")
        return hits[0]

    def isin(self, xs):
        xs = list(xs)
        return _np.array([any(_same(x, y) for y in xs) for x in self._l], dtype=bool)

    def sort_values(self, ascending=True, **k):
        if k:
            _unsupported("sort_values options")
        return Index(sorted(self._l, reverse=not ascending), names=self._names)

    def difference(self, o):
        return Index(sorted(_uniq([x for x in self._l if x not in list(o)])))

    def intersection(self, o):
        return Index([x for x in self._l if x in list(o)])

    def union(self, o):
        return Index(sorted(set(self._l) | set(o)))

    def drop(self, labels):
        labels = labels if isinstance(labels, (list, tuple, set, Index)) else [labels]
        for x in labels:
            if x not in self._l:
                raise KeyError(x)
        return Index([x for x in self._l if x not in list(labels)])

    def append(self, o):
        return Index(self._l + list(o))

    def equals(self, o):
        return isinstance(o, Index) and len(o) == len(self) and all(_same(a, b) for a, b in zip(self._l, o._l))

    def duplicated(self, *a):
        return _np.array([x in self._l[:i] for i, x in enumerate(self._l)], dtype=bool)

    def __len__(self):
        return len(self._l)

    def __iter__(self):
        return iter(self._l)

    def __contains__(self, x):
        return any(_same(x, y) for y in self._l)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Index(self._l[k], names=self._names)
        if isinstance(k, (list, _np.ndarray)):
            k = _np.asarray(k)
            if k.dtype == bool:
                return Index([x for x, b in zip(self._l, k) if b], names=self._names)
            return Index([self._l[int(i)] for i in k], names=self._names)
        return self._l[int(k)]

    def _cmp(self, o, f):
        if isinstance(o, (list, tuple, _np.ndarray, Index, Series)) and not (isinstance(o, tuple) and self._l and isinstance(self._l[0], tuple)):
            o = list(o)
            if len(o) != len(self._l):
                raise ValueError("Lengths must match to compare")
            return _np.array([bool(f(a, b)) for a, b in zip(self._l, o)], dtype=bool)
        return _np.array([bool(f(a, o)) for a in self._l], dtype=bool)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __add__(self, o):
        return Index([a + (o if not isinstance(o, (list, Index)) else b) for a, b in zip(self._l, o if isinstance(o, (list, Index)) else self._l)])

    def __sub__(self, o):
        return Index([a - (o if not isinstance(o, (list, Index)) else b) for a, b in zip(self._l, o if isinstance(o, (list, Index)) else self._l)])

    def __hash__(self):
        raise TypeError("unhashable type: 'Index'")

    def __repr__(self):
        return "Index(%r)" % (self._l,)

    def __bool__(self):
        raise ValueError("The truth value of a Index is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def __deepcopy__(self, memo):
        return self.copy()


def _tight_obj(xs):
    out = _np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out


class MultiIndex(Index):
    @classmethod
    def from_product(cls, iterables, names=None):
        its = [list(x) for x in iterables]
        m = cls.__new__(cls)
        Index.__init__(m, list(_it.product(*its)), names=list(names) if names is not None else [None] * len(its))
        return m

    @classmethod
    def from_tuples(cls, tuples, names=None):
        t = [tuple(x) for x in tuples]
        m = cls.__new__(cls)
        Index.__init__(m, t, names=list(names) if names is not None else [None] * (len(t[0]) if t else 1))
        return m

    @classmethod
    def from_arrays(cls, arrays, names=None):
        return cls.from_tuples(list(zip(*arrays)), names)

    @classmethod
    def from_frame(cls, df, names=None):
        m = cls.from_tuples(list(zip(*[list(c) for c in df._d])) if df._d else [], names=list(df.columns) if names is None else names)
        return m

    def copy(self, *a, **k):
        return MultiIndex.from_tuples(self._l, self._names)

    def get_level_values(self, i):
        if isinstance(i, str):
            i = self._names.index(i)
        return Index([x[i] for x in self._l], name=self._names[i])

    def to_flat_index(self):
        return Index(self._l)


class RangeIndex(Index):
    pass


def _mkindex(x, n=None):
    if x is None:
        return Index(range(n or 0))
    if isinstance(x, Index):
        return x.copy()
    if isinstance(x, Series):
        return Index(list(x._v))
    return Index(list(x))


def _same(a, b):
    if isinstance(a, _np.generic):
        a = a.item()
    if isinstance(b, _np.generic):
        b = b.item()
    if _core.is_sym(a) or _core.is_sym(b):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return False
        return bool(a == b)
    try:
        return bool(a == b) and hash(a) == hash(b)
    except TypeError:
        return False


def _uniq(xs):
    out = []
    for x in xs:
        if not any(_same(x, y) for y in out):
            out.append(x)
    return out


# --------------------------------------------------------------------------- selectors
class _Loc(_Strict):
    def __init__(self, o, kind):
        self._o, self._k = o, kind

    def _rows(self, idx, k):
        """(positions, scalar?)"""
        n = len(idx)
        if self._k in ("iloc", "iat"):
            if isinstance(k, slice):
                return list(range(n))[k], False
            if isinstance(k, (list, tuple, _np.ndarray, Series, Index)):
                a = _np.asarray(list(k))
                if a.dtype == bool:
                    return [i for i in range(n) if a[i]], False
                return [range(n)[int(i)] for i in a], False
            i = int(k)
            if not -n <= i < n:
                raise IndexError("single positional indexer is out-of-bounds")
            return [range(n)[i]], True
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                return list(range(n)), False
            lab = idx.tolist()
            if k.step is not None:
                _unsupported("loc slice with a step")
            if all(isinstance(x, (int, float)) or _core.is_sym(x) for x in lab):
                return [i for i, x in enumerate(lab) if (k.start is None or bool(x >= k.start)) and (k.stop is None or bool(x <= k.stop))], False
            s = 0 if k.start is None else idx.get_loc(k.start)
            e = n - 1 if k.stop is None else idx.get_loc(k.stop)
            return list(range(s, e + 1)), False
        if isinstance(k, (list, _np.ndarray, Index, Series, set)) and not isinstance(k, str):
            ks = list(k._v) if isinstance(k, Series) else list(k)
            if ks and all(isinstance(x, (bool, _np.bool_, _core.SymBool)) for x in ks):
                if len(ks) != n:
                    raise IndexError("Boolean index has wrong length: %d instead of %d" % (len(ks), n))
                return [i for i in range(n) if bool(ks[i])], False
            return [p for x in ks for p in self._find(idx, x)], False
        hits = self._find(idx, k)
        return hits, len(hits) == 1

    @staticmethod
    def _find(idx, x):
        hits = [i for i, y in enumerate(idx._l) if _same(x, y)]
        if not hits:
            raise KeyError(x)
        return hits

    def __getitem__(self, k):
        o = self._o
        if isinstance(o, Series):
            pos, scalar = self._rows(o.index, k)
            if scalar:
                return _lab(o._v[pos[0]])
            return Series(o._v[pos], index=o.index[pos], name=o.name)
        rk, ck = (k if isinstance(k, tuple) and len(k) == 2 else (k, slice(None)))
        rows, rs = self._rows(o.index, rk)
        cols, cs = self._rows(o._c, ck)
        if rs and cs:
            return _lab(o._d[cols[0]][rows[0]])
        if cs:
            return Series(o._d[cols[0]][rows], index=o.index[rows], name=o._c[cols[0]])
        if rs:
            return Series(_tight([_lab(o._d[j][rows[0]]) for j in cols]), index=o._c[cols], name=o.index[rows[0]])
        return DataFrame._new([o._d[j][rows] for j in cols], o.index[rows], o._c[cols])

    def __setitem__(self, k, v):
        o = self._o
        if isinstance(o, Series):
            if self._k in ("loc", "at") and not isinstance(k, (slice, list, _np.ndarray, Index, Series)) and k not in o.index:
                o._v = _tight(list(o._v) + [v])
                o.index = Index(o.index._l + [k], names=o.index._names)
                return
            pos, _ = self._rows(o.index, k)
            vals = list(v) if isinstance(v, (list, _np.ndarray, Series)) else [v] * len(pos)
            new = list(o._v)
            for p, x in zip(pos, vals):
                new[p] = x
            o._v = _keep(o._v, new)
            return
        rk, ck = (k if isinstance(k, tuple) and len(k) == 2 else (k, slice(None)))
        if self._k in ("loc", "at") and isinstance(ck, (str, int)) and ck not in o._c:
            o[ck] = [NaN] * len(o)
        if self._k in ("loc", "at") and not isinstance(rk, (slice, list, _np.ndarray, Index, Series)) and rk not in o.index:
            o._i = Index(o.index._l + [rk], names=o.index._names)
            o._d = [_tight([_lab(x) for x in d] + [NaN]) for d in o._d]
        rows, _ = self._rows(o.index, rk)
        cols, _ = self._rows(o._c, ck)
        if isinstance(v, DataFrame):
            v = v.values
        if isinstance(v, (list, _np.ndarray, Series)):
            a = _np.empty((len(rows), len(cols)), dtype=object)
            src = _np.asarray(list(v), dtype=object) if not isinstance(v, _np.ndarray) else v
            if src.ndim == 2:
                if src.shape != a.shape:
                    raise ValueError("Must have equal len keys and value when setting with an iterable")
                a[:, :] = src
            elif len(cols) == 1 and len(src) == len(rows):
                a[:, 0] = src
            elif len(src) == len(cols):
                a[:, :] = src
            else:
                raise ValueError("cannot set using a list-like indexer with a different length than the value")
        else:
            a = _np.empty((len(rows), len(cols)), dtype=object)
            a.fill(v)
        block = o._one_block()
        for jj, j in enumerate(cols):
            new = list(o._d[j])
            for ii, i in enumerate(rows):
                new[i] = a[ii, jj]
            o._d[j] = _keep(o._d[j], new, block or len(rows) < len(o))


def _keep(old, new, inplace=True):
    """Values written into the memory of the column where its type can hold them."""
    r = _tight([_lab(x) for x in new])
    held = r.dtype == old.dtype or (old.dtype == object and _dtype(old) == _dtype(r)) or (old.dtype.kind == "f" and r.dtype.kind in "iu")
    if inplace and held and old.shape == r.shape and old.flags.writeable:
        old[...] = r
        return old
    return r


# --------------------------------------------------------------------------- Series
class Series(_Strict):
    def __init__(self, data=None, index=None, name=None, dtype=None, copy=False):
        if isinstance(data, Series):
            v, idx = data._v.copy() if copy else data._v, data.index.copy()
            if index is not None:
                new = _mkindex(index)
                v = _tight([_lab(data.loc[k]) if k in data.index else NaN for k in new])
                idx = new
            self._v, self.index, self.name = v, idx, (name if name is not None else data.name)
        elif isinstance(data, dict):
            keys = list(data) if index is None else list(index)
            self._v = _tight([data.get(k, NaN) for k in keys])
            self.index, self.name = (_mkindex(index) if index is not None else Index(keys)), name
        else:
            if data is None:
                data = [NaN] * (len(index) if index is not None else 0)
            if not isinstance(data, (list, tuple, _np.ndarray, Index, range)) and not hasattr(data, "__iter__") or isinstance(data, str):
                data = [data] * (len(index) if index is not None else 1)
            self._v = data if isinstance(data, _np.ndarray) and data.ndim == 1 and not copy and data.dtype.kind in "fiub" else _arr(data)
            self.index = _mkindex(index, len(self._v))
            if len(self.index) != len(self._v):
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(self._v), len(self.index)))
            self.name = name
        if dtype is not None and not any(_core.is_sym(x) for x in self._v):
            self._v = self._v.astype(dtype)

    # metadata
    @property
    def index(self):
        return self._ix

    @index.setter
    def index(self, v):
        v = _mkindex(v)
        if len(v) != len(self._v):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._v), len(v)))
        self._ix = v

    @property
    def values(self):
        return self._v

    def to_numpy(self, *a, **k):
        return self._v.copy()

    @property
    def array(self):
        return self._v

    @property
    def T(self):
        return self

    def __array__(self, dtype=None, copy=None):
        return self._v.astype(dtype) if dtype is not None and dtype != self._v.dtype else (self._v.copy() if copy else self._v)

    @property
    def dtype(self):
        return _dtype(self._v)

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def ndim(self):
        return 1

    @property
    def empty(self):
        return len(self._v) == 0

    @property
    def is_unique(self):
        return len(_uniq(list(self._v))) == len(self._v)

    loc = property(lambda s: _Loc(s, "loc"))
    iloc = property(lambda s: _Loc(s, "iloc"))
    at = property(lambda s: _Loc(s, "at"))
    iat = property(lambda s: _Loc(s, "iat"))

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter([_lab(x) for x in self._v])

    def __contains__(self, k):
        return k in self.index

    def __getitem__(self, k):
        if isinstance(k, (slice,)):
            return self.iloc[k]
        return self.loc[k]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.iloc[k] = v
        else:
            self.loc[k] = v

    def get(self, k, default=None):
        return self.loc[k] if k in self.index else default

    def keys(self):
        return self.index

    def items(self):
        return list(zip(self.index, list(self)))

    iteritems = items

    def copy(self, deep=True):
        return Series(self._v.copy(), index=self.index.copy(), name=self.name)

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return [_lab(x) for x in self._v]

    to_list = tolist

    def to_dict(self):
        return dict(zip(self.index, self.tolist()))

    def to_frame(self, name=None):
        return DataFrame._new([self._v.copy()], self.index.copy(), Index([name if name is not None else self.name]))

    def rename(self, n):
        return Series(self._v.copy(), index=self.index, name=n)

    def reset_index(self, drop=False):
        if not drop:
            _unsupported("Series.reset_index(drop=False)")
        return Series(self._v.copy(), name=self.name)

    def astype(self, t, **k):
        if any(_core.is_sym(x) for x in self._v):
            return self.copy()
        return Series(self._v.astype(t), index=self.index, name=self.name)

    # content
    def unique(self):
        u = _uniq(list(self._v))
        return _tight([_lab(x) for x in u]) if self._v.dtype != object or True else u

    def nunique(self, dropna=True):
        return len([x for x in _uniq(list(self._v)) if not (dropna and _is_missing(x))])

    def value_counts(self, normalize=False):
        u = _uniq(list(self._v))
        n = [sum(1 for y in self._v if _same(x, y)) for x in u]
        o = sorted(range(len(u)), key=lambda i: -n[i])
        return Series([n[i] / len(self._v) if normalize else n[i] for i in o], index=[u[i] for i in o])

    def map(self, f, na_action=None):
        if isinstance(f, Series):
            f = f.to_dict()
        if isinstance(f, dict):
            vals = []
            for x in self:
                if _core.is_sym(x) and not x.is_const() and f and all(isinstance(y, int) for kv in f.items() for y in kv):
                    # a symbolic integer looked up in an integer table: the value is an expression, nothing is decided
                    if bool(_core.Or(*[x == k for k in f])):
                        vals.append(_core.table_lookup(x, f))
                    else:
                        vals.append(NaN)
                    continue
                hit = [v for k, v in f.items() if _same(k, x)]
                vals.append(hit[0] if hit else NaN)
            return Series(_tight(vals), index=self.index, name=self.name)
        return Series(_tight([f(x) for x in self]), index=self.index, name=self.name)

    def apply(self, f):
        return self.map(f)

    def replace(self, a, b=None):
        d = a if isinstance(a, dict) else {a: b}
        return self.map(lambda x: next((v for k, v in d.items() if _same(k, x)), x))

    def isin(self, xs):
        xs = list(xs)
        return Series(_np.array([any(_same(x, y) for y in xs) for x in self], dtype=bool), index=self.index)

    def isnull(self):
        return Series(_np.array([_is_missing(x) for x in self._v], dtype=bool), index=self.index, name=self.name)

    isna = isnull

    def notnull(self):
        return Series(_np.array([not _is_missing(x) for x in self._v], dtype=bool), index=self.index, name=self.name)

    notna = notnull

    def dropna(self):
        keep = [i for i, x in enumerate(self._v) if not _is_missing(x)]
        return Series(self._v[keep], index=self.index[keep], name=self.name)

    def fillna(self, v):
        return Series(_tight([v if _is_missing(x) else x for x in self]), index=self.index, name=self.name)

    def any(self, *a, **k):
        return any(bool(x) for x in self._v if not _is_missing(x))

    def all(self, *a, **k):
        return all(bool(x) for x in self._v if not _is_missing(x))

    def _live(self):
        return [x for x in self if not _is_missing(x)]

    def sum(self, *a, **k):
        t = 0
        for x in self._live():
            t = t + x
        return t

    def mean(self, *a, **k):
        return self.sum() / len(self._live()) if self._live() else NaN

    def var(self, axis=None, ddof=1):
        xs = self._live()
        if len(xs) <= ddof:
            return NaN
        m = self.mean()
        return sum((x - m) * (x - m) for x in xs) / (len(xs) - ddof)

    def std(self, axis=None, ddof=1):
        v = self.var(ddof=ddof)
        return v if _is_missing(v) else (v.sqrt() if _core.is_sym(v) else v ** 0.5)

    def duplicated(self, keep="first"):
        xs = list(self)
        other = (lambda i: xs[:i]) if keep == "first" else (lambda i: xs[i + 1:]) if keep == "last" else (lambda i: xs[:i] + xs[i + 1:])
        return Series(_np.array([any(_same(x, y) for y in other(i)) for i, x in enumerate(xs)], dtype=bool), index=self.index)

    def drop_duplicates(self, keep="first"):
        return self[~self.duplicated(keep)]

    def shift(self, periods=1, **k):
        if k:
            _unsupported("shift options")
        xs, n = list(self), len(self._v)
        return Series(_tight([xs[i - periods] if 0 <= i - periods < n else NaN for i in range(n)]), index=self.index, name=self.name)

    def diff(self, periods=1):
        xs, n = list(self), len(self._v)
        return Series(_tight([xs[i] - xs[i - periods] if 0 <= i - periods < n else NaN for i in range(n)]), index=self.index, name=self.name)

    def clip(self, lower=None, upper=None):
        f = lambda x: lower if lower is not None and bool(x < lower) else upper if upper is not None and bool(x > upper) else x
        return Series(_tight([x if _is_missing(x) else f(x) for x in self]), index=self.index, name=self.name)

    def max(self, *a, **k):
        xs = self._live()
        return max(xs) if xs else NaN

    def min(self, *a, **k):
        xs = self._live()
        return min(xs) if xs else NaN

    def idxmax(self, *a, **k):
        best = None
        for i, x in enumerate(self._v):
            if _is_missing(x):
                continue
            if best is None or bool(x > self._v[best]):
                best = i
        if best is None:
            raise ValueError("attempt to get argmax of an empty sequence")
        return self.index[best]

    def idxmin(self, *a, **k):
        best = None
        for i, x in enumerate(self._v):
            if best is None or bool(x < self._v[best]):
                best = i
        return self.index[best]

    def argmax(self):
        return self.index.get_loc(self.idxmax())

    def abs(self):
        return Series(_tight([abs(x) for x in self]), index=self.index, name=self.name)

    def round(self, k=0):
        return Series(_tight([round(x, k) for x in self]), index=self.index, name=self.name)

    def sort_values(self, ascending=True, **k):
        o = sorted(range(len(self._v)), key=lambda i: self._v[i], reverse=not ascending)
        return Series(self._v[o], index=self.index[o], name=self.name)

    def sort_index(self):
        o = sorted(range(len(self._v)), key=lambda i: self.index[i])
        return Series(self._v[o], index=self.index[o], name=self.name)

    def reindex(self, idx):
        return Series(self, index=idx)

    def _bin(self, o, f):
        if isinstance(o, Series):
            if o.index.equals(self.index):
                other = list(o)
            else:
                _unsupported("unaligned Series arithmetic")
        elif isinstance(o, (list, _np.ndarray)):
            other = list(o)
            if len(other) != len(self._v):
                raise ValueError("operands could not be broadcast together")
        else:
            other = [o] * len(self._v)
        return Series(_tight([f(a, b) for a, b in zip(self, other)]), index=self.index, name=self.name)

    def __repr__(self):
        return "Series(%r, index=%r, name=%r)" % (list(self._v), self.index._l, self.name)

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def __hash__(self):
        raise TypeError("'Series' objects are mutable, thus they cannot be hashed")

    def __neg__(self):
        return self._bin(0, lambda a, b: -a)

    def __invert__(self):
        return Series(~self._v, index=self.index, name=self.name)


def _cmpval(f):
    def g(a, b):
        try:
            r = f(a, b)
        except TypeError:
            raise
        return r if isinstance(r, (bool, _np.bool_)) else bool(r)

    return g


import operator as _op  # noqa: E402

for _n, _f in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv), ("floordiv", _op.floordiv), ("mod", _op.mod), ("pow", _op.pow),
               ("and", _op.and_), ("or", _op.or_)):
    def _mk(f):
        return (lambda s, o: s._bin(o, f)), (lambda s, o: s._bin(o, lambda a, b: f(b, a)))
    _a, _b = _mk(_f)
    setattr(Series, "__%s__" % _n, _a)
    setattr(Series, "__r%s__" % _n, _b)
for _n, _f in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv)):
    def _mki(f):
        def inplace(s, o):
            r = s._bin(o, f)._v
            if r.dtype == s._v.dtype and len(r) == len(s._v):
                s._v[:] = r
            else:
                s._v = r
            return s
        return inplace
    setattr(Series, "__i%s__" % _n, _mki(_f))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    def _mk2(f):
        return lambda s, o: s._bin(o, _cmpval(f))
    setattr(Series, "__%s__" % _n, _mk2(getattr(_op, _n)))


# --------------------------------------------------------------------------- DataFrame
class DataFrame(_Strict):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        if isinstance(data, DataFrame):
            d, idx, cols = [x if not copy else x.copy() for x in data._d], data.index.copy(), data._c.copy()
            if columns is not None:
                cs = list(columns)
                d = [d[cols.get_loc(c)] if c in cols else _tight([NaN] * len(idx)) for c in cs]
                cols = Index(cs)
        elif isinstance(data, Series):
            d, idx, cols = [data._v.copy()], data.index.copy(), Index([data.name if data.name is not None else 0])
        elif isinstance(data, dict):
            keys = list(data) if columns is None else list(columns)
            ser = [data[k] for k in keys if k in data and isinstance(data[k], Series)]
            n = None
            if index is not None:
                idx = _mkindex(index)
                n = len(idx)
            elif ser:
                idx = ser[0].index.copy()
                n = len(idx)
                if any(not s.index.equals(idx) for s in ser):
                    _unsupported("dict of unaligned Series")
            else:
                lens = {len(data[k]) for k in keys if k in data and isinstance(data[k], (list, tuple, _np.ndarray, Index, range))}
                if len(lens) > 1:
                    raise ValueError("All arrays must be of the same length")
                n = lens.pop() if lens else 0
                if not lens and n == 0 and any(k in data and not isinstance(data[k], (list, tuple, _np.ndarray, Index, range)) for k in keys):
                    raise ValueError("If using all scalar values, you must pass an index")
                idx = _mkindex(None, n)
            d = []
            for k in keys:
                v = data.get(k, NaN)
                d.append(_arr(v) if isinstance(v, (list, tuple, _np.ndarray, Series, Index, range)) else _tight([v] * n))
            cols = Index(keys)
        elif isinstance(data, (list, tuple)) and len(data) and isinstance(data[0], dict):
            keys = list(columns) if columns is not None else _uniq([k for r in data for k in r])
            d = [_tight([r.get(k, NaN) for r in data]) for k in keys]
            idx, cols = _mkindex(index, len(data)), Index(keys)
        elif data is None or (isinstance(data, (list, tuple)) and len(data) == 0):
            cols = _mkindex(columns, 0) if columns is not None else Index([])
            idx = _mkindex(index, 0)
            d = [_tight([NaN] * len(idx)) for _ in cols]
        else:
            a = data
            if not isinstance(a, _np.ndarray):
                rows = [list(r._v) if isinstance(r, Series) else (list(r) if isinstance(r, (list, tuple, _np.ndarray)) else [r]) for r in a] if isinstance(a, (list, tuple)) else None
                if rows is None:
                    if not isinstance(a, (int, float, str)) and hasattr(a, "__iter__"):
                        rows = [list(r) for r in a]
                    else:
                        n, m = len(index), len(columns)
                        rows = [[a] * m for _ in range(n)]
                m = max([len(r) for r in rows] or [0])
                d = [_tight([r[j] if j < len(r) else None for r in rows]) for j in range(m)]
                n = len(rows)
            else:
                if a.ndim == 1:
                    a = a.reshape(-1, 1)
                if a.ndim != 2:
                    raise ValueError("Must pass 2-d input. shape=%r" % (a.shape,))
                n, m = a.shape
                d = [a[:, j] if a.dtype.kind in "fiu" and not copy or (a.dtype == object and m and _tight(list(a[:, j])).dtype == object) else _arr(a[:, j]) for j in range(m)]
            idx = _mkindex(index, n)
            cols = _mkindex(columns, m)
            if len(cols) != m or len(idx) != n:
                raise ValueError("Shape of passed values is (%d, %d), indices imply (%d, %d)" % (n, m, len(idx), len(cols)))
        object.__setattr__(self, "_d", d)
        object.__setattr__(self, "_i", idx)
        object.__setattr__(self, "_c", cols)
        if index is not None and isinstance(data, (DataFrame, Series)):
            new = _mkindex(index)
            pos = [idx.get_loc(k) for k in new]
            self._d = [x[pos] for x in d]
            self._i = new
        if dtype is not None:
            self._d = [x if any(_core.is_sym(y) for y in x) else x.astype(dtype) for x in self._d]

    @classmethod
    def _new(cls, d, idx, cols):
        f = cls.__new__(cls)
        object.__setattr__(f, "_d", list(d))
        object.__setattr__(f, "_i", idx)
        object.__setattr__(f, "_c", cols)
        return f

    def __setattr__(self, k, v):
        if k in ("_d", "_i", "_c", "is_copy"):
            object.__setattr__(self, k, v)
        elif k == "columns":
            c = _mkindex(v)
            if len(c) != len(self._c):
                raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._c), len(c)))
            object.__setattr__(self, "_c", c)
        elif k == "index":
            i = _mkindex(v)
            if self._d and len(i) != len(self._i):
                raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._i), len(i)))
            object.__setattr__(self, "_i", i)
        elif k in self._c:
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        if k in self._c:
            return self[k]
        if k in ("adj", "nodes", "edges", "is_strict", "draw", "get_adjacency", "tocsr"):  # a DataFrame has none of these (networkx asks)
            raise AttributeError("'DataFrame' object has no attribute %r" % k)
        _unsupported("DataFrame.%s" % k)

    columns = property(lambda s: s._c)
    index = property(lambda s: s._i)
    loc = property(lambda s: _Loc(s, "loc"))
    iloc = property(lambda s: _Loc(s, "iloc"))
    at = property(lambda s: _Loc(s, "at"))
    iat = property(lambda s: _Loc(s, "iat"))

    @property
    def shape(self):
        return (len(self._i), len(self._c))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return len(self._i) * len(self._c)

    @property
    def empty(self):
        return self.size == 0

    @property
    def axes(self):
        return [self._i, self._c]

    @property
    def dtypes(self):
        return Series(_tight_obj([_dtype(d) for d in self._d]), index=self._c)

    def _one_block(self):
        """All columns of one type: pandas keeps them in one array."""
        return bool(self._d) and len({_dtype(d) for d in self._d}) == 1

    @property
    def values(self):
        n, m = self.shape
        if n and self._one_block():
            base = self._d[0].base
            if base is not None and base.shape == (n, m) and base.dtype == self._d[0].dtype and all(d.base is base and d.ctypes.data == base[:, j].ctypes.data and d.strides == base[:, j].strides for j, d in enumerate(self._d)):
                return base
            M = _np.empty((n, m), dtype=self._d[0].dtype if len({d.dtype for d in self._d}) == 1 else object)
            for j, d in enumerate(self._d):
                M[:, j] = d
            object.__setattr__(self, "_d", [M[:, j] for j in range(m)])
            return M
        if m and all(d.dtype != object for d in self._d):
            kinds = {d.dtype.kind for d in self._d}
            if kinds <= set("iuf") or kinds == {"b"}:
                return _np.column_stack(self._d) if n else _np.empty((0, m))
        a = _np.empty((n, m), dtype=object)
        for j, d in enumerate(self._d):
            for i in range(n):
                a[i, j] = _lab(d[i])
        return a if m else _np.empty((n, 0))

    def to_numpy(self, dtype=None, copy=False, **k):
        v = self.values
        return v.astype(dtype) if dtype is not None and dtype != v.dtype and v.dtype != object else (v.copy() if copy else v)

    def __array__(self, dtype=None, copy=None):
        v = self.values
        return v.astype(dtype) if dtype is not None and dtype != v.dtype else (v.copy() if copy else v)

    @property
    def T(self):
        v = self.values
        return DataFrame(v.T.copy(), index=self._c.copy(), columns=self._i.copy())

    def transpose(self):
        return self.T

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._c)

    def keys(self):
        return self._c

    def __contains__(self, k):
        return k in self._c

    def items(self):
        return [(c, self._col(j)) for j, c in enumerate(self._c)]

    iteritems = items

    def iterrows(self):
        for i, lab in enumerate(self._i):
            yield lab, self.iloc[i]

    def itertuples(self, index=True, name="Pandas"):
        for i, lab in enumerate(self._i):
            row = tuple(_lab(d[i]) for d in self._d)
            if name is not None and all(isinstance(c, str) and c.isidentifier() and not c.startswith("_") for c in self._c):
                import collections

                f = (["Index"] if index else []) + list(self._c)
                yield collections.namedtuple(name, f)(*(((lab,) if index else ()) + row))
            else:
                yield ((lab,) if index else ()) + row

    def _col(self, j):
        s = Series.__new__(Series)
        s._v, s.index, s.name = self._d[j], self._i, self._c[j]
        return s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.iloc[k]
        if isinstance(k, DataFrame):
            _unsupported("frame mask")
        if isinstance(k, (list, _np.ndarray, Index, Series, set)):
            ks = list(k)
            if ks and all(isinstance(x, (bool, _np.bool_, _core.SymBool)) for x in ks) and not all(x in self._c for x in ks):
                return self.loc[ks]
            pos = []
            missing = [x for x in ks if x not in self._c]
            if missing:
                raise KeyError("%r not in index" % (missing,))
            for x in ks:
                pos += _Loc._find(self._c, x)
            return DataFrame._new([self._d[j].copy() for j in pos], self._i.copy(), self._c[pos] if not isinstance(self._c, MultiIndex) else MultiIndex.from_tuples([self._c[p] for p in pos], self._c._names))
        if isinstance(self._c, MultiIndex) and not (isinstance(k, tuple) and len(k) == self._c.nlevels):
            # a key of fewer levels than the columns selects a sub-frame, unless the levels are exhausted
            kk = k if isinstance(k, tuple) else (k,)
            hits = [j for j, c in enumerate(self._c) if len(kk) <= len(c) and all(_same(a, b) for a, b in zip(c, kk))]
            if not hits:
                raise KeyError(k)
            if len(kk) == self._c.nlevels:
                return self._col(hits[0])
            rest = [self._c[j][len(kk):] for j in hits]
            names = self._c._names[len(kk):]
            cols = MultiIndex.from_tuples(rest, names) if len(names) > 1 else Index([r[0] for r in rest], name=names[0])
            return DataFrame._new([self._d[j] for j in hits], self._i, cols)
        hits = [j for j, c in enumerate(self._c) if _same(c, k)]
        if not hits:
            raise KeyError(k)
        if len(hits) > 1:
            return DataFrame._new([self._d[j] for j in hits], self._i, self._c[hits])
        return self._col(hits[0])

    def __setitem__(self, k, v):
        n = len(self._i)
        if isinstance(k, (list, Index, _np.ndarray)):
            ks = list(k)
            a = v.values if isinstance(v, DataFrame) else (_np.asarray(v) if isinstance(v, (list, _np.ndarray)) else None)
            for j, x in enumerate(ks):
                self[x] = (a[:, j] if a is not None and a.ndim == 2 else (v if a is None else a))
            return
        if isinstance(v, DataFrame):
            if v.shape[1] != 1:
                raise ValueError("Columns must be same length as key")
            v = v._col(0)
        if isinstance(v, Series):
            if v.index.equals(self._i):
                val = v._v.copy()
            elif not self._c._l:
                val = v._v.copy()
                self._i = v.index.copy()
            else:
                val = _tight([_lab(v.loc[x]) if x in v.index else NaN for x in self._i])
        elif isinstance(v, (list, tuple, _np.ndarray, Index, range)):
            val = _arr(v if not (isinstance(v, _np.ndarray) and v.ndim == 2 and v.shape[1] == 1) else v[:, 0])
            if not self._d and n == 0:
                self._i = _mkindex(None, len(val))
                n = len(val)
            if len(val) != n:
                raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(val), n))
        else:
            val = _tight([v] * n)
        for j, c in enumerate(self._c):
            if _same(c, k):
                self._d[j] = val
                return
        self._d.append(val)
        if isinstance(self._c, MultiIndex):
            kk = k if isinstance(k, tuple) else (k,) + ("",) * (self._c.nlevels - 1)
            self._c = MultiIndex.from_tuples(self._c._l + [kk], self._c._names)
        else:
            self._c = Index(self._c._l + [k], names=self._c._names)

    def __delitem__(self, k):
        j = self._c.get_loc(k)
        del self._d[j]
        self._c = Index([c for i, c in enumerate(self._c._l) if i != j], names=self._c._names)

    def get(self, k, default=None):
        return self[k] if k in self._c else default

    def pop(self, k):
        r = self[k].copy()
        del self[k]
        return r

    def insert(self, loc, k, v):
        self[k] = v
        self._d.insert(loc, self._d.pop())
        c = self._c._l
        self._c = Index(c[:loc] + [c[-1]] + c[loc:-1])

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def copy(self, deep=True):
        return DataFrame._new([x.copy() if deep else x for x in self._d], self._i.copy(), self._c.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def astype(self, t, **k):
        return DataFrame._new([d if any(_core.is_sym(x) for x in d) else d.astype(t) for d in self._d], self._i, self._c)

    def select_dtypes(self, include=None, exclude=None):
        def match(d, spec):
            spec = spec if isinstance(spec, (list, tuple)) else [spec]
            out = False
            for s in spec:
                if s in ("number", _np.number):
                    out = out or (_numeric(d))
                elif s in (object, "object", "O"):
                    out = out or _dtype(d) == object
                elif s in ("category", "datetime"):
                    pass
                elif s in ("bool", bool):
                    out = out or d.dtype.kind == "b"
                elif s in ("float", float, "float64"):
                    out = out or _dtype(d).kind == "f"
                elif s in ("int", int, "int64"):
                    out = out or _dtype(d).kind in "iu"
                else:
                    _unsupported("select_dtypes(%r)" % (s,))
            return out

        keep = [j for j, d in enumerate(self._d) if (include is None or match(d, include)) and (exclude is None or not match(d, exclude))]
        return DataFrame._new([self._d[j] for j in keep], self._i, self._c[keep])

    def drop(self, labels=None, axis=0, columns=None, index=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        r = self
        if columns is not None:
            cs = list(columns) if isinstance(columns, (list, tuple, Index, set, _np.ndarray)) and not (isinstance(columns, tuple) and columns in self._c) else [columns]
            miss = [c for c in cs if c not in self._c]
            if miss and errors == "raise":
                raise KeyError("%r not found in axis" % (miss,))
            keep = [j for j, c in enumerate(self._c) if not any(_same(c, x) for x in cs)]
            r = DataFrame._new([r._d[j].copy() for j in keep], r._i.copy(), r._c[keep])
        if index is not None:
            ix = list(index) if isinstance(index, (list, tuple, Index, set, _np.ndarray)) else [index]
            miss = [c for c in ix if c not in self._i]
            if miss and errors == "raise":
                raise KeyError("%r not found in axis" % (miss,))
            keep = [j for j, c in enumerate(r._i) if not any(_same(c, x) for x in ix)]
            r = DataFrame._new([d[keep] for d in r._d], r._i[keep], r._c.copy())
        if inplace:
            self._d, self._i, self._c = r._d, r._i, r._c
            return None
        return r

    def rename(self, mapper=None, columns=None, index=None, axis=None, inplace=False):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper

        def app(m, x):
            if callable(m):
                return m(x)
            return m.get(x, x)

        r = self if inplace else self.copy()
        if columns is not None:
            r._c = Index([app(columns, c) for c in r._c], names=r._c._names if r._c.nlevels == 1 else None)
        if index is not None:
            r._i = Index([app(index, c) for c in r._i], names=r._i._names)
        return None if inplace else r

    def set_index(self, keys, inplace=False, drop=True):
        ks = keys if isinstance(keys, list) else [keys]
        if len(ks) != 1:
            _unsupported("set_index on several columns")
        k = ks[0]
        s = self[k]
        r = self if inplace else self.copy()
        r._i = Index(list(s), name=k)
        if drop:
            j = [i for i, c in enumerate(r._c) if _same(c, k)][0]
            r._d = [d for i, d in enumerate(r._d) if i != j]
            r._c = Index([c for i, c in enumerate(r._c._l) if i != j], names=r._c._names)
        return None if inplace else r

    def reset_index(self, drop=False, inplace=False):
        r = self if inplace else self.copy()
        if not drop:
            nm = r._i.name if r._i.name is not None else "index"
            r._d.insert(0, _arr(r._i._l))
            r._c = Index([nm] + r._c._l)
        r._i = _mkindex(None, len(r._i))
        return None if inplace else r

    def reindex(self, index=None, columns=None, fill_value=NaN):
        r = self.copy()
        if columns is not None:
            cs = list(columns)
            r = DataFrame._new([r._d[r._c.get_loc(c)] if c in r._c else _tight([fill_value] * len(r)) for c in cs], r._i, Index(cs))
        if index is not None:
            ix = list(index)
            r = DataFrame._new([_tight([_lab(d[r._i.get_loc(x)]) if x in r._i else fill_value for x in ix]) for d in r._d], Index(ix), r._c)
        return r

    def sort_index(self, axis=0, inplace=False):
        if axis in (1, "columns"):
            o = sorted(range(len(self._c)), key=lambda j: self._c[j])
            r = DataFrame._new([self._d[j] for j in o], self._i, self._c[o])
        else:
            o = sorted(range(len(self._i)), key=lambda j: self._i[j])
            r = DataFrame._new([d[o] for d in self._d], self._i[o], self._c)
        if inplace:
            self._d, self._i, self._c = r._d, r._i, r._c
            return None
        return r

    def sort_values(self, by, ascending=True):
        by = by if isinstance(by, list) else [by]
        o = sorted(range(len(self._i)), key=lambda i: tuple(self[b]._v[i] for b in by), reverse=not ascending)
        return DataFrame._new([d[o] for d in self._d], self._i[o], self._c)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def apply(self, f, axis=0, **k):
        if k:
            _unsupported("apply options")
        if axis in (1, "columns"):
            vals = [f(self.iloc[i]) for i in range(len(self._i))]
            idx = self._i.copy()
        else:
            vals = [f(self._col(j)) for j in range(len(self._c))]
            idx = self._c.copy()
        if vals and isinstance(vals[0], Series):
            rows = DataFrame._new([_tight([v._v[j] for v in vals]) for j in range(len(vals[0]))], idx, vals[0].index.copy())
            return rows if axis in (1, "columns") else rows.T
        if not vals and axis in (1, "columns"):
            return self.copy()
        return Series(_tight([_lab(v) for v in vals]), index=idx)

    def applymap(self, f):
        return DataFrame._new([_tight([f(_lab(x)) for x in d]) for d in self._d], self._i.copy(), self._c.copy())

    def filter(self, items=None, like=None, regex=None, axis=None):
        def ok(c):
            if items is not None:
                return c in items
            if like is not None:
                return like in str(c)
            return _re.search(regex, str(c)) is not None

        keep = [j for j, c in enumerate(self._c) if ok(c)]
        return DataFrame._new([self._d[j].copy() for j in keep], self._i.copy(), self._c[keep])

    def isnull(self):
        return DataFrame._new([_np.array([_is_missing(x) for x in d], dtype=bool) for d in self._d], self._i, self._c)

    isna = isnull

    def notnull(self):
        return DataFrame._new([_np.array([not _is_missing(x) for x in d], dtype=bool) for d in self._d], self._i, self._c)

    def dropna(self):
        keep = [i for i in range(len(self._i)) if not any(_is_missing(d[i]) for d in self._d)]
        return self.iloc[keep]

    def _reduce(self, name, axis, **k):
        if axis is None:
            r = Series([getattr(self._col(j), name)() for j in range(len(self._c))])
            return getattr(r, name)()
        if axis in (1, "columns"):
            return Series(_tight([getattr(self.iloc[i], name)() for i in range(len(self._i))]), index=self._i)
        return Series(_tight([getattr(self._col(j), name)() for j in range(len(self._c))]), index=self._c)

    def any(self, axis=0, **k):
        return self._reduce("any", axis)

    def all(self, axis=0, **k):
        return self._reduce("all", axis)

    def sum(self, axis=0, **k):
        return self._reduce("sum", axis)

    def mean(self, axis=0, **k):
        return self._reduce("mean", axis)

    def std(self, axis=0, **k):
        return self._reduce("std", axis)

    def var(self, axis=0, **k):
        return self._reduce("var", axis)

    def duplicated(self, subset=None, keep="first"):
        cols = self if subset is None else self[list(subset) if not isinstance(subset, str) else [subset]]
        rows = [tuple(_lab(d[i]) for d in cols._d) for i in range(len(self))]
        eq = lambda a, b: all(_same(x, y) or (_is_missing(x) and _is_missing(y)) for x, y in zip(a, b))
        other = (lambda i: rows[:i]) if keep == "first" else (lambda i: rows[i + 1:]) if keep == "last" else (lambda i: rows[:i] + rows[i + 1:])
        return Series(_np.array([any(eq(r, o) for o in other(i)) for i, r in enumerate(rows)], dtype=bool), index=self.index)

    def drop_duplicates(self, subset=None, keep="first"):
        return self[~self.duplicated(subset, keep)]

    def _per_column(self, f):
        return DataFrame._new([f(Series(d, index=self._i))._v for d in self._d], self._i.copy(), self._c.copy())

    def shift(self, periods=1, **k):
        return self._per_column(lambda s: s.shift(periods, **k))

    def diff(self, periods=1):
        return self._per_column(lambda s: s.diff(periods))

    def clip(self, lower=None, upper=None):
        return self._per_column(lambda s: s.clip(lower, upper))

    def max(self, axis=0, **k):
        return self._reduce("max", axis)

    def min(self, axis=0, **k):
        return self._reduce("min", axis)

    def idxmax(self, axis=0, **k):
        return self._reduce("idxmax", axis)

    def nunique(self, axis=0, **k):
        return self._reduce("nunique", axis)

    def abs(self):
        return self.applymap(abs)

    def to_dict(self, orient="dict"):
        if orient == "list":
            return {c: [_lab(x) for x in d] for c, d in zip(self._c, self._d)}
        if orient == "records":
            return [{c: _lab(d[i]) for c, d in zip(self._c, self._d)} for i in range(len(self._i))]
        if orient == "index":
            return {lab: {c: _lab(d[i]) for c, d in zip(self._c, self._d)} for i, lab in enumerate(self._i)}
        if orient != "dict":
            _unsupported("to_dict(%r)" % orient)
        return {c: {lab: _lab(d[i]) for i, lab in enumerate(self._i)} for c, d in zip(self._c, self._d)}

    def equals(self, o):
        return isinstance(o, DataFrame) and self._c.equals(o._c) and self._i.equals(o._i) and all(
            _same(a, b) or (_is_missing(a) and _is_missing(b)) for d, e in zip(self._d, o._d) for a, b in zip(d, e))

    def _bin(self, o, f):
        if isinstance(o, DataFrame):
            if not (self._c.equals(o._c) and self._i.equals(o._i)):
                if f in (_op.eq, _op.ne):
                    raise ValueError("Can only compare identically-labeled DataFrame objects")
                _unsupported("unaligned frame arithmetic")
            return DataFrame._new([_tight([f(a, b) for a, b in zip(d, e)]) for d, e in zip(self._d, o._d)], self._i, self._c)
        if isinstance(o, Series):
            if not (len(o._ix) == len(self._c) and all(any(x == c for x in o._ix._l) for c in self._c)):
                _unsupported("unaligned frame-series arithmetic")
            return DataFrame._new([_tight([f(a, o.loc[c]) for a in d]) for c, d in zip(self._c, self._d)], self._i, self._c)
        if isinstance(o, (list, _np.ndarray)):
            _unsupported("frame-array arithmetic")
        return DataFrame._new([_tight([f(a, o) for a in d]) for d in self._d], self._i, self._c)

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous. Use a.empty, a.bool(), a.item(), a.any() or a.all().")

    def __hash__(self):
        raise TypeError("unhashable type: 'DataFrame'")

    def __repr__(self):
        return "DataFrame(%r, index=%r)" % ({c: list(d) for c, d in zip(self._c, self._d)}, self._i._l)


for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    def _mk3(f):
        return lambda s, o: s._bin(o, _cmpval(f) if f not in (_op.eq, _op.ne) else _cmpval(f))
    setattr(DataFrame, "__%s__" % _n, _mk3(getattr(_op, _n)))
for _n, _f in (("add", _op.add), ("sub", _op.sub), ("mul", _op.mul), ("truediv", _op.truediv)):
    def _mk4(f):
        def inplace(s, o):
            s._d = s._bin(o, f)._d
            return s
        return (lambda s, o: s._bin(o, f)), (lambda s, o: s._bin(o, lambda a, b: f(b, a))), inplace
    _a, _b, _e = _mk4(_f)
    setattr(DataFrame, "__%s__" % _n, _a)
    setattr(DataFrame, "__r%s__" % _n, _b)
    setattr(DataFrame, "__i%s__" % _n, _e)


# --------------------------------------------------------------------------- functions
def concat(objs, axis=0, ignore_index=False, **k):
    objs = [o for o in objs if o is not None]
    if k and set(k) - {"sort", "join", "copy"}:
        _unsupported("concat options")
    if not objs:
        raise ValueError("No objects to concatenate")
    if axis in (1, "columns"):
        fr = []
        for i, o in enumerate(objs):
            if isinstance(o, Series):
                o = o.to_frame(o.name if o.name is not None else sum(isinstance(p, Series) and p.name is None for p in objs[:i]))
            fr.append(o)
        idx = fr[0].index.copy()
        same = all(o.index.equals(idx) for o in fr)
        if not same:
            lab = _uniq([x for o in fr for x in o.index])
            fr = [o.reindex(index=lab) for o in fr]
            idx = Index(lab)
        cols = [c for o in fr for c in o.columns]
        return DataFrame._new([d.copy() for o in fr for d in o._d], idx, Index(range(len(cols))) if ignore_index else Index(cols))
    if all(isinstance(o, Series) for o in objs):
        lab = [x for o in objs for x in o.index]
        return Series(_tight([x for o in objs for x in o]), index=None if ignore_index else lab)
    cols = _uniq([c for o in objs for c in o.columns])
    d = [_tight([x for o in objs for x in ([_lab(y) for y in o[c]._v] if c in o.columns else [NaN] * len(o))]) for c in cols]
    lab = [x for o in objs for x in o.index]
    return DataFrame._new(d, Index(range(len(lab))) if ignore_index else Index(lab), Index(cols))


def get_dummies(data, columns=None, prefix=None, **k):
    if k:
        _unsupported("get_dummies options")
    if isinstance(data, DataFrame):
        if columns is None:
            columns = [c for c, d in zip(data.columns, data._d) if _dtype(d) == object]
        keep = [c for c in data.columns if c not in list(columns)]
        parts = [data[keep]]
        for c in columns:
            g = get_dummies(data[c])
            g.columns = ["%s_%s" % (c, x) for x in g.columns]
            parts.append(g)
        return concat(parts, axis=1)
    s = data if isinstance(data, Series) else Series(list(data))
    lev = sorted(_uniq([x for x in s if not _is_missing(x)]))
    return DataFrame._new([_np.array([1 if _same(x, v) else 0 for x in s], dtype=_np.uint8) for v in lev], s.index.copy(), Index(lev))


def to_numeric(x, **k):
    return x


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    _unsupported("pandas.%s" % name)
