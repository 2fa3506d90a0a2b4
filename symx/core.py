"""Symbolic values, path exploration, assertions, counterexample replay."""
import builtins
import math
import operator
import time
import traceback
from fractions import Fraction

import z3

from . import poly as P
from .poly import ONE, ZERO, Poly

CTX = None  # the context of the run in progress


def ctx():
    if CTX is None:
        raise EngineError("no run in progress")
    return CTX


class EngineError(BaseException):
    """The machinery cannot go on (not a statement about the code)."""


class PathEnd(BaseException):
    """This path is infeasible or has been cut by an assumption."""


class Found(BaseException):
    """A violated assertion: label, message, model values."""

    def __init__(self, label, msg, values, kind="check"):
        BaseException.__init__(self, label)
        self.label, self.msg, self.values, self.kind = label, msg, values, kind


class SubResult(BaseException):
    """Result of a forked path that ends the exploration."""

    def __init__(self, result):
        super().__init__()
        self.result = result


class ReplayFail(BaseException):
    def __init__(self, label, msg):
        BaseException.__init__(self, "%s: %s" % (label, msg))
        self.label, self.msg = label, msg


# --------------------------------------------------------------------------- values
def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    if f != f or f in (math.inf, -math.inf):
        return None
    return P.norm(Fraction(f))


def is_num(x):
    if isinstance(x, (int, float, Fraction)):
        return True
    t = type(x)
    return t.__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "biuf"


_ROUNDING = Fraction(1, 10 ** 9)


def _grid(p):
    """The polynomial with its long binary coefficients (results of floating-point operations) on a grid."""
    if all(x.denominator <= 2 ** 30 for x in p.t.values()):
        return p
    q = {m: x if x.denominator <= 2 ** 30 else Fraction(round(x * 2 ** 36), 2 ** 36) for m, x in p.t.items()}
    return Poly({m: x for m, x in q.items() if x})


_OF_CONST = {"exp": math.exp, "log": math.log, "sigmoid": lambda x: 1 / (1 + math.exp(-x)), "rsqrt": lambda x: 1 / math.sqrt(x)}


def of_const(kind, x):
    """A function of a plain number, on a grid (the same number however its argument was rounded)."""
    return Fraction(round(_OF_CONST[kind](float(x)) * 2 ** 36), 2 ** 36)


def is_sym(x):
    return isinstance(x, (SymReal, SymBool))


def lift(x):
    """SymReal for a number, None when x is not a finite number."""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return x.as_real()
    if is_num(x):
        f = to_frac(x)
        if f is None:
            return None
        return SymReal(Poly.const(f), ONE, isinstance(x, int))
    return None


def inf_of(x):
    """+1/-1/0(nan) for non-finite floats, None otherwise."""
    if isinstance(x, float) or (is_num(x) and not isinstance(x, (int, Fraction))):
        f = float(x)
        if f == math.inf:
            return 1
        if f == -math.inf:
            return -1
        if f != f:
            return 0
    return None


def _leading(x):
    """The coefficient of the first monomial of the numerator."""
    return min(x.n.t.items())[1]


class SymReal:
    __slots__ = ("n", "d", "isint")

    def __hash__(self):
        if self.is_const():
            return hash(self.const())
        if self.isint:
            return hash(concretize(self))
        raise TypeError("hash of a symbolic real")

    def __init__(self, n, d=ONE, isint=False):
        self.n, self.d, self.isint = n, d, isint

    # -- construction
    @staticmethod
    def make(n, d, isint=False):
        if d.is_const():
            c = d.const_value()
            if c != 1:
                n = n.scale(Fraction(1) / Fraction(c))
            d = ONE
        elif n.is_zero():
            d = ONE
        else:
            q = n.exact_div(d)
            if q is not None:
                n, d = q, ONE
        return SymReal(n, d, isint)

    def is_const(self):
        return self.n.is_const() and self.d.is_const()

    def const(self):
        return P.norm(Fraction(self.n.const_value()))

    def z(self):
        if self.d is ONE or self.d.is_const():
            return self.n.z()
        return self.n.z() / self.d.z()

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, complex):
            return SymComplex(self) + o
        o = _coerce(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        i = self.isint and o.isint
        if self.d is ONE and o.d is ONE:
            return SymReal(self.n + o.n, ONE, i)
        if self.d.key() == o.d.key():
            return SymReal.make(self.n + o.n, self.d, i)
        # one denominator a multiple of the other
        q = self.d.exact_div(o.d)
        if q is not None:
            return SymReal.make(self.n + o.n * q, self.d, i)
        q = o.d.exact_div(self.d)
        if q is not None:
            return SymReal.make(self.n * q + o.n, o.d, i)
        return SymReal.make(self.n * o.d + o.n * self.d, self.d * o.d, i)

    __radd__ = __add__

    def __neg__(self):
        return SymReal(self.n.neg(), self.d, self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _inf_mul(self, o)
        i = self.isint and o.isint
        if self.d is ONE and o.d is ONE:
            return SymReal(self.n * o.n, ONE, i)
        a, b, c, d = self.n, self.d, o.n, o.d
        if d is not ONE:
            q = a.exact_div(d)
            if q is not None:
                a, d = q, ONE
            elif not a.is_zero():
                q = d.exact_div(a)
                if q is not None:
                    a, d = ONE, q
        if b is not ONE:
            q = c.exact_div(b)
            if q is not None:
                c, b = q, ONE
            elif not c.is_zero():
                q = b.exact_div(c)
                if q is not None:
                    c, b = ONE, q
        return SymReal.make(a * c, b * d, i)

    __rmul__ = __mul__

    def inv(self):
        """1/self; the caller has established self != 0."""
        return SymReal.make(self.d, self.n)

    def __truediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return SymReal(ZERO) if o in (math.inf, -math.inf) else o
        if o.is_const():
            c = o.const()
            if c == 0:
                return _div0(self)
            return SymReal(self.n.scale(Fraction(1) / Fraction(c)), self.d)
        if not truth(o != 0):
            return _div0(self)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _inf_mul(self, o)
        return o.__truediv__(self)

    def __floordiv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if self.is_const() and o.is_const():
            return wrap_const(self.const() // o.const())
        if not truth(o != 0):
            raise ZeroDivisionError("division by zero")
        return floor_(self / o)

    def __rfloordiv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return self - o * (self // o)

    def __rmod__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return o.__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, k, mod=None):
        k = lift(k)
        if k is None:
            return NotImplemented
        if k.is_const():
            c = k.const()
            if isinstance(c, int):
                if c < 0:
                    if not truth(self != 0):
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                    b, c = self.inv(), -c
                else:
                    b = self
                r = SymReal(ONE, ONE, self.isint)
                for _ in range(c):
                    r = r * b
                return r
            if c == Fraction(1, 2):
                return self.sqrt()
        raise EngineError("power with a symbolic exponent")

    def __rpow__(self, b):
        if self.is_const():
            return wrap_const(to_frac(b)) ** self.const()
        raise EngineError("power with a symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return wrap_const(abs(self.const()))
        s = self.sign()
        if s == 1:
            return self
        if s == -1:
            return -self
        k = 0 if self.isint or self.d is not ONE else self.n.int_scale()
        if k > 1:  # a fraction of an integer: the absolute value is one as well (solvers do not find that by themselves)
            return abs(SymReal(self.n.scale(k), ONE, True)) / k
        return ctx().aux("abs", (self,), lambda y, x: z3.And(y >= 0, z3.Or(y == x, y == -x)), isint=self.isint)

    def sign(self):
        a, b = self.n.sign(), self.d.sign()
        if a is None or b is None or b == 0:
            return None
        return a * b

    # numpy calls these on object arrays
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def sqrt(self, nonneg=False):
        if self.is_const():
            c = Fraction(self.const())
            if c >= 0:
                rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if rn * rn == c.numerator and rd * rd == c.denominator:
                    return wrap_const(Fraction(rn, rd))
        lin = self.d.is_const() and self.n.square_of_linear()
        if lin:
            c = Fraction(self.d.const_value())
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return abs(SymReal.make(lin, ONE)) * wrap_const(Fraction(rd, rn))
        if not nonneg and not truth(self >= 0):
            raise ValueError("math domain error")
        return SymRoot(self)

    def exp(self):
        if self.is_const() and (self.const() == 0 or ctx().bare):
            return wrap_const(of_const("exp", self.const()))
        if ctx().bare and _leading(self) < 0:
            return (-self).exp().inv()
        return ctx().aux("exp", (self,), lambda y, x: z3.And(y > 0, z3.Implies(x >= 0, y >= 1), z3.Implies(x <= 0, y <= 1)), mono=True)

    def log(self):
        if self.is_const() and (self.const() == 1 or ctx().bare and self.const() > 0):
            return wrap_const(of_const("log", self.const()))
        return ctx().aux("log", (self,), lambda y, x: z3.And(z3.Implies(x >= 1, y >= 0), z3.Implies(x <= 1, y <= 0)), mono=True)

    def sigmoid(self):
        if self.is_const() and ctx().bare:
            return wrap_const(of_const("sigmoid", self.const()))
        if ctx().bare and _leading(self) < 0:
            return 1 - (-self).sigmoid()
        return ctx().aux("sigmoid", (self,), lambda y, x: z3.And(y > 0, y < 1))

    def rsqrt(self):
        """One over the square root of a positive number (not interpreted further)."""
        if self.is_const() and ctx().bare and self.const() > 0:
            return wrap_const(of_const("rsqrt", self.const()))
        return ctx().aux("rsqrt", (self,), lambda y, x: y > 0)

    def tanh(self):
        return ctx().aux("tanh", (self,), lambda y, x: z3.And(y > -1, y < 1, z3.Implies(x >= 0, y >= 0), z3.Implies(x <= 0, y <= 0)), mono=True)

    def sin(self):
        return ctx().aux("sin", (self,), lambda y, x: z3.And(y >= -1, y <= 1))

    def floor(self):
        return floor_(self)

    def ceil(self):
        return -floor_(-self)

    def rint(self):
        return self.__round__()

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return -floor_(-self)

    def __trunc__(self):
        return int(self)

    def __round__(self, k=None):
        if k in (None, 0):
            f = floor_(self)
            r = self - f
            if truth(r < Fraction(1, 2)):
                return f
            if truth(r > Fraction(1, 2)):
                return f + 1
            return f if truth(f % 2 == 0) else f + 1
        s = 10 ** k
        return (self * s).__round__() / s

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def item(self):
        return self

    def copy(self):
        return self

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (SymReal, SymBool)) or is_num(o):
            i = inf_of(o)
            if i is not None:
                return op(0.0, math.nan if i == 0 else i * math.inf)
            return compare(self, lift(o), op)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, operator.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __bool__(self):
        return truth(self != 0)

    # -- escape to concrete values: exact for constants, by enumeration for bounded integers
    def __int__(self):
        if self.is_const():
            return int(self.const())
        if not self.isint:
            neg = truth(self < 0)
            return -concretize(floor_(-self)) if neg else concretize(floor_(self))
        return concretize(self)

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(self)

    def __float__(self):
        if self.is_const():
            return float(self.const())
        if self.isint:
            return float(concretize(self))
        raise TypeError("float() of a symbolic value")

    def __repr__(self):
        if self.is_const():
            return repr(self.const())
        if self.d is ONE:
            return "<%r>" % self.n
        return "<(%r)/(%r)>" % (self.n, self.d)

    def __format__(self, spec):
        if self.is_const():
            c = self.const()
            return format(c if isinstance(c, int) and self.isint else float(c), spec)
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _coerce(o):
    if isinstance(o, SymReal):
        return o
    if isinstance(o, SymBool):
        return o.as_real()
    if is_num(o):
        if inf_of(o) is not None:
            return float(o)
        return lift(o)
    return NotImplemented


def _inf_mul(x, f):
    if f != f:
        return f
    if truth(x > 0):
        return f
    if truth(x < 0):
        return -f
    return math.nan


def _div0(x):
    raise ZeroDivisionError("float division by zero")


class SymRoot(SymReal):
    """A square root: its square is the argument itself; any other use brings in a variable for the root."""

    __slots__ = ("arg", "y")
    __hash__ = SymReal.__hash__

    def __init__(self, arg):  # pylint: disable=super-init-not-called
        self.arg, self.y = arg, None

    def _root(self):
        if self.y is None:
            self.y = ctx().aux("sqrt", (self.arg,), lambda y, x: z3.And(y >= 0, y * y == x))
        return self.y

    n = property(lambda self: self._root().n)
    d = property(lambda self: self._root().d)
    isint = False

    def __mul__(self, o):
        if o is self:
            return self.arg
        return SymReal.__mul__(self, o)

    __rmul__ = __mul__

    def __pow__(self, k, mod=None):
        if is_num(k) and k == 2:
            return self.arg
        return SymReal.__pow__(self, k, mod)


class SymComplex:
    pass


def wrap_const(c):
    c = P.norm(Fraction(c))
    return SymReal(Poly.const(c), ONE, isinstance(c, int))


def floor_(x):
    if x.is_const():
        return wrap_const(math.floor(x.const()))
    if x.isint and x.d is ONE:
        return x
    return ctx().aux("floor", (x,), lambda y, a: z3.And(y <= a, a < y + 1), isint=True)


def concretize(x):
    """An int: fork over every feasible value (the value set must be bounded)."""
    if x.is_const():
        return int(x.const())
    return ctx().concretize(x)


_FLIP = {operator.lt: operator.gt, operator.le: operator.ge, operator.gt: operator.lt, operator.ge: operator.le,
         operator.eq: operator.eq, operator.ne: operator.ne}


def compare(a, b, op):
    """SymBool or bool for a op b."""
    if a.d is ONE and b.d is ONE:
        diff = a.n - b.n
        den = ONE
    else:
        x = a - b
        diff, den = x.n, x.d
    if diff.is_const() and den.is_const():
        return op(Fraction(diff.const_value()) / Fraction(den.const_value()), 0)
    s, sd = diff.sign(), den.sign()
    if s is not None and sd is not None and sd != 0:
        return op(s * sd, 0)
    if den is not ONE and op not in (operator.eq, operator.ne):
        if sd == 1:
            den = ONE
        elif sd == -1:
            den, op = ONE, _FLIP[op]
    if den is ONE or op in (operator.eq, operator.ne):
        if den is ONE and len(diff.t) > 1 and diff.degree() <= 1:
            k = diff.int_scale()
            if k:
                return SymBool(op(diff.scale(k).z_int(), 0))
        if diff.degree() <= 1 and () in diff.t and len(diff.t) <= 3:
            c = diff.t[()]
            lhs = Poly({m: k for m, k in diff.t.items() if m})
            return SymBool(op(lhs.z(), Poly.const(-c).z()))
        return SymBool(op(diff.z(), z3.RealVal(0)))
    return SymBool(op((diff * den).z(), z3.RealVal(0)))


class SymBool:
    __slots__ = ("f",)
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().branch(self.f)

    def as_real(self):
        return wrap_const(1 if bool(self) else 0)

    def __and__(self, o):
        o = formula(o)
        return NotImplemented if o is None else SymBool(z3.And(self.f, o))

    __rand__ = __and__

    def __or__(self, o):
        o = formula(o)
        return NotImplemented if o is None else SymBool(z3.Or(self.f, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = formula(o)
        return NotImplemented if o is None else SymBool(z3.Xor(self.f, o))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.f))

    logical_not = __invert__

    def logical_and(self, o):
        return self & o

    def logical_or(self, o):
        return self | o

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.f == o.f)
        if isinstance(o, bool):
            return self if o else ~self
        return self.as_real() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        return self.as_real() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_real() - o

    def __rsub__(self, o):
        return o - self.as_real()

    def __mul__(self, o):
        return self.as_real() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.as_real() < o

    def __gt__(self, o):
        return self.as_real() > o

    def __le__(self, o):
        return self.as_real() <= o

    def __ge__(self, o):
        return self.as_real() >= o

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<bool %s>" % self.f


def formula(x):
    """z3 formula of a truth value, None when it is not one."""
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymReal):
        r = x != 0
        return formula(r)
    return None


def truth(x):
    return bool(x)


# logical combinations that do not fork
def And(*xs):
    fs = [formula(x) for x in xs]
    return simp(z3.And(fs))


def Or(*xs):
    return simp(z3.Or([formula(x) for x in xs]))


def table_lookup(x, table):
    """Value of an integer table at a symbolic integer (known to be one of its keys), as an expression."""
    r = sum(v * indicator(x == k) for k, v in table.items())
    if is_sym(r) and not r.is_const():
        ctx().lookups[(r.n.key(), r.d.key())] = {v: simp(z3.Or([formula(x == k) for k, w in table.items() if w == v])) for v in table.values()}
    return r


def equals(x, v):
    """x == v, stated through the table x was looked up in where there is one."""
    if is_sym(x) and not is_sym(v) and isinstance(x, SymReal):
        t = ctx().lookups.get((x.n.key(), x.d.key()))
        if t is not None:
            return t.get(v, False)
    return x == v


def indicator(b):
    """1 where the condition holds, else 0, without deciding it."""
    f = formula(b) if is_sym(b) or isinstance(b, SymBool) else None
    if f is None:
        return 1 if b else 0
    f = simp(f)
    if isinstance(f, bool):
        return int(f)
    f = f.f
    c = ctx()
    key = "ind" + (" ".join(sorted(g.sexpr() for g in f.children())) if z3.is_and(f) else f.sexpr())
    if key not in c.auxes:
        v = c.e.vars.get(key)
        if v is None:
            v = c.e.vars[key] = P.new_var("ind!%d" % len(P.VARS), True)
        c.add(v.z == z3.If(f, z3.IntVal(1), z3.IntVal(0)))
        c.auxes[key] = SymReal(Poly.var(v), ONE, True)
    return c.auxes[key]


def Not(x):
    return simp(z3.Not(formula(x)))


def Implies(a, b):
    return simp(z3.Implies(formula(a), formula(b)))


def Iff(a, b):
    return simp(formula(a) == formula(b))


def simp(f):
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    return SymBool(f)


_PRODUCTS = {}


def products_in(f):
    """Names of the product constants occurring in a formula."""
    k = f.get_id()
    r = _PRODUCTS.get(k)
    if r is not None:
        return r[1]
    out = set()
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x):
            n = x.decl().name()
            if n.startswith("m!") and n in P.MONO_DEF:
                out.add(n)
        else:
            todo.extend(x.children())
    _PRODUCTS[k] = (f, out)
    return out


# --------------------------------------------------------------------------- contexts
class Stats:
    FIELDS = ("paths", "cut", "branches", "forks", "queries", "checks", "eq_checks", "trivial", "witnesses", "unknown", "mismatch", "confirmed")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
        self.known = {}
        self.samples = []
        self.functions = set()

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d.update(solver_s=self.solver_s, labels=self.labels, known=self.known, samples=self.samples, functions=sorted(self.functions))
        return d


class Base:
    symbolic = False

    # harness-facing conveniences common to both modes
    def reals(self, name, n, **kw):
        return [self.real("%s[%d]" % (name, i), **kw) for i in range(n)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def subset(self, name, items, min_size=0):
        out = [x for i, x in enumerate(items) if self.choice("%s.%d" % (name, i), [False, True])]
        if len(out) < min_size:
            raise PathEnd()
        return out

    def permutation(self, name, items):
        rest = list(items)
        out = []
        while len(rest) > 1:
            i = self.choice("%s.%d" % (name, len(out)), list(range(len(rest))))
            out.append(rest.pop(i))
        return out + rest

    def raises(self, label, exc, fn, msg=""):
        """fn must raise exc."""
        try:
            r = fn()
        except exc as e:
            self.check(label, True)
            return e
        except Exception as e:  # pylint: disable=broad-except
            self.check(label, False, "%s raised %s: %s" % (msg, type(e).__name__, str(e)[:200]), cause=e)
            return None
        self.check(label, False, "%s accepted, returned %r" % (msg, r))
        return None

    def no_raise(self, label, fn, msg=""):
        try:
            return fn()
        except Exception as e:  # pylint: disable=broad-except
            self.check(label, False, "%s raised %s: %s" % (msg, type(e).__name__, str(e)[:200]), cause=e)
            raise PathEnd()


BEAT = None  # shared with the parent process: when the running query started (0: none)
Z3_SEED = 0


def _consts(f):
    """The uninterpreted constants of a formula."""
    seen, todo, out = set(), [f], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


class _Solver(z3.Solver):
    """Reports how long its query has been running, for queries that do not honour their time limit."""

    def __init__(self):
        super().__init__()
        if Z3_SEED:
            self.set("random_seed", Z3_SEED)

    def check(self, *a):
        if BEAT is None:
            return super().check(*a)
        BEAT.value = time.time()
        try:
            return super().check(*a)
        finally:
            BEAT.value = 0.0


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, seed):
        self.e = eng
        self.stats = eng.stats
        self.solver = _Solver()  # products defined exactly
        self.solver.set("timeout", eng.branch_timeout)
        self.lin = _Solver()  # products as free (sign-constrained) quantities: unsat here is unsat there
        self.lin.set("timeout", eng.branch_timeout)
        self.defined = set()
        self.pins = {}
        self.decided = {}
        self.pc = []
        self.seed_pc = list(seed)
        self.values = {}  # name -> ("real"/"int"/"choice", var/z3, options)
        self.simplex = []
        self.auxes = {}
        self.aux_args = {}
        self.bare = False
        self.lookups = {}
        self.nchecks = 0
        for f in seed:
            self._record(f)

    # -- solver plumbing
    def define(self, f):
        """Bring in the definitions of the products a formula mentions; True when it mentions any."""
        names = products_in(f)
        for nm in names:
            if nm not in self.defined:
                self.defined.add(nm)
                _, facts, signs = P.MONO_DEF[nm]
                self.solver.add(*facts)
                for g in signs:
                    self.define(g)
                    self.lin.add(g)
        return bool(names)

    def add(self, *fs):
        for f in fs:
            self.define(f)
            self.solver.add(f)
            self.lin.add(f)

    def _record(self, f):
        g, val = f, True
        while z3.is_not(g):
            g, val = g.arg(0), not val
        self.decided[g.get_id()] = (g, val)
        self.add(f)

    def _lookup(self, f):
        g, flip = f, False
        while z3.is_not(g):
            g, flip = g.arg(0), not flip
        r = self.decided.get(g.get_id())
        return None if r is None else (r[1] ^ flip)

    def _check(self, *fs, timeout=None):
        t = time.time()
        if t > self.e.deadline:
            raise EngineError("time budget of the case exhausted")
        self.stats.queries += 1
        timeout = timeout or self.e.branch_timeout
        try:
            for f in fs:
                self.define(f)
            self.lin.set("timeout", timeout)
            r = self.lin.check(*fs)
            if r == z3.unsat or (r == z3.sat and not self.defined):
                return r
            # satisfiable with the table entries fixed to generic values?
            if self.defined and self._pin_check(fs) == z3.sat:
                return z3.sat
            self.solver.set("timeout", timeout)
            return self.solver.check(*fs)
        finally:
            self.stats.solver_s += time.time() - t

    def _pin_values(self, k):
        rnd = self.e.pin_rnd(k)
        out = {}
        for entries in self.simplex:
            w = [rnd.randint(2, 9) for _ in entries]
            tot = 64
            parts = [max(1, tot * x // sum(w)) for x in w]
            parts[-1] = tot - sum(parts[:-1])
            for e, p in zip(entries, parts):
                for v in e.n.vids():
                    out[v] = Fraction(p, tot)
        for name in sorted(n for n in self.values if self.values[n][0] == "real"):
            v = self.values[name][1]
            if v.vid not in out and v.pos:
                out[v.vid] = Fraction(rnd.randint(1, 63), 64)
        return out

    def _pin_check(self, fs):
        s = self.solver
        for k in range(self.e.pin_tries):
            pins = self._pin_values(k)
            if not pins:
                return z3.unknown
            s.push()
            try:
                s.set("timeout", 1500)
                for v, c in pins.items():
                    s.add(P.VARS[v].z == z3.Q(c.numerator, c.denominator))
                if s.check(*fs) == z3.sat:
                    return z3.sat
            finally:
                s.pop()
        return z3.unknown

    def branch(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        r = self._lookup(f)
        if r is not None:
            return r
        self.stats.branches += 1
        if time.time() > self.e.deadline:
            raise EngineError("time budget of the case exhausted")
        nf = z3.Not(f)
        t = self._check(f)
        if t == z3.unsat:
            self._record(nf)
            return False
        u = self._check(nf)
        if u == z3.unsat:
            self._record(f)
            return True
        if t == z3.unknown or u == z3.unknown:
            self.stats.unknown += 1
        self.stats.forks += 1
        if self.e.isolate:
            sub = self.e.fork_path()
            if sub is None:
                self.pc.append(nf)
                self._record(nf)
                return False
            if sub.get("stats"):
                self.e.merge(sub["stats"])
            if sub["status"] != "ok":
                raise SubResult(sub)
            self.pc.append(f)
            self._record(f)
            return True
        self.e.work.append(self.seed_pc + self.pc + [nf])
        self.pc.append(f)
        self._record(f)
        return True

    # -- inputs
    def _var(self, name, is_int):
        v = self.e.vars.get(name)
        if v is None:
            v = self.e.vars[name] = P.new_var(name, is_int)
        return v

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, lo_strict=False, hi_strict=False, default=None):
        v = self._var(name, False)
        if pos:
            v.pos = True
            self.add(v.z > 0)
        if nonneg:
            v.nonneg = True
            self.add(v.z >= 0)
        if lo is not None and hi is not None and lo == 0 and hi == 1 and not pos:
            v.nonneg, v.unit = True, (2 if hi_strict else 1)
        if lo is not None:
            self.add(v.z > lift(lo).z() if lo_strict else v.z >= lift(lo).z())
        if hi is not None:
            self.add(v.z < lift(hi).z() if hi_strict else v.z <= lift(hi).z())
        self.values[name] = ("real", v, None)
        return SymReal(Poly.var(v))

    def int(self, name, lo=None, hi=None):
        v = self._var(name, True)
        if lo is not None:
            self.add(v.z >= int(lo))
        if hi is not None:
            self.add(v.z <= int(hi))
        self.values[name] = ("int", v, None)
        return SymReal(Poly.var(v), ONE, True)

    def choice(self, name, options):
        options = list(options)
        if not options:
            raise PathEnd()
        v = self._var(name, True)
        self.add(v.z >= 0, v.z < len(options))
        self.values[name] = ("int", v, len(options))
        for i in range(len(options) - 1):
            if self.branch(v.z == i):
                return options[i]
        return options[-1]

    def sym_bool(self, name):
        v = self._var(name, True)
        self.add(v.z >= 0, v.z <= 1)
        self.values[name] = ("int", v, 2)
        return SymBool(v.z == 1)

    def aux(self, kind, args, axiom, isint=False, mono=False):
        free = self.bare and kind in ("exp", "log", "sigmoid", "rsqrt", "tanh", "sin")
        if free:
            args = tuple(SymReal(_grid(a.n), a.d if a.d is ONE else _grid(a.d), a.isint) for a in args)
            # functions of real numbers left uninterpreted (positive where they are)
            axiom = {"sigmoid": lambda y, *_: z3.And(y > 0, y < 1), "exp": lambda y, *_: y > 0, "rsqrt": lambda y, *_: y > 0}.get(kind, lambda y, *_: True)
            mono = False
        key = kind + repr([(a.n.key(), a.d.key()) for a in args])
        if key in self.auxes:
            return self.auxes[key]
        v = self.e.vars.get(key)
        if v is None:
            v = self.e.vars[key] = P.new_var("%s!%d" % (kind, len(P.VARS)), isint)
            v.pos = kind in ("exp", "sigmoid", "rsqrt")
        fact = axiom(v.zreal, *([None] * len(args) if free else [a.z() for a in args]))
        if fact is not True:
            self.add(fact)
        if mono:
            for k, (a0, y0) in list(getattr(self, "_mono_" + kind, {}).items()):
                self.add(z3.And(z3.Implies(args[0].z() > a0, v.z > y0), z3.Implies(args[0].z() < a0, v.z < y0),
                                       z3.Implies(args[0].z() == a0, v.z == y0)))
            getattr(self, "_mono_" + kind, None) or setattr(self, "_mono_" + kind, {})
            getattr(self, "_mono_" + kind)[key] = (args[0].z(), v.z)
        r = SymReal(Poly.var(v), ONE, isint)
        self.auxes[key] = r
        self.aux_args[v.vid] = (kind, args)
        return r

    def define_simplex(self, entries):
        """Entries are symbolic and sum to one; the last is expressed through the others where needed."""
        entries = [e for e in entries if isinstance(e, SymReal) and not e.is_const()]
        self.add(z3.Sum([e.z() for e in entries]) == 1)
        self.simplex.append(entries)

    def concretize(self, x):
        z = x.z()
        for _ in range(self.e.max_concretize):
            self.stats.queries += 1
            r = self.solver.check()
            if r != z3.sat:
                raise EngineError("cannot concretize (%s)" % r)
            m = self.solver.model()
            val = m.eval(z, model_completion=True)
            val = z3.simplify(val)
            if not (z3.is_int_value(val) or z3.is_rational_value(val)):
                raise EngineError("cannot concretize %s" % val)
            fr = val.as_fraction() if z3.is_rational_value(val) else Fraction(val.as_long())
            if fr.denominator != 1:
                raise EngineError("non-integral concretization")
            if self.branch(z == (z3.IntVal(fr.numerator) if z.is_int() else z3.RealVal(fr.numerator))):
                return int(fr)
        raise EngineError("unbounded concretization")

    def assume(self, cond):
        f = formula(cond)
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.add(f)
        if self._check() == z3.unsat:
            raise PathEnd()

    # -- assertions
    def check(self, label, cond, msg="", key=None, cause=None):
        self.stats.checks += 1
        self.nchecks += 1
        st = self.stats.labels.setdefault(label, [0, 0])
        st[0] += 1
        f = formula(cond)
        if f is None:
            raise EngineError("check %s: not a truth value: %r" % (label, cond))
        if z3.is_true(f):
            # the value is the same for every input that follows this (feasible) path
            self.stats.trivial += 1
            return
        neg = z3.Not(f)
        self.define(neg)
        vals = None
        if self.defined and not self.simplex and self.lin.check(neg) != z3.unsat:
            vals = self._point([neg])
        r = z3.sat if vals is not None else self._check(neg, timeout=self.e.check_timeout)
        if r == z3.unsat:
            self.add(f)
            return
        if vals is not None:
            pass
        elif r == z3.unknown:
            vals = self._pinned_model([neg])
            if vals is None:
                raise EngineError("solver gave no verdict on %s" % label)
        else:
            vals = self._model([neg])
        if self._known(label, key):
            self.add(f)
            if self._check() == z3.unsat:
                raise PathEnd()
            return
        if isinstance(msg, type(lambda: 0)):
            msg = msg()
        raise Found(label, msg, vals)

    def _known(self, label, key):
        k = self.e.known.get(key or label)
        if k:
            self.stats.known[key or label] = self.stats.known.get(key or label, 0) + 1
            return True
        return False

    def eliminate(self, p):
        """Substitute the simplex equations into a polynomial."""
        for entries in self.simplex:
            last = entries[-1]
            if last.d is ONE and len(last.n.t) == 1:
                (m, c), = last.n.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    rep = ONE
                    for x in entries[:-1]:
                        rep = rep - x.n
                    p = p.subst(m[0][0], rep)
        return p

    def lemma_eq(self, a, b):
        """Tell the linear solver an identity that follows from the row sums (verified by substitution)."""
        a, b = lift(a), lift(b)
        d = self.eliminate(a.n * b.d - b.n * a.d)
        if not d.is_zero():
            raise EngineError("lemma does not hold")
        self.add((a.n * b.d).z() == (b.n * a.d).z())

    def check_eq(self, label, a, b, msg="", tol=1e-7, key=None):
        """a == b for all values (exact over the reals; in replay within tol)."""
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            same = (a == b) or (a != a and b != b)
            return self.check(label, bool(same), msg or ("%r != %r" % (a, b)), key=key)
        self.stats.eq_checks += 1
        if la.is_const() and lb.is_const() and any(isinstance(x, float) for x in (a, b)):
            # two computed numbers: floating-point rounding is outside the claim (as in a replay)
            x, y = la.const(), lb.const()
            if abs(x - y) <= tol * (1 + abs(x)):
                return self.check(label, True, msg, key=key)
        d = la.n * lb.d - lb.n * la.d
        if not d.is_zero() and self.simplex:
            d = self.eliminate(d)
        if not d.is_zero():
            # coefficients that are floating-point rounding of the coefficients compared
            top = max((abs(x) for x in (la.n * lb.d).t.values()), default=0)
            if top and max(abs(x) for x in d.t.values()) <= top * _ROUNDING:
                return self.check(label, SymBool(Poly({}).z() == 0), msg, key=key)
        z = d.z()
        if d.is_zero():
            # discharged by z3 on the unsimplified difference when that is small, else on the normal form
            if len(la.n.t) + len(lb.n.t) <= 40 and la.d is ONE and lb.d is ONE:
                z = la.n.z() - lb.n.z()
            return self.check(label, SymBool(z == 0), msg, key=key)
        # a difference: look for a witness with a visible gap first
        diff = la.z() - lb.z()
        for gap in (Fraction(1, 64), Fraction(1, 1024)):
            g = z3.Q(gap.numerator, gap.denominator)
            f = z3.Or(diff >= g, diff <= -g)
            vals = self._pinned_model([f])
            if vals is not None:
                if self._known(label, key):
                    return None
                m = msg() if callable(msg) else msg
                raise Found(label, m or "results differ", vals)
            r = self._check(f, timeout=self.e.check_timeout)
            if r == z3.sat:
                if self._known(label, key):
                    return None
                vals = self._model([f])
                m = msg() if callable(msg) else msg
                raise Found(label, m or "results differ", vals)
        return self.check(label, SymBool(z == 0), msg, key=key)

    # -- models
    def _value(self, m, name):
        kind, v, _ = self.values[name]
        x = m.eval(v.z, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(30)
        if z3.is_rational_value(x):
            return [x.numerator_as_long(), x.denominator_as_long()] if kind == "real" else x.numerator_as_long()
        if z3.is_int_value(x):
            return x.as_long()
        raise EngineError("model value %s" % x)

    def _model(self, fs):
        """Values of a model of pc and fs, rounded to dyadic rationals where the solver agrees."""
        s = self.solver
        for f in fs:
            self.define(f)
        s.push()
        try:
            s.add(*fs)
            s.set("timeout", 3000)
            if s.check() != z3.sat:
                s.set("timeout", self.e.check_timeout)
                if s.check() != z3.sat:
                    return None
            m = s.model()
            names = list(self.values)
            vals = {n: self._value(m, n) for n in names}
            if not self._is_dyadic(vals):
                for n in names:
                    kind, v, _ = self.values[n]
                    if kind != "real":
                        continue
                    fr = Fraction(*vals[n])
                    ok = False
                    for q in (16, 256, 65536):
                        c = Fraction(round(fr * q), q)
                        s.push()
                        s.add(v.z == z3.Q(c.numerator, c.denominator))
                        if s.check() == z3.sat:
                            m = s.model()
                            s.pop()
                            s.add(v.z == z3.Q(c.numerator, c.denominator))
                            ok = True
                            break
                        s.pop()
                    if ok:
                        vals = {k: self._value(m, k) for k in names}
            return vals
        finally:
            s.set("timeout", self.e.branch_timeout)
            s.pop()

    @staticmethod
    def _is_dyadic(vals):
        for x in vals.values():
            if isinstance(x, list) and (x[1] & (x[1] - 1) or x[1] > 2 ** 30):
                return False
        return True

    def _full_pins(self, rnd, scale=1):
        """Numbers for all real inputs, chosen one after another so that the linear part of the path holds."""
        out = {}
        lin = self.lin
        lin.push()
        try:
            lin.set("timeout", 500)
            for name in sorted(n for n in self.values if self.values[n][0] == "real"):
                v = self.values[name][1]
                tries = [Fraction(rnd.randint(-96, 96), 32), Fraction(rnd.randint(1, 96), 32), Fraction(-rnd.randint(1, 96), 32), Fraction(rnd.randint(1, 63), 64), Fraction(0)]
                for x in [x * scale for x in tries] + (tries if scale != 1 else []):
                    if v.pos and x <= 0:
                        continue
                    e = v.z == z3.Q(x.numerator, x.denominator)
                    if lin.check(e) == z3.sat:
                        lin.add(e)
                        out[v.vid] = x
                        break
        finally:
            lin.pop()
            lin.set("timeout", self.e.branch_timeout)
        return out

    def _point(self, fs, scales=(1, 1, Fraction(1, 2 ** 18))):
        """A model found by putting numbers (that satisfy the linear part of the path) into all formulas."""
        names = [n for n in self.values if self.values[n][0] == "real"]
        if not names or len(names) > 40 or self.simplex:
            return None
        for f in fs:
            self.define(f)
        for scale in scales:
            pins = self._full_pins(self.e.rnd, scale)
            if len(pins) < len(names):
                continue
            env = dict(pins)
            for v, (kind, args) in self.aux_args.items():
                if any(x not in env for a in args for x in a.n.vids() | a.d.vids()):
                    continue
                den = [a.d.evalf(env) for a in args]
                if not all(den):
                    continue
                vals = [a.n.evalf(env) / d for a, d in zip(args, den)]
                try:
                    if kind == "abs":
                        env[v] = abs(vals[0])
                    elif kind in _OF_CONST:
                        env[v] = of_const(kind, vals[0])
                except (ValueError, OverflowError, ZeroDivisionError):
                    pass
            rep = [(P.VARS[v].z, z3.Q(Fraction(x).numerator, Fraction(x).denominator)) for v, x in env.items() if not P.VARS[v].is_int]
            for nm in self.defined:
                m, z = P.MONO_OF[nm], P.MONO_DEF[nm][0]
                if all(v in env for v, _ in m):
                    x = Fraction(1)
                    for v, e in m:
                        x *= Fraction(env[v]) ** e
                    if x.denominator.bit_length() > 4000:
                        break
                    rep.append((z, z3.Q(x.numerator, x.denominator)))
            else:
                left = z3.simplify(z3.substitute(z3.And(*list(self.lin.assertions()), *fs), *rep))
                if z3.is_false(left):
                    continue
                s = z3.Solver()
                s.set("timeout", 1000)
                s.add(left)
                if any(not z3.is_int(x) and not z3.is_bool(x) for x in _consts(left)) or s.check() != z3.sat:
                    continue
                m = s.model()
                out = {}
                for n in self.values:
                    v = self.values[n][1]
                    if v.vid in pins:
                        out[n] = [Fraction(pins[v.vid]).numerator, Fraction(pins[v.vid]).denominator]
                    else:
                        out[n] = self._value(m, n)
                return out
        return None

    def _pinned_model(self, fs, tries=4):
        """Ask the solver with the real inputs pinned to generic values (keeps nonlinear queries decidable)."""
        s = self.solver
        for f in fs:
            self.define(f)
        names = [n for n in self.values if self.values[n][0] == "real"]
        if not names:
            return None
        rnd = self.e.rnd
        vals = self._point(fs)
        if vals is not None:
            return vals
        for t in range(tries):
            pins = self._pin_values(rnd.randint(0, 10 ** 6))
            s.push()
            try:
                s.set("timeout", 2000)
                for v, c in pins.items():
                    s.add(P.VARS[v].z == z3.Q(c.numerator, c.denominator))
                if s.check(*fs) != z3.sat:
                    continue
                m = s.model()
                s.add(*fs)
                for n in names:
                    v = self.values[n][1]
                    if v.vid in pins:
                        continue
                    for c in (Fraction(rnd.randint(-128, 128), 32), Fraction(rnd.randint(1, 63), 64)):
                        e = v.z == z3.Q(c.numerator, c.denominator)
                        if s.check(e) == z3.sat:
                            m = s.model()
                            s.add(e)
                            break
                return {n: self._value(m, n) for n in self.values}
            finally:
                s.pop()
                s.set("timeout", self.e.branch_timeout)
        return None

    def note(self, *a):
        pass


class ConcCtx(Base):
    """The same harness on concrete values: the replay of a model against the unmodified code."""

    def __init__(self, eng, values):
        self.e = eng
        self.v = values
        self.failed = []
        self.log = []

    def _get(self, name):
        return self.v.get(name)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, lo_strict=False, hi_strict=False, default=None):
        x = self._get(name)
        if x is None:
            if default is not None:
                return default
            if lo is not None and hi is not None:
                return float(Fraction(to_frac(lo) + to_frac(hi)) / 2)
            if lo is not None:
                return float(lo) + (0.5 if lo_strict else 0.0)
            if hi is not None:
                return float(hi) - (0.5 if hi_strict else 0.0)
            return 0.5
        return x[0] / x[1] if isinstance(x, list) else float(x)

    def int(self, name, lo=None, hi=None):
        x = self._get(name)
        if x is None:
            return lo if lo is not None else (hi if hi is not None else 0)
        return int(x)

    def choice(self, name, options):
        options = list(options)
        if not options:
            raise PathEnd()
        x = self._get(name)
        return options[int(x) if x is not None and int(x) < len(options) else 0]

    def sym_bool(self, name):
        return bool(self._get(name))

    def branch(self, f):
        raise EngineError("symbolic value in a concrete run")

    add = aux = concretize = branch

    def define_simplex(self, entries):
        pass

    def lemma_eq(self, a, b):
        pass

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def check(self, label, cond, msg="", key=None, cause=None):
        if not bool(cond):
            if self.e.known.get(key or label):
                return
            if callable(msg):
                msg = msg()
            raise ReplayFail(label, msg)

    def check_eq(self, label, a, b, msg="", tol=1e-7, key=None):
        try:
            fa, fb = float(a), float(b)
            ok = (fa != fa and fb != fb) or fa == fb or (math.isfinite(fa) and math.isfinite(fb) and abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb)))
        except (TypeError, ValueError):
            ok = a == b
        if callable(msg):
            msg = msg()
        self.check(label, ok, "%s (%r vs %r)" % (msg, a, b), key=key)

    def note(self, *a):
        self.log.append(a)
