"""Multivariate polynomials with exact rational coefficients.

Values computed by the code under test are kept as quotients of such polynomials so that the
terms handed to z3 stay small; every decision about them is z3's (see core.py).
"""
import math
from fractions import Fraction

import z3


class Var:
    __slots__ = ("vid", "name", "z", "is_int", "pos", "zreal", "nonneg", "unit")

    def __init__(self, vid, name, z, is_int):
        self.vid, self.name, self.z, self.is_int = vid, name, z, is_int
        self.pos = self.nonneg = self.unit = False
        self.zreal = z3.ToReal(z) if is_int else z


VARS = []
MONOS = {}  # monomial -> z3 constant standing for the product
MONO_OF = {}  # name of that constant -> monomial
MONO_DEF = {}  # name of that constant -> (constant, product, sign facts)


def mono_z(m):
    """A z3 term for a monomial: linear ones directly, products through a named constant (see core.SymCtx.add)."""
    if len(m) == 1 and m[0][1] == 1:
        return VARS[m[0][0]].zreal
    z = MONOS.get(m)
    if z is None:
        name = "m!%d" % len(MONOS)
        z = MONOS[m] = z3.Real(name)
        fs = []
        for v, e in m:
            fs.extend([VARS[v].zreal] * e)
        facts = [z == z3.Product(fs)]
        signs = []
        if all(VARS[v].pos for v, _ in m):
            signs.append(z > 0)
        elif all(VARS[v].pos or VARS[v].nonneg or e % 2 == 0 for v, e in m):
            signs.append(z >= 0)
        for v, e in m:
            # u <= 1 and the rest nonnegative: the product is at most the rest
            if VARS[v].unit and e == 1 and all(VARS[w].pos or VARS[w].nonneg for w, _ in m if w != v):
                rest = tuple(x for x in m if x[0] != v)
                strict = VARS[v].unit == 2 and all(VARS[w].pos for w, _ in rest)
                signs.append(z < mono_z(rest) if strict else z <= mono_z(rest))
        MONO_DEF[name] = (z, facts, signs)
        MONO_OF[name] = m
    return z


def new_var(name, is_int=False):
    v = Var(len(VARS), name, z3.Int(name) if is_int else z3.Real(name), is_int)
    VARS.append(v)
    return v


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(a, b):
    """a / b or None."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        h = d.get(v, 0)
        if h < e:
            return None
        if h == e:
            del d[v]
        else:
            d[v] = h - e
    return tuple(sorted(d.items()))


def mono_key(m):
    """Lexicographic monomial order key (smaller vid more significant)."""
    out = []
    for v, e in m:
        out.append((-v, e))
    return out


class Poly:
    __slots__ = ("t", "_z", "_k")

    def __init__(self, terms):
        self.t = terms
        self._z = None
        self._k = None

    @staticmethod
    def const(c):
        c = norm(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def var(v):
        return Poly({((v.vid, 1),): 1})

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __add__(self, o):
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n == 0:
                del r[m]
            else:
                r[m] = norm(n)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, c):
        if c == 0:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: norm(k * c) for m, k in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return Poly({})
        if self.is_const():
            return o.scale(self.t[()])
        if o.is_const():
            return self.scale(o.t[()])
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return Poly({m: norm(c) for m, c in r.items() if c != 0})

    def lead(self):
        return max(self.t, key=mono_key)

    def exact_div(self, o):
        """self / o when it divides exactly, else None."""
        if not self.t:
            return self
        if o.is_const():
            return self.scale(Fraction(1) / Fraction(o.const_value()))
        if len(o.t) > len(self.t) and len(self.t) == 1:
            return None
        lo = o.lead()
        clo = Fraction(o.t[lo])
        rest = [(m, c) for m, c in o.t.items() if m != lo]
        rem = dict(self.t)
        q = {}
        while rem:
            lr = max(rem, key=mono_key)
            d = mono_div(lr, lo)
            if d is None:
                return None
            c = norm(Fraction(rem.pop(lr)) / clo)
            q[d] = c
            for m, k in rest:
                mm = mono_mul(m, d)
                n = rem.get(mm, 0) - c * k
                if n == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = norm(n)
        return Poly(q)

    def subst(self, vid, p):
        """Replace variable vid by polynomial p."""
        out = Poly({})
        plain = {}
        for m, c in self.t.items():
            d = dict(m)
            e = d.pop(vid, 0)
            if e == 0:
                plain[m] = c
                continue
            r = Poly({tuple(sorted(d.items())): c})
            for _ in range(e):
                r = r * p
            out = out + r
        return out + Poly(plain)

    def square_of_linear(self):
        """A linear form whose square this is, or None."""
        import math

        lin = {}
        for m, k in self.t.items():
            if sum(e for _, e in m) != 2:
                return None
            if len(m) == 1:
                k = Fraction(k)
                a, b = math.isqrt(abs(k.numerator)), math.isqrt(k.denominator)
                if k < 0 or a * a != k.numerator or b * b != k.denominator:
                    return None
                lin[m[0][0]] = Fraction(a, b)
        if not lin:
            return None
        first = min(lin)
        for v in lin:
            if v != first:
                x = self.t.get(tuple(sorted(((first, 1), (v, 1)))), 0)
                if x < 0:
                    lin[v] = -lin[v]
        p = Poly({((v, 1),): norm(c) for v, c in lin.items()})
        return p if (p * p - self).is_zero() else None

    def diff(self, vid):
        """Formal partial derivative."""
        out = {}
        for m, c in self.t.items():
            d = dict(m)
            e = d.pop(vid, 0)
            if e:
                if e > 1:
                    d[vid] = e - 1
                k = tuple(sorted(d.items()))
                out[k] = norm(out.get(k, 0) + c * e)
        return Poly({k: c for k, c in out.items() if c != 0})

    def vids(self):
        s = set()
        for m in self.t:
            for v, _ in m:
                s.add(v)
        return s

    def int_scale(self):
        """k such that k times the polynomial is integer for integer variables, else 0."""
        if not self.t or not all(VARS[v].is_int for m in self.t for v, _ in m):
            return 0
        k = math.lcm(*(Fraction(c).denominator for c in self.t.values()))
        return k if k <= 10 ** 9 else 0

    def z_int(self):
        """Linear, with integer variables and coefficients: as an integer term."""
        return z3.Sum([int(c) * VARS[m[0][0]].z if m else z3.IntVal(int(c)) for m, c in self.t.items()])

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def z(self):
        if self._z is None:
            if not self.t:
                self._z = z3.RealVal(0)
            else:
                terms = []
                for m, c in self.t.items():
                    c = Fraction(c)
                    k = z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator)
                    if not m:
                        terms.append(k)
                    else:
                        terms.append(mono_z(m) if c == 1 else k * mono_z(m))
                self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return self._z

    def sign(self):
        """Syntactic sign from variables known to be strictly positive: 1, -1, 0 (zero) or None."""
        if not self.t:
            return 0
        s = None
        for m, c in self.t.items():
            for v, e in m:
                if not VARS[v].pos and e % 2:
                    return None
                if not VARS[v].pos:
                    return None
            k = 1 if c > 0 else -1
            if s is None:
                s = k
            elif s != k:
                return None
        return s

    def evalf(self, env):
        tot = Fraction(0)
        for m, c in self.t.items():
            x = Fraction(c)
            for v, e in m:
                x *= env[v] ** e
            tot += x
        return tot

    def __repr__(self):
        return " + ".join(
            "%s%s" % (c, "".join("*%s%s" % (VARS[v].name, "" if e == 1 else "^%d" % e) for v, e in m))
            for m, c in sorted(self.t.items())
        ) or "0"


ONE = Poly.const(1)
ZERO = Poly.const(0)
