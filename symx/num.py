"""Symbolic numbers and booleans that flow through the real Python code.

A SymReal is a linear form over atoms with exact rational coefficients.  An
atom is a z3 term (a symbolic input, or a non-linear sub-term).  Comparing two
SymReals gives a SymBool; taking the truth value of a SymBool asks the current
path (engine.Path) to decide it, which is where the solver forks execution.
"""
from __future__ import annotations

import math
import re
from fractions import Fraction
from numbers import Number

import z3

CUR = None  # the Path being executed (set by engine)
PRINT = None  # how a symbolic number is printed (set by scenarios that read text back)


class Unsupported(Exception):
    """The code asked for an operation the encoding cannot represent."""


def norm(x):
    """Exact python number for a concrete value (int or Fraction), else None."""
    if type(x) is int:
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return None
        if x.is_integer():
            return int(x)
        return Fraction(x)
    if hasattr(x, "dtype") and hasattr(x, "item") and getattr(x, "ndim", 1) == 0:
        return norm(x.item())
    return None


def zq(x):
    if isinstance(x, int):
        return z3.RealVal(x)
    return z3.Q(x.numerator, x.denominator)


class SymBool:
    """cond over the path: kind 'lin' (form, op) meaning form op 0, or 'z3'."""

    __slots__ = ("kind", "form", "op", "expr")

    def __init__(self, kind, form=None, op=None, expr=None):
        self.kind, self.form, self.op, self.expr = kind, form, op, expr

    # -- encoding -------------------------------------------------------
    def z(self):
        if self.kind == "z3":
            return self.expr
        e = self.form.z()
        zero = z3.RealVal(0)
        if self.op == "<":
            return e < zero
        if self.op == "<=":
            return e <= zero
        return e == zero

    def neg(self):
        if self.kind == "z3":
            return SymBool("z3", expr=z3.Not(self.expr))
        if self.op == "<":
            return SymBool("lin", -self.form, "<=")
        if self.op == "<=":
            return SymBool("lin", -self.form, "<")
        return SymBool("z3", expr=z3.Not(self.z()))

    def __bool__(self):
        if CUR is None:
            raise Unsupported("truth value of a symbolic condition outside a path")
        return CUR.decide(self)

    def __invert__(self):
        return self.neg()

    def __and__(self, o):
        return And(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool("z3", expr=z3.Xor(zb(self), zb(o)))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(zb(self) == zb(o))
        if isinstance(o, int) and o in (0, 1):
            return self if o else ~self
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk_bool(zb(self) != zb(o))
        return NotImplemented

    def _num(self):
        return SymReal.atom_of(z3.If(self.z(), z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __repr__(self):
        if self.kind == "lin":
            return f"<{self.form!r} {self.op} 0>"
        return f"<{self.expr}>"


def zb(x):
    if isinstance(x, SymBool):
        return x.z()
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool("z3", expr=e)


def And(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    syms = []
    for x in xs:
        if isinstance(x, SymBool):
            syms.append(x)
        elif not x:
            return False
    if not syms:
        return True
    if len(syms) == 1:
        return syms[0]
    return SymBool("z3", expr=z3.And([s.z() for s in syms]))


def Or(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else list(xs)
    syms = []
    for x in xs:
        if isinstance(x, SymBool):
            syms.append(x)
        elif x:
            return True
    if not syms:
        return False
    if len(syms) == 1:
        return syms[0]
    return SymBool("z3", expr=z3.Or([s.z() for s in syms]))


def Not(x):
    if isinstance(x, SymBool):
        return x.neg()
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """if-then-else without forking (for oracles)."""
    if not isinstance(c, SymBool):
        return a if c else b
    return SymReal.atom_of(z3.If(c.z(), real(a).z(), real(b).z()))


def Min(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(le(r, x), r, x)
    return r


def Max(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = Ite(le(x, r), r, x)
    return r


def eq(a, b):
    """exact equality, never NotImplemented"""
    if isinstance(a, (SymReal, Number)) and isinstance(b, (SymReal, Number)):
        return a == b
    return a == b


def le(a, b):
    return a <= b


SQUARES = {}  # product atom -> its base, so that a root of a square stays linear


class SymReal:
    __slots__ = ("c", "k")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, c, k):
        self.c = c  # dict atom-name -> coefficient (int/Fraction), no zeros
        self.k = k

    # -- construction ---------------------------------------------------
    @staticmethod
    def var(name):
        return SymReal({name: 1}, 0)

    @staticmethod
    def atom_of(expr):
        """a linear form made of one opaque (non-linear) z3 term"""
        expr = z3.simplify(expr)
        if z3.is_rational_value(expr):
            return _lift(norm(Fraction(expr.numerator_as_long(), expr.denominator_as_long())))
        name = "@" + expr.sexpr()
        ATOMS[name] = expr
        return SymReal({name: 1}, 0)

    def is_const(self):
        return not self.c

    def z(self):
        terms = []
        for n, c in self.c.items():
            a = ATOMS[n]
            if c == 1:
                terms.append(a)
            else:
                terms.append(zq(c) * a)
        if self.k or not terms:
            terms.append(zq(self.k))
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    # -- arithmetic -----------------------------------------------------
    def _add(self, o, s):
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, SymReal):
            c = dict(self.c)
            for n, v in o.c.items():
                nv = c.get(n, 0) + s * v
                if nv:
                    c[n] = nv
                else:
                    c.pop(n, None)
            return SymReal(c, self.k + s * o.k)
        v = norm(o)
        if v is None:
            if isinstance(o, (float,)) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0):
                f = float(o)
                return f if s > 0 else -f  # inf / nan dominate
            return NotImplemented
        return SymReal(self.c, self.k + s * v)

    def __add__(self, o):
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __rsub__(self, o):
        return (-self)._add(o, 1)

    def __neg__(self):
        return SymReal({n: -c for n, c in self.c.items()}, -self.k)

    def __pos__(self):
        return self

    def _scale(self, v):
        if v == 0:
            return SymReal({}, 0)
        return SymReal({n: c * v for n, c in self.c.items()}, self.k * v)

    def __mul__(self, o):
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, SymReal):
            if not o.c:
                return self._scale(o.k)
            if not self.c:
                return o._scale(self.k)
            r = SymReal.atom_of(self.z() * o.z())
            if self is o or (self - o).is_zero():
                SQUARES[next(iter(r.c), None)] = self
            return r
        v = norm(o)
        if v is None:
            if isinstance(o, float):
                if self > 0:
                    return o
                if self < 0:
                    return -o
                return math.nan
            return NotImplemented
        return self._scale(v)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymReal):
            if not o.c:
                o = o.k
            else:
                if o == 0:
                    raise ZeroDivisionError("symbolic division by zero")
                if not self.c and self.k == 0:
                    return SymReal({}, 0)
                # k * o / o
                for n, c in o.c.items():
                    r = Fraction(self.c.get(n, 0)) / c
                    break
                if (self - o._scale(r)).is_zero():
                    return SymReal({}, norm(r))
                if CUR is not None:
                    return CUR.quotient(self, o)
                return SymReal.atom_of(self.z() / o.z())
        v = norm(o)
        if v is None:
            if isinstance(o, float):
                return 0.0 if o == o else math.nan
            return NotImplemented
        if v == 0:
            raise ZeroDivisionError("division by zero")
        return self._scale(norm(Fraction(1) / v))

    def __rtruediv__(self, o):
        v = norm(o)
        if v is None:
            return NotImplemented
        return SymReal({}, v) / self

    def is_zero(self):
        return not self.c and self.k == 0

    def __pow__(self, e):
        v = norm(e)
        if isinstance(v, int) and 0 <= v <= 4:
            r = SymReal({}, 1)
            for _ in range(v):
                r = r * self
            return r
        if v == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported("power")

    def sqrt(self):
        if CUR is None:
            raise Unsupported("sqrt outside a path")
        if len(self.c) == 1 and not self.k:
            n, c = next(iter(self.c.items()))
            if n in SQUARES and c == 1:
                return abs(SQUARES[n])
        return CUR.sqrt(self)

    def __abs__(self):
        return -self if self < 0 else self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # -- comparison -----------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, SymReal):
            d = self._add(o, -1)
        else:
            v = norm(o)
            if v is None:
                if isinstance(o, float) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0):
                    return _cmp_special(float(o), op)
                return NotImplemented
            d = SymReal(self.c, self.k - v)
        if not d.c:
            k = d.k
            return {"<": k < 0, "<=": k <= 0, "==": k == 0}[op]
        return SymBool("lin", d, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return r if r is NotImplemented else Not(r)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        if not self.c:
            return self.k != 0
        return not bool(self == 0)

    def __hash__(self):
        # two values the solver may still make equal must not be separated by
        # their hash: every symbolic number hashes alike, equality decides
        if not self.c:
            return hash(self.k)
        if CUR is not None and CUR.hashables is not None:
            # the scenario told which concrete numbers there are: the number is
            # one of them, one hashed before, or a number of its own
            for v, h in CUR.hashables:
                if bool(self == v):
                    return h
            h = hash(("symbolic", len(CUR.hashables)))
            CUR.hashables.append((self, h))
            return h
        raise Unsupported("hash of a symbolic number")

    # -- escapes to concrete types -------------------------------------
    def __float__(self):
        if not self.c:
            return float(self.k)
        raise Unsupported("float() of a symbolic number")

    def __int__(self):
        if not self.c:
            return int(self.k)
        if CUR is not None:
            return CUR.to_int(self)
        raise Unsupported("int() of a symbolic number")

    def __index__(self):
        return self.__int__()

    def __round__(self, n=None):
        if not self.c:
            return round(self.k, n) if n is not None else round(self.k)
        if CUR is None or (n is not None and type(n) is not int):
            raise Unsupported("round() of a symbolic number")
        if n is not None:
            return CUR.round(self, n)
        # half to even
        f = self if self >= 0 else -self
        g = f + Fraction(1, 2)
        i = int(g)
        if i % 2 and g == i:
            i -= 1
        return i if f is self else -i

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic number")

    def __repr__(self):
        if PRINT is not None:
            return PRINT(self)
        s = " + ".join((n if c == 1 else f"{c}*{n}") for n, c in self.c.items())
        if self.k or not s:
            s = f"{s} + {self.k}" if s else str(self.k)
        return f"«{s}»"

    def __format__(self, spec):
        if PRINT is not None and spec:
            m = re.fullmatch(r"\.(\d+)f", spec)
            if not m:
                raise Unsupported(f"a symbolic number printed as {spec!r}")
            return PRINT(round(self, int(m.group(1))), spec)
        return repr(self)


def _elementwise(name):
    scalar = getattr(SymReal, name)

    def method(self, o):
        if getattr(o, "ndim", 0) and type(o).__module__ == "numpy":
            out = o.astype(object)
            flat = out.ravel()
            for i in range(flat.size):
                flat[i] = scalar(self, flat[i])
            return flat.reshape(o.shape)
        return scalar(self, o)

    return method


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    setattr(SymReal, _n, _elementwise(_n))


def _elementwise_cmp(name):
    scalar = getattr(SymReal, name)

    def method(self, o):
        if getattr(o, "ndim", 0) and type(o).__module__ == "numpy":
            import numpy

            flat = [bool(scalar(self, x)) for x in o.ravel()]
            return numpy.array(flat, dtype=bool).reshape(o.shape)
        return scalar(self, o)

    return method


for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
    setattr(SymReal, _n, _elementwise_cmp(_n))


def _cmp_special(f, op):
    if f != f:
        return False
    if f > 0:
        return op in ("<", "<=")
    return False


def _lift(v):
    return SymReal({}, v)


def real(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return x._num()
    v = norm(x)
    if v is None:
        raise Unsupported(f"not a finite number: {x!r}")
    return SymReal({}, v)


ATOMS = {}  # name -> z3 term
