"""Symbolic execution core of the verification-condition generator.

The *real* source of dcf (mechanically instrumented, see instrument.py) is run
on the symbolic values defined here.  Branches on symbolic conditions fork the
run (by re-execution with a decision prefix), every path collects its path
condition, and every contract clause met on a path becomes one proof
obligation `path condition ==> clause`, discharged by the ring normaliser
(ring.py), z3 or cvc5.

Floats are treated as mathematical reals, ints as mathematical integers.
"""
import math
import os
import subprocess
import tempfile
import time as _time
from fractions import Fraction

import z3

REAL = z3.RealSort()
INT = z3.IntSort()


class EngineStop(BaseException):
    """base of all engine signals (not caught by `except Exception`)"""


class Unsupported(EngineStop):
    """code construct outside of the reach of the engine"""


class Infeasible(EngineStop):
    """path condition contradictory (assumption failed)"""


class Undecided(EngineStop):
    """path budget exhausted"""


CUR = None  # current context

EXP = z3.Function('EXP', REAL, REAL)
LOG = z3.Function('LOG', REAL, REAL)
SQRT = z3.Function('SQRT', REAL, REAL)
# trusted elementary functions, never interpreted
_MATH_UF = {}


def math_uf(name, n=1):
    key = (name, n)
    if key not in _MATH_UF:
        _MATH_UF[key] = z3.Function('M_' + name, *([REAL] * (n + 1)))
    return _MATH_UF[key]


def frac(x):
    """decimal reading of a python number"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non finite float')
        return Fraction(repr(x))
    raise TypeError(x)


def rval(f):
    f = Fraction(f)
    return z3.RatVal(f.numerator, f.denominator)


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------

class SVal(object):
    __slots__ = ()


class SBool(SVal):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide(self.e)

    def __hash__(self):
        return 0

    def __and__(self, o):
        return sbool(z3.And(self.e, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return sbool(z3.Or(self.e, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        return sbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return sbool(self.e == bterm(o))
        if isinstance(o, (int, float, SReal, SInt)):
            return snum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0))) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _num(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __repr__(self):
        return 'SBool(%s)' % str(self.e)[:200]


def sbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bterm(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SVal):
        r = (x != 0)
        return bterm(r)
    return z3.BoolVal(bool(x))


def snot(x):
    if isinstance(x, SBool):
        return sbool(z3.Not(x.e))
    return not x


def sand(*xs):
    return sbool(z3.And(*[bterm(x) for x in xs]))


def sor(*xs):
    return sbool(z3.Or(*[bterm(x) for x in xs]))


def simplies(a, b):
    return sbool(z3.Implies(bterm(a), bterm(b)))


class SNum(SVal):
    """numeric value: exact rational constant or z3 term"""
    __slots__ = ('c', '_e')

    def __init__(self, x):
        if isinstance(x, (z3.ArithRef, z3.RatNumRef, z3.IntNumRef)):
            self.c = None
            self._e = x
            if z3.is_rational_value(x) or z3.is_int_value(x):
                self.c = Fraction(x.as_fraction()) if z3.is_rational_value(x) \
                    else Fraction(x.as_long())
        else:
            self.c = frac(x)
            self._e = None

    def __hash__(self):
        return 0

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, op, rev=False):
        if isinstance(o, SBool):
            o = o._num()
        if isinstance(o, (int, float, Fraction)):
            isint = isinstance(o, int)
            o = SInt(o) if isint else SReal(o)
        if not isinstance(o, SNum):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        both_int = isinstance(a, SInt) and isinstance(b, SInt)
        cls = SInt if both_int else SReal
        if a.c is not None and b.c is not None:
            if op == '+':
                return cls(a.c + b.c)
            if op == '-':
                return cls(a.c - b.c)
            if op == '*':
                return cls(a.c * b.c)
        if op == '+':
            if a.c == 0:
                return cls.lift(b)
            if b.c == 0:
                return cls.lift(a)
            r = cls.term(a) + cls.term(b)
        elif op == '-':
            if b.c == 0:
                return cls.lift(a)
            r = cls.term(a) - cls.term(b)
        elif op == '*':
            if a.c == 0 or b.c == 0:
                return cls(0)
            if a.c == 1:
                return cls.lift(b)
            if b.c == 1:
                return cls.lift(a)
            r = cls.term(a) * cls.term(b)
        else:
            raise Unsupported(op)
        return cls(r)

    def __add__(self, o):
        return self._bin(o, '+')

    def __radd__(self, o):
        return self._bin(o, '+', True)

    def __sub__(self, o):
        return self._bin(o, '-')

    def __rsub__(self, o):
        return self._bin(o, '-', True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            from . import seq
            return seq.repeat(o, self)
        return self._bin(o, '*')

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from . import seq
            return seq.repeat(o, self)
        return self._bin(o, '*', True)

    def __neg__(self):
        return type(self)(-self.c) if self.c is not None else \
            type(self)(-self._e)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __truediv__(self, o):
        o = tonum(o)
        return o if o is NotImplemented else sdiv(self, o)

    def __rtruediv__(self, o):
        o = tonum(o)
        return o if o is NotImplemented else sdiv(o, self)

    def __pow__(self, o):
        o = tonum(o)
        return o if o is NotImplemented else spow(self, o)

    def __rpow__(self, o):
        o = tonum(o)
        return o if o is NotImplemented else spow(o, self)

    def __floordiv__(self, o):
        if self.c is not None and isinstance(o, int):
            return type(self)(self.c // o)
        if isinstance(o, SNum) and o.c is not None and self.c is not None:
            return type(self)(self.c // o.c)
        if isinstance(self, SInt):
            o = tonum(o)
            if isinstance(o, SInt) and o.c is not None and o.c > 0:
                return SInt(z3.ToInt(rterm(self) / rterm(o)))
        raise Unsupported('//')

    def __mod__(self, o):
        o = tonum(o)
        if self.c is not None and o.c is not None:
            return type(self)(self.c % o.c)
        if isinstance(self, SInt) and isinstance(o, SInt) and o.c and o.c > 0:
            return SInt(self.e % o.e)
        raise Unsupported('%')

    def __divmod__(self, o):
        raise Unsupported('divmod')

    def __round__(self, n=None):
        return sround(self, n)

    def __int__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        raise Unsupported('native int() of symbolic value')

    def __index__(self):
        if self.c is not None and self.c.denominator == 1:
            return int(self.c)
        raise Unsupported('native index of symbolic value')

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise Unsupported('native float() of symbolic value')

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, SBool):
            o = o._num()
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0,
                    '==': False, '!=': True}[op]
        if isinstance(o, (int, float, Fraction)):
            o = SInt(o) if isinstance(o, int) else SReal(o)
        if not isinstance(o, SNum):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        a, b = self, o
        if a.c is not None and b.c is not None:
            x, y = a.c, b.c
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
                    '==': x == y, '!=': x != y}[op]
        if isinstance(a, SInt) and isinstance(b, SInt):
            x, y = a.e, b.e
        else:
            x, y = rterm(a), rterm(b)
        if op == '<':
            r = x < y
        elif op == '<=':
            r = x <= y
        elif op == '>':
            r = x > y
        elif op == '>=':
            r = x >= y
        elif op == '==':
            r = x == y
        else:
            r = x != y
        return sbool(r)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__,
                           self.c if self.c is not None else str(self._e)[:300])

    def __format__(self, spec):
        return repr(self)

    def is_integer(self):
        if self.c is not None:
            return self.c.denominator == 1
        return sbool(z3.IsInt(rterm(self)))


class SReal(SNum):
    __slots__ = ()

    @property
    def e(self):
        if self._e is None:
            self._e = rval(self.c)
        return self._e

    @classmethod
    def term(cls, x):
        return rterm(x)

    @classmethod
    def lift(cls, x):
        if isinstance(x, SReal):
            return x
        return SReal(x.c) if x.c is not None else SReal(z3.ToReal(x.e))


class SInt(SNum):
    __slots__ = ()

    @property
    def e(self):
        if self._e is None:
            self._e = z3.IntVal(int(self.c))
        return self._e

    @classmethod
    def term(cls, x):
        return x.e

    @classmethod
    def lift(cls, x):
        return x


def rterm(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SInt):
        return rval(x.c) if x.c is not None else z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, rval(1), rval(0))
    return rval(frac(x))


def iterm(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, int):
        return z3.IntVal(x)
    raise Unsupported('integer term of %r' % (x,))


def tonum(x):
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, bool):
        return SInt(int(x))
    if isinstance(x, int):
        return SInt(x)
    if isinstance(x, (float, Fraction)):
        return SReal(x)
    return NotImplemented


def snum(t):
    return SInt(t) if t.sort() == INT else SReal(t)


def is_num(x):
    return isinstance(x, (int, float, Fraction, SNum)) and \
        not isinstance(x, bool)


def sdiv(a, b):
    """python `/` : raises ZeroDivisionError where the divisor is zero"""
    if b == 0:
        raise ZeroDivisionError('float division by zero')
    return sdiv0(a, b)


def sdiv0(a, b):
    if a.c is not None and b.c is not None:
        return SReal(a.c / b.c)
    if a.c == 0:
        return SReal(0)
    if b.c == 1:
        return SReal.lift(a)
    if b.c is not None:
        return SReal(rterm(a) * rval(1 / b.c))
    return SReal(rterm(a) / rterm(b))


def spow(b, x):
    if x.c is not None and x.c.denominator == 1 and abs(x.c) <= 16:
        n = int(x.c)
        if b.c is not None:
            if b.c == 0 and n < 0:
                raise ZeroDivisionError('0.0 to a negative power')
            r = b.c ** n
            return SInt(r) if isinstance(b, SInt) and n >= 0 else SReal(r)
        r = SInt(1) if isinstance(b, SInt) else SReal(1)
        for _ in range(abs(n)):
            r = r * b
        if n < 0:
            return sdiv(SReal(1), r)
        return r
    if b > 0:
        return sexp(x * slog_pos(b))
    if b == 0:
        if x > 0:
            return SReal(0)
        if x == 0:
            return SReal(1)
        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    raise Unsupported('power of negative base')


def sexp(x):
    x = tonum(x)
    if x.c == 0:
        return SReal(1)
    t = EXP(rterm(x))
    CUR.register('EXP', rterm(x))
    return SReal(t)


def slog_pos(x):
    if x.c == 1:
        return SReal(0)
    CUR.register('LOG', rterm(x))
    return SReal(LOG(rterm(x)))


def slog(x, base=None):
    if base is not None:
        return slog(x) / slog(base)
    x = tonum(x)
    if x > 0:
        return slog_pos(x)
    raise ValueError('math domain error')


def ssqrt(x):
    x = tonum(x)
    if x >= 0:
        if x.c is not None:
            for d in (x.c,):
                n, m = math.isqrt(d.numerator), math.isqrt(d.denominator)
                if n * n == d.numerator and m * m == d.denominator:
                    return SReal(Fraction(n, m))
        CUR.register('SQRT', rterm(x))
        return SReal(SQRT(rterm(x)))
    raise ValueError('math domain error')


def sround(x, n=None):
    """contract of round: nearest multiple of 10**-n, at most half of it off"""
    if x.c is not None:
        r = round(x.c, n) if n is not None else round(x.c)
        return SReal(r) if n is not None else SInt(r)
    if isinstance(x, SInt):
        return x
    scale = Fraction(10) ** (n or 0)
    k = z3.ToReal(CUR.fresh('round', INT, memo=('round', rterm(x).get_id(),
                                               n or 0, rterm(x))))
    r = k * rval(1 / scale)
    h = rval(1 / (2 * scale))
    CUR.assume_fact(z3.And(r - rterm(x) <= h, rterm(x) - r <= h))
    pool = CUR.rounds.setdefault(n or 0, [])
    xe = rterm(x)
    if not any(o.eq(xe) for o, _ in pool):
        for o, q in pool[-8:]:  # monotone
            CUR.assume_fact(z3.Implies(o <= xe, q <= r))
            CUR.assume_fact(z3.Implies(xe <= o, r <= q))
        pool.append((xe, r))
    if n is None:
        return SInt(z3.ToInt(k))
    return SReal(r)


def sint(x):
    """int(): truncation"""
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        if x.c is not None:
            return SInt(int(x.c))
        if x >= 0:
            return SInt(z3.ToInt(x.e))
        return -SInt(z3.ToInt(-x.e))
    return int(x)


def sfloor(x):
    x = tonum(x)
    if x.c is not None:
        return SInt(math.floor(x.c))
    if isinstance(x, SInt):
        return x
    return SInt(z3.ToInt(x.e))


def sceil(x):
    return -sfloor(-tonum(x))


# --------------------------------------------------------------------------
# dates
# --------------------------------------------------------------------------

class SDelta(SVal):
    """difference of calendar dates"""
    __slots__ = ('days',)

    def __init__(self, days):
        self.days = days

    def __hash__(self):
        return 0

    def __eq__(self, o):
        return self.days == o.days if isinstance(o, SDelta) else NotImplemented

    def __lt__(self, o):
        return self.days < o.days

    def __le__(self, o):
        return self.days <= o.days

    def __gt__(self, o):
        return self.days > o.days

    def __ge__(self, o):
        return self.days >= o.days

    def __add__(self, o):
        if isinstance(o, SDelta):
            return SDelta(self.days + o.days)
        if isinstance(o, SDate):
            return o + self
        return NotImplemented

    def __sub__(self, o):
        return SDelta(self.days - o.days)

    def __mul__(self, k):
        return SDelta(self.days * k)

    __rmul__ = __mul__

    def __neg__(self):
        return SDelta(-self.days)

    def __bool__(self):
        return bool(self.days != 0)

    def __repr__(self):
        return 'SDelta(%r)' % self.days


_PERIOD = {}


def period_fn(p, sign):
    """date + period (business date arithmetic): uninterpreted, monotone"""
    key = (p.upper(), sign)
    if key not in _PERIOD:
        _PERIOD[key] = z3.Function('ADD_%s_%s' % key, INT, INT)
    return _PERIOD[key]


class SDate(SVal):
    """calendar date; `bd`: has the business date interface"""
    __slots__ = ('ord', 'bd')

    def __init__(self, ord_, bd=False):
        self.ord = ord_
        self.bd = bd

    def __hash__(self):
        return 0

    def __getattr__(self, name):
        if name == 'diff_in_days' and self.bd:
            return lambda end: end.ord - self.ord
        if name == 'adjust' and self.bd:
            raise Unsupported('business day adjustment')
        raise AttributeError(name)

    def _c(self, o, op):
        if isinstance(o, SDate):
            return self.ord._cmp(o.ord, op)
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, '<')

    def __le__(self, o):
        return self._c(o, '<=')

    def __gt__(self, o):
        return self._c(o, '>')

    def __ge__(self, o):
        return self._c(o, '>=')

    def __eq__(self, o):
        return self._c(o, '==')

    def __ne__(self, o):
        return self._c(o, '!=')

    def _shift(self, p, sign):
        if isinstance(p, SDelta) and not self.bd:
            return SDate(self.ord + (p.days if sign > 0 else -p.days), self.bd)
        if isinstance(p, str) and self.bd:
            if p.upper() == '0D' or p == '':
                return self
            if p.upper().endswith('D') and p[:-1].isdigit():
                n = int(p[:-1])
                return SDate(self.ord + (n if sign > 0 else -n), True)
            f = period_fn(p, 'P' if sign > 0 else 'M')
            CUR.register_period(p, sign, iterm(self.ord))
            return SDate(SInt(f(iterm(self.ord))), True)
        return NotImplemented

    def __add__(self, p):
        r = self._shift(p, 1)
        if r is NotImplemented:
            raise TypeError('unsupported operand for date addition %r' % (p,))
        return r

    def __radd__(self, p):
        return self + p

    def __sub__(self, o):
        if isinstance(o, SDate):
            if self.bd:
                raise Unsupported('difference of business dates')
            return SDelta(self.ord - o.ord)
        r = self._shift(o, -1)
        if r is NotImplemented:
            raise TypeError('unsupported operand for date subtraction')
        return r

    def __repr__(self):
        return 'SDate(%r)' % (self.ord,)


class STok(SVal):
    """opaque value (identity only)"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


# --------------------------------------------------------------------------
# context: one path
# --------------------------------------------------------------------------

class Result(object):
    def __init__(self, name, status, backend, secs, detail='', model=None):
        self.name, self.status, self.backend = name, status, backend
        self.secs, self.detail, self.model = secs, detail, model


_LINEAR = {}


NLMUL = z3.Function('nlmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLDIV = z3.Function('nldiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLOPS = (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER,
         z3.Z3_OP_REM)
_ABS = {}


def value(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def abstract(e, lemmas):
    """e with products and quotients as uninterpreted functions (weaker);
    lemmas gets their signs.  None: not expressible"""
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        r = _ABS.get(i)
        if r is not None and r[0].eq(x):
            todo.pop()
            continue
        if not z3.is_app(x):
            return None
        ch = x.children()
        wait = [y for y in ch if not (
            y.get_id() in _ABS and _ABS[y.get_id()][0].eq(y))]
        if wait:
            todo.extend(wait)
            continue
        todo.pop()
        got = [_ABS[y.get_id()] for y in ch]
        if any(g[1] is None for g in got):
            _ABS[i] = (x, None, ())
            continue
        new = [g[1] for g in got]
        lem = ()
        for g in got:
            lem += tuple(l for l in g[2] if not any(l is o for o in lem))
        k = x.decl().kind()
        r = x
        if k == z3.Z3_OP_MUL:
            cs = [y for y in new if value(y)]
            vs = sorted([y for y in new if not value(y)],
                        key=lambda y: y.get_id())
            if len(vs) <= 1:
                r = rebuild(x, ch, new)
            else:
                isint = x.sort() == INT
                m = z3.ToReal(vs[0]) if isint else vs[0]
                for y in vs[1:]:
                    y = z3.ToReal(y) if isint else y
                    a, b, m = m, y, NLMUL(m, y)
                    lem += (z3.And(
                        (m > 0) == z3.Or(z3.And(a > 0, b > 0),
                                         z3.And(a < 0, b < 0)),
                        (m == 0) == z3.Or(a == 0, b == 0)),)
                for y in cs:
                    m = (z3.ToReal(y) if isint else y) * m
                r = z3.ToInt(m) if isint else m
        elif k == z3.Z3_OP_DIV and not value(new[1]):
            a, b = new
            r = NLDIV(a, b)
            lem += (z3.And(
                z3.Implies(b > 0, z3.And((r > 0) == (a > 0),
                                         (r == 0) == (a == 0))),
                z3.Implies(b < 0, z3.And((r > 0) == (a < 0),
                                         (r == 0) == (a == 0))),
                z3.Implies(b == a, z3.Or(b == 0, r == 1))),)
        elif k in NLOPS and not value(new[1]):
            r = None
        elif k == z3.Z3_OP_POWER:
            r = None
        elif ch:
            r = rebuild(x, ch, new)
        _ABS[i] = (x, r, lem)
    _, r, lem = _ABS[e.get_id()]
    if r is not None:
        lemmas.extend(lem)
    return r


def rebuild(x, old, new):
    if all(a.eq(b) for a, b in zip(old, new)):
        return x
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(new)
    if k == z3.Z3_OP_AND:
        return z3.And(new)
    if k == z3.Z3_OP_OR:
        return z3.Or(new)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(new)
    if k == z3.Z3_OP_MUL:
        r = new[0]
        for y in new[1:]:
            r = r * y
        return r
    if k == z3.Z3_OP_SUB and len(new) > 2:
        r = new[0]
        for y in new[1:]:
            r = r - y
        return r
    return d(*new)


class Branch(object):
    __slots__ = ('cond', 'val', 'exc', 'regs')

    def __init__(self, cond, val, exc, regs):
        self.cond, self.val, self.exc, self.regs = cond, val, exc, regs


class Ctx(object):
    feas_timeout = 1500
    prove_timeout = 6000

    def __init__(self, prefix, deadline, unbounded=False):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.pc = []
        self.facts = []
        self.nodes = []  # node facts of interpolations: f(x) == y
        self.condnodes = []  # the same for an index in range
        self.unbounded = unbounded
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.light = z3.Solver()
        self.light.set('timeout', 100)
        # facts of linear arithmetic only (unbounded mode)
        self.lin = z3.Solver() if unbounded else None
        if unbounded:
            self.lin.set('timeout', 400)
            self.feas_timeout = 150
            self.solver.set('timeout', self.feas_timeout)
        self.decided = {}
        self.counter = {}
        self.memo = {}
        self.inputs = []  # (name, kind, payload)
        self.labels = []  # choice descriptions
        self.results = []
        self.pool = {'EXP': [], 'LOG': [], 'SQRT': []}
        self.poolkeys = set()
        self.periods = {}
        self.rounds = {}
        self.generic = []  # stack of generic indices (unbounded loops)
        self.log = None    # events of the current generic run
        self.in_reg = 0
        self.in_inst = 0
        self.spaces = []
        self.sums = {}
        self.sumdefs = []
        self.ring_seed = None
        self.born = None
        self.loops = []      # for loops being summarised
        self.copies = {}     # objects that are elements of a template
        self.deadline = deadline
        self.solver_time = 0.0
        self.n_queries = 0
        self.unknowns = 0
        self.keep = []
        self.entered = set()
        self.ring = None
        self.partial = False
        self.bounded = False
        self.shard = None  # (i, n): part i of n of the choices

    # --- naming -----------------------------------------------------------
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 and not base.startswith('!') else \
            '%s!%d' % (base, n)

    def fresh(self, base, sort, memo=None):
        if memo is not None:
            self.keep.append(memo)
            key = memo[:-1] if len(memo) > 3 else memo
            if key in self.memo:
                return self.memo[key]
        name = self.name('!' + base)
        if self.generic:
            gs = [g for g in self.generic]
            f = z3.Function(name, *([INT] * len(gs)), sort)
            r = f(*gs)
        else:
            r = z3.Const(name, sort)
        if memo is not None:
            self.memo[key] = r
        return r

    # --- facts ------------------------------------------------------------
    def add(self, e):
        self.solver.add(e)
        if self.lin is not None:
            ls = []
            a = abstract(e, ls)
            if a is not None:
                self.lin.add(a)
                if ls:
                    self.lin.add(*ls)

    def unsat_lin(self, *es):
        """quick refutation from linear facts"""
        if self.lin is None:
            return False
        ls = []
        es = [abstract(e, ls) for e in es]
        if any(e is None for e in es):
            return False
        return self.lin.check(*(es + ls)) == z3.unsat

    def assume_fact(self, e):
        """fact known to hold (axiom instance)"""
        self.facts.append(e)
        if z3.is_eq(e) and e.arg(0).num_args() == 1 and \
                e.arg(0).decl().name().startswith('I_'):
            self.nodes.append(e)
            self.ring = None
        if self.log is not None and not self.in_reg:
            self.log.append(('fact', e))
        self.add(e)

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        self.pc.append(e)
        self.ring = None
        self.add(e)
        self.light.add(e)
        if self.sat() is False:
            raise Infeasible()

    def register(self, kind, arg):
        key = (kind, arg.get_id())
        if key in self.poolkeys:
            return
        self.poolkeys.add(key)
        self.keep.append(arg)
        pool = self.pool[kind]
        pool.append(arg)
        if self.log is not None and not self.in_reg:
            self.log.append(('pool', kind, arg))
        self.in_reg += 1
        try:
            self._axioms(kind, arg, pool)
        finally:
            self.in_reg -= 1

    def _axioms(self, kind, arg, pool):
        if kind == 'EXP':
            t = EXP(arg)
            self.assume_fact(t > 0)
            self.assume_fact(t >= 1 + arg)
            self.assume_fact(z3.Implies(arg == 0, t == 1))
            self.assume_fact((arg > 0) == (t > 1))
            self.assume_fact((arg < 0) == (t < 1))
            for o in pool[-9:-1]:
                self.assume_fact((o < arg) == (EXP(o) < t))
                self.assume_fact((o == arg) == (EXP(o) == t))
        elif kind == 'LOG':
            t = LOG(arg)
            self.assume_fact(z3.Implies(arg > 0, t <= arg - 1))
            self.assume_fact(z3.Implies(arg == 1, t == 0))
            self.assume_fact(z3.Implies(arg > 0, (t > 0) == (arg > 1)))
            self.assume_fact(z3.Implies(arg > 0, (t < 0) == (arg < 1)))
            self.assume_fact(z3.Implies(arg > 0, EXP(t) == arg))
            for o in pool[-9:-1]:
                self.assume_fact(z3.Implies(z3.And(o > 0, arg > 0),
                                            (o < arg) == (LOG(o) < t)))
        elif kind == 'SQRT':
            t = SQRT(arg)
            self.assume_fact(z3.Implies(arg >= 0,
                                        z3.And(t >= 0, t * t == arg)))
            self.assume_fact(z3.Implies(arg > 0, t > 0))

    def register_period(self, p, sign, t):
        """monotone, strictly forward / backward"""
        key = (p.upper(), sign)
        pool = self.periods.setdefault(key, [])
        if any(t.eq(o) for o in pool):
            return
        f = period_fn(p, 'P' if sign > 0 else 'M')
        if self.log is not None and not self.in_reg:
            self.log.append(('period', p, sign, t))
        self.in_reg += 1
        self.assume_fact(f(t) > t if sign > 0 else f(t) < t)
        for o in pool[-6:]:
            self.assume_fact(z3.Implies(o <= t, f(o) <= f(t)))
            self.assume_fact(z3.Implies(t <= o, f(t) <= f(o)))
        self.in_reg -= 1
        pool.append(t)

    def known_nodes(self):
        """node facts whose index turned out to be in range"""
        for g, e in self.condnodes:
            k = ('node', e.get_id())
            if k not in self.memo:
                self.keep.append(e)
                if self.light.check(z3.Not(g)) == z3.unsat:
                    self.memo[k] = True
            if self.memo.get(k):
                yield e

    def settle_nodes(self, names):
        """are further node facts of these functions known to hold?"""
        new = False
        for g, e in self.condnodes:
            k = ('node', e.get_id())
            if k in self.memo or e.arg(0).decl().name() not in names:
                continue
            if self.sat(z3.Not(g)) is False:
                self.keep.append(e)
                self.memo[k] = new = True
                self.ring = None
        return new

    # --- sub exploration --------------------------------------------------
    def _save(self):
        return (len(self.pc), len(self.facts), len(self.nodes),
                dict(self.decided), dict(self.memo),
                {k: list(v) for k, v in self.pool.items()},
                set(self.poolkeys),
                {k: list(v) for k, v in self.periods.items()},
                {k: list(v) for k, v in self.rounds.items()},
                [(s, list(s.terms), dict(s.ids), list(s.hooks),
                  list(s.foralls)) for s in self.spaces],
                self.ring, self.prefix, self.pos, self.decisions,
                self.pending, self.log, self.in_reg, len(self.sumdefs),
                {k: v for k, v in self.counter.items()
                 if k.startswith('tick:')}, self.born, len(self.condnodes))

    def _load(self, s):
        del self.pc[s[0]:]
        del self.facts[s[1]:]
        del self.nodes[s[2]:]
        self.decided, self.memo, self.pool, self.poolkeys, self.periods, \
            self.rounds = s[3:9]
        for sp, terms, ids, hooks, foralls in s[9]:
            sp.terms[:] = terms
            sp.ids = ids
            sp.hooks[:] = hooks
            sp.foralls[:] = foralls
        del self.spaces[len(s[9]):]
        self.ring, self.prefix, self.pos, self.decisions, self.pending, \
            self.log, self.in_reg = s[10:17]
        del self.sumdefs[s[17]:]
        del self.condnodes[s[20]:]
        for k in list(self.counter):
            if k.startswith('tick:'):
                del self.counter[k]
        self.counter.update(s[18])
        self.born = s[19]

    def sub(self, fn, pre):
        """all branches of fn() under the extra assumptions `pre`"""
        out = []
        stack = [[]]
        while stack:
            if len(out) > 200:
                raise Unsupported('too many branches in a body')
            prefix = stack.pop()
            snap = self._save()
            self.solver.push()
            self.light.push()
            if self.lin is not None:
                self.lin.push()
            self.prefix, self.pos = prefix, 0
            self.decisions, self.pending = [], []
            self.log, self.in_reg, self.ring = [], 0, None
            self.born = {}
            val = exc = None
            ok = True
            try:
                for p in pre:
                    self.assume(p)
                k = len(self.pc)
                val = fn()
            except Infeasible:
                ok = False
            except EngineStop:
                raise
            except Exception as e:
                exc = e
            finally:
                conds, log, pend = self.pc[snap[0]:], self.log, self.pending
                self.solver.pop()
                self.light.pop()
                if self.lin is not None:
                    self.lin.pop()
                self._load(snap)
            stack.extend(pend)
            if ok:
                cond = z3.And(*conds[k - snap[0]:]) \
                    if len(conds) > k - snap[0] else z3.BoolVal(True)
                out.append(Branch(z3.simplify(cond), val, exc, log))
        return out

    # --- branching --------------------------------------------------------
    def sat(self, *extra):
        t = _time.time()
        if t > self.deadline:
            raise Undecided('deadline')
        self.n_queries += 1
        if extra and self.unsat_lin(*extra):
            self.solver_time += _time.time() - t
            return False
        r = self.solver.check(*extra)
        self.solver_time += _time.time() - t
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        self.unknowns += 1
        if self.unknowns == 15 and self.lin is not None:
            # hard context: more branches are kept
            self.feas_timeout = 40
            self.solver.set('timeout', 40)
        return None

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.decided:
            return self.decided[key]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(val)
            if val is not None:
                self._take(cond, val)
                return val
        if self.sums:
            from . import seq
            seq.on_decide(cond)
        for val in (False, True):
            # cheap attempt: path condition without axioms
            e = cond if not val else z3.Not(cond)
            if self.light.check(e) == z3.unsat:
                self._record_forced(val)
                self._take(cond, val)
                return val
        t = self.sat(cond)
        if t is False:
            self._record_forced(False)
            self._take(cond, False)
            return False
        f = self.sat(z3.Not(cond))
        if f is False:
            self._record_forced(True)
            self._take(cond, True)
            return True
        # both feasible (or unknown)
        self.pending.append(self.decisions + [False])
        self.decisions.append(True)
        self.pos += 1
        self._take(cond, True)
        return True

    def _record_forced(self, val):
        self.decisions.append(val)
        self.pos += 1

    def _take(self, cond, val):
        n = z3.simplify(z3.Not(cond))
        e = cond if val else n
        self.decided[cond.get_id()] = val
        self.decided[n.get_id()] = not val
        self.keep += [cond, n]
        self.pc.append(e)
        self.ring = None
        self.add(e)
        self.light.add(e)

    def _shard(self, n):
        """options of a choice that belong to this shard"""
        ks = list(range(n))
        if not self.shard:
            return ks
        i, m = self.shard
        if n >= m:
            self.shard = None
            return [k for k in ks if k % m == i]
        k = i % n
        self.shard = (i // n, len(range(k, m, n)))
        return [k]

    def choose(self, n, label=None):
        """non deterministic choice out of range(n)"""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.generic:
            for k in range(n - 1):
                if self.decide(self.fresh('choice', z3.BoolSort())):
                    return k
            return n - 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(val)
            self._shard(n)
            return val
        ks = self._shard(n)
        for k in reversed(ks[1:]):
            self.pending.append(self.decisions + [k])
        self.decisions.append(ks[0])
        self.pos += 1
        return ks[0]


def explore(fn, budget=60.0, max_paths=4000, unbounded=False, shard=None):
    """run fn() on all paths; returns list of (ctx, outcome)

    outcome: 'done' | 'infeasible' | 'unsupported: ..' | 'undecided: ..'
    """
    global CUR
    stack = [[]]
    out = []
    deadline = _time.time() + budget
    while stack:
        if len(out) >= max_paths or _time.time() > deadline:
            out.append((None, 'undecided: path budget'))
            break
        prefix = stack.pop()
        ctx = Ctx(prefix, deadline, unbounded)
        ctx.shard = shard
        CUR = ctx
        try:
            fn(ctx)
            outcome = 'done'
        except Infeasible:
            outcome = 'infeasible'
        except Unsupported as exc:
            outcome = 'unsupported: %s' % exc
            if os.environ.get('VC_TRACE'):
                import traceback
                traceback.print_exc()
        except Undecided as exc:
            outcome = 'undecided: %s' % exc
        except RecursionError:
            outcome = 'undecided: recursion'
        except z3.Z3Exception as exc:
            outcome = 'unsupported: z3 %s' % exc
        finally:
            CUR = None
        stack.extend(ctx.pending)
        out.append((ctx, outcome))
    return out


def cvc5_check(smt2, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        name = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000), name],
                           capture_output=True, text=True, timeout=secs + 3)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        import os
        os.unlink(name)
