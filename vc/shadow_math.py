import math as _m
from . import engine as E

pi = E.SReal(E.frac(_m.pi))
e = E.SReal(E.frac(_m.e))
inf = _m.inf
nan = _m.nan


def exp(x):
    return E.sexp(E.tonum(x))


def log(x, base=None):
    return E.slog(x, base)


def log10(x):
    return E.slog(x) / E.slog(E.SReal(10))


def log2(x):
    return E.slog(x) / E.slog(E.SReal(2))


def log1p(x):
    return E.slog(1 + x)


def expm1(x):
    return exp(x) - 1


def sqrt(x):
    return E.ssqrt(x)


def pow(a, b):
    return E.SReal.lift(E.tonum(E.spow(E.tonum(a), E.tonum(b))))


def fabs(x):
    return E.SReal.lift(E.tonum(abs(x)))


def floor(x):
    return E.sfloor(x)


def ceil(x):
    return E.sceil(x)


def fsum(xs):
    r = E.SReal(0)
    for x in xs:
        r = r + x
    return r


def prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    raise E.Unsupported('isclose')


def isnan(x):
    return False


def isinf(x):
    return False


def isfinite(x):
    return True


def copysign(a, b):
    r = abs(a)
    return r if b >= 0 else -r


def _uf(name):
    def f(x):
        E.CUR.partial = True
        return E.SReal(E.math_uf(name)(E.rterm(E.tonum(x))))
    f.__name__ = name
    return f


erf, erfc, sin, cos, tan, atan, tanh, sinh, cosh, gamma, lgamma = [
    _uf(n) for n in ('erf erfc sin cos tan atan tanh sinh cosh gamma '
                     'lgamma').split()]
