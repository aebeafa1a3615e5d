"""back end for the normal distribution: exact reasoning on terms of the form
a(x) + b(x) * EXP(-x*x/2), a and b rational functions with rational
coefficients, as obtained from the real code on each path.

The deviation D from the exact distribution function has the derivative
EXP(-x*x/2) * r(x) with r rational up to the constant 1/sqrt(2 pi), which is
replaced by a rational number close to it (the difference is accounted for).
Between the real roots of r - isolated exactly (Sturm) - D is monotone, so its
bounds are the values at the roots and the ends, enclosed by interval
arithmetic.
"""
import time as _time
from fractions import Fraction

import z3

from . import engine as E


class No(Exception):
    pass


def _sympy(t, x, X, G):
    """z3 term -> sympy, EXP(-x^2/2) -> G"""
    import sympy as sp
    if z3.is_rational_value(t):
        return sp.Rational(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return sp.Integer(t.as_long())
    if t.eq(x):
        return X
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'EXP':
        a = sp.expand(_sympy(ch[0], x, X, G))
        if a == -X ** 2 / 2:
            return G
        raise No('exp')
    c = [_sympy(y, x, X, G) for y in ch]
    if k == z3.Z3_OP_ADD:
        return sp.Add(*c)
    if k == z3.Z3_OP_SUB:
        r = c[0]
        for y in c[1:]:
            r = r - y
        return r
    if k == z3.Z3_OP_MUL:
        return sp.Mul(*c)
    if k == z3.Z3_OP_UMINUS:
        return -c[0]
    if k == z3.Z3_OP_DIV:
        return c[0] / c[1]
    if k == z3.Z3_OP_POWER:
        return c[0] ** c[1]
    raise No(str(t.decl()))


def split(V, value, x):
    """a, b of the term"""
    import sympy as sp
    X, G = sp.Symbol('x', real=True), sp.Symbol('G')
    t = z3.simplify(E.rterm(E.tonum(value)))
    s = sp.together(_sympy(t, E.rterm(x), X, G))
    num, den = sp.fraction(s)
    if den.has(G):
        raise No('denominator')
    p = sp.Poly(sp.expand(num), G)
    if p.degree() > 1:
        raise No('degree')
    den = sp.expand(den)
    b = sp.cancel(p.coeff_monomial(G) / den)
    a = sp.cancel(p.coeff_monomial(1) / den)
    return a, b, X


def _bounds():
    """rational enclosure of 1/sqrt(2 pi)"""
    import mpmath as mp
    mp.mp.dps = 60
    v = 1 / mp.sqrt(2 * mp.pi)
    k = Fraction(int(v * mp.mpf(10) ** 50), 10 ** 50)
    return k, Fraction(1, 10 ** 49)


def _report(V, label, ok, t0, detail=''):
    V._res(label, bool(ok), 'sturm+interval', _time.time() - t0, detail,
           status='proved' if ok else 'undecided', model={})


def density(V, value, x):
    t0 = _time.time()
    k, d = _bounds()
    try:
        a, b, X = split(V, value, x)
        ok = a == 0 and b.is_Rational
        c = Fraction(int(b.p), int(b.q)) if ok else None
    except (No, AttributeError) as e:
        return _report(V, 'density', False, t0, str(e))
    _report(V, 'positive', ok and c > 0, t0)
    good = ok and abs(c - k) + d <= Fraction(1, 10 ** 14)
    # exp(-x*x/2) <= 1
    V._res('density', good, 'exact', _time.time() - t0, 'constant %s' % b)


def opposite(V, value, x):
    """value: sum at opposite arguments"""
    t0 = _time.time()
    if V.ring().equal(E.rterm(E.tonum(value)), E.rterm(E.SReal(1))):
        return V._res('opposite arguments', True, 'ring', _time.time() - t0)
    e = value - 1
    b = E.SReal(Fraction(2, 10 ** 7))
    V.check(V.And(e <= b, -e <= b), 'opposite arguments')


def distribution(V, value, x):
    """value = Phi(x) up to 2e-7 and in [0, 1] on this path"""
    import sympy as sp
    from mpmath import iv
    t0 = _time.time()
    pos = V.ctx.sat(z3.Not(E.rterm(x) >= 0)) is False
    neg = V.ctx.sat(z3.Not(E.rterm(x) <= 0)) is False
    if not pos and not neg:
        _report(V, 'exact', False, t0, 'sign of argument')
        return
    k, dk = _bounds()
    try:
        a, b, X = split(V, value, x)
        if not a.is_Rational:
            raise No('not a constant plus a multiple of the density')
    except No as e:
        _report(V, 'exact', False, t0, str(e))
        return
    if neg:
        b = sp.cancel(b.subs(X, -X))
        sgn = -1
    else:
        sgn = 1
    # y = |x| >= 0: T(y) = a + b(y) G(y), exact: Phi(sgn*y)
    # D = T - Phi(sgn y); D' = G (b' - y b - sgn k)
    kk = sp.Rational(k.numerator, k.denominator)
    r = sp.together(sp.diff(b, X) - X * b - sgn * kk)
    num, den = sp.fraction(r)
    num, den = sp.Poly(num, X), sp.Poly(den, X)
    bn, bd = [sp.Poly(q, X) for q in sp.fraction(sp.together(b))]
    inf = sp.oo
    if bd.count_roots(0, inf):
        _report(V, 'exact', False, t0, 'pole')
        return
    iv.dps = 40
    def enc(q, lo, hi):
        y = iv.mpf([sp.Rational(lo).p, 0][0:1][0]) if False else None
        y = iv.mpf([str(sp.N(lo, 45)), str(sp.N(hi, 45))]) if lo != hi \
            else iv.mpf(sp.Rational(lo).p) / iv.mpf(sp.Rational(lo).q)
        def ev(p):
            v = iv.mpf(0)
            for c in p.all_coeffs():
                v = v * y + iv.mpf(int(c.p)) / iv.mpf(int(c.q))
            return v
        return y, ev(bn) / ev(bd) * iv.exp(-y * y / 2)

    def phi(y):
        """enclosure of Phi(sgn*y), y >= 0 an interval"""
        import mpmath as mp
        mp.mp.dps = 50
        lo = mp.erfc(-sgn * mp.mpf(y.a) / mp.sqrt(2)) / 2
        hi = mp.erfc(-sgn * mp.mpf(y.b) / mp.sqrt(2)) / 2
        e = mp.mpf(10) ** -30
        return iv.mpf([min(lo, hi) - e, max(lo, hi) + e])

    worst = iv.mpf(0)
    pts = [(sp.Integer(0), sp.Integer(0))]
    for (lo, hi), _m in num.intervals(eps=sp.Rational(1, 10 ** 25), inf=0):
        pts.append((lo, hi))
    aa = iv.mpf(int(a.p)) / iv.mpf(int(a.q))
    ok = True
    mx = 0.0
    for lo, hi in pts:
        y, g = enc(b, lo, hi)
        dv = abs(aa + g - phi(y))
        mx = max(mx, float(dv.b))
    # limit: b is rational, so b G -> 0
    lim = abs(float(a) - (1.0 if sgn > 0 else 0.0))
    mx = max(mx, lim)
    # 2e-7 with the error of the constant (integrated: < 10 * dk)
    ok = mx + 1e-30 < 2e-7
    _report(V, 'exact', ok, t0, 'deviation up to %.3g' % mx)
    if not ok:
        V.ctx.results[-1].status = 'refuted' if mx > 2.0000001e-7 \
            else 'undecided'
    # in [0, 1]: Phi >= 1/2 (<= 1/2) on this side, the other bound by the sign
    # of b on (0, oo): T <= 1 (T >= 0)
    nb = bn.count_roots(sp.Rational(0), inf)
    v0 = b.subs(X, 1)
    want = v0 < 0 if sgn > 0 else v0 > 0
    lim_ok = a == (1 if sgn > 0 else 0)
    _report(V, 'between zero and one', ok and nb == 0 and want and lim_ok,
            t0)
