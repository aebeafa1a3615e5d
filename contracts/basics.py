"""compounding (A01), day count (A02)"""
from . import contract


def _w(V, x, y):
    """conditioning of the concrete evaluation (no restriction of proofs)"""
    if not V.symbolic:
        V.assume(y)
    return x


@contract('A01')
def simple_compounding(V):
    C = V.mod('compounding')
    r = V.real('r', -0.5, 1, special=(0,))
    t = V.real('t', -3, 30)
    V.assume(1 + r * t != 0)
    _w(V, 0, abs(1 + r * t) > 1e-3)
    df = C.simple_compounding(r, t)
    V.eq(df * (1 + r * t), 1.0, 'factor')
    if t == 0:
        V.eq(df, 1.0, 'no maturity')
        return
    _w(V, 0, abs(t) > 1e-4)
    V.eq(C.simple_rate(df, t), r, 'rate back', tol=1e-7)


@contract('A01')
def simple_rate(V):
    C = V.mod('compounding')
    d = V.real('d', 0.01, 3, nonzero=True)
    t = V.real('t', -3, 30, nonzero=True)
    _w(V, 0, abs(t) > 1e-4 and abs(d) > 1e-3)
    r = C.simple_rate(d, t)
    V.eq(C.simple_compounding(r, t), d, 'factor back', tol=1e-7)


@contract('A01')
def simple_unit(V):
    C = V.mod('compounding')
    t = V.real('t', -3, 30)
    r = V.real('r', -0.5, 1)
    V.eq(C.simple_compounding(r, 0.0), 1.0, 'no maturity')
    V.eq(C.simple_compounding(0.0, t), 1.0, 'no rate')


@contract('A01')
def simple_falls(V):
    C = V.mod('compounding')
    t = V.real('t', 0, 30, gt=0)
    r = V.real('r', -0.5, 1)
    q = V.real('q', -0.5, 1, gt=r)
    V.assume(1 + r * t > 0)
    _w(V, 0, q - r > 1e-6 and t > 1e-3 and 1 + r * t > 1e-3)
    V.check(C.simple_compounding(r, t) > C.simple_compounding(q, t), 'falls')


@contract('A01')
def continuous(V):
    C = V.mod('compounding')
    r = V.real('r', -1, 1)
    t = V.real('t', -10, 30)
    df = C.continuous_compounding(r, t)
    V.eq(df, V.exp(-r * t), 'factor')
    if t == 0:
        V.eq(df, 1.0, 'no maturity')
        return
    _w(V, 0, abs(t) > 1e-4)
    V.eq(C.continuous_rate(df, t), r, 'rate back', tol=1e-7)
    d = V.real('d', 0.01, 3, gt=0)
    V.eq(C.continuous_compounding(C.continuous_rate(d, t), t), d,
         'factor back', tol=1e-7)
    V.eq(C.continuous_compounding(0.0, t), 1.0, 'no rate')
    V.eq(C.continuous_compounding(r, 0.0), 1.0, 'no maturity')


@contract('A01')
def continuous_falls(V):
    C = V.mod('compounding')
    t = V.real('t', 0, 30, gt=0)
    r = V.real('r', -0.5, 1)
    q = V.real('q', -0.5, 1, gt=r)
    _w(V, 0, q - r > 1e-6 and t > 1e-3)
    V.assume(q * t > r * t)
    V.check(C.continuous_compounding(r, t) > C.continuous_compounding(q, t),
            'falls')


@contract('A01')
def periodic(V):
    C = V.mod('compounding')
    m = V.real('m', 0.1, 400, gt=0, special=(1, 2, 4, 12, 365, 52))
    r = V.real('r', -0.5, 1)
    t = V.real('t', -3, 30)
    V.assume(1 + r / m > 0)
    _w(V, 0, 1 + r / m > 1e-2)
    df = C.periodic_compounding(r, t, m)
    V.eq(df, V.pow(1 + r / m, -m * t), 'factor')
    V.eq(C.periodic_compounding(0.0, t, m), 1.0, 'no rate')
    V.eq(C.periodic_compounding(r, 0.0, m), 1.0, 'no maturity')
    if t == 0:
        V.eq(df, 1.0, 'no maturity')
        return
    _w(V, 0, abs(t) > 1e-3 and 1e-200 < df < 1e200)
    V.eq(C.periodic_rate(df, t, m), r, 'rate back', tol=1e-6)


@contract('A01')
def periodic_rate(V):
    C = V.mod('compounding')
    m = V.real('m', 0.1, 400, gt=0, special=(1, 2, 4, 12, 365, 52))
    t = V.real('t', -3, 30, nonzero=True)
    d = V.real('d', 0.01, 3, gt=0)
    _w(V, 0, V.symbolic or abs(V.log(d) / (t * m)) < 2)
    V.eq(C.periodic_compounding(C.periodic_rate(d, t, m), t, m), d,
         'factor back', tol=1e-6)


@contract('A01')
def periodic_falls(V):
    C = V.mod('compounding')
    m = V.real('m', 0.1, 400, gt=0)
    t = V.real('t', 0, 30, gt=0)
    r = V.real('r', -0.5, 1)
    q = V.real('q', -0.5, 1, gt=r)
    V.assume(1 + r / m > 0)
    V.assume(1 + q / m > 1 + r / m)
    _w(V, 0, q - r > 1e-6 and t > 1e-3 and 1 + r / m > 1e-2)
    a, b = C.periodic_compounding(r, t, m), C.periodic_compounding(q, t, m)
    # lemma: larger base, negative exponent
    V.assume(-m * t < 0)
    if V.symbolic:
        la, lb = V.log(1 + r / m), V.log(1 + q / m)
        V.check(la < lb, 'lemma: logarithm')
        V.assume(la < lb)
        V.check((lb - la) * (m * t) > 0, 'lemma: exponent')
        V.assume((lb - la) * (m * t) > 0)
        V.assume(V.exp(-m * t * la) > V.exp(-m * t * lb))
        V.eq(a, V.exp(-m * t * la), 'a')
        V.eq(b, V.exp(-m * t * lb), 'b')
        V.assume(a == V.exp(-m * t * la))
        V.assume(b == V.exp(-m * t * lb))
    else:
        V.assume(1e-200 < a < 1e200 and 1e-200 < b)
    V.check(a > b, 'falls')


@contract('A01')
def periodic_conventions(V):
    C = V.mod('compounding')
    r = V.real('r', -0.5, 1)
    t = V.real('t', -3, 30)
    name, m = V.choice('convention', [
        ('annually', 1), ('semi', 2), ('quarterly', 4), ('monthly', 12),
        ('daily', 365)])
    V.assume(1 + r / m > 0)
    f = getattr(C, name + '_compounding')
    V.eq(f(r, t), V.pow(1 + r / m, -m * t), name)
    V.eq(f(r, t), C.periodic_compounding(r, t, m), name + ' is periodic')


@contract('A02')
def day_count(V):
    D = V.mod('daycount')
    k = V.kind('num', 'date', 'bd')
    a = V.time('a', k)
    b = V.time('b', k, near=[a])
    c = V.time('c', k, near=[a, b])
    ab, bc, ac = D.day_count(a, b), D.day_count(b, c), D.day_count(a, c)
    V.eq(ab, V.yf(a, b), 'difference')
    V.eq(ab + bc, ac, 'additive')
    V.eq(D.day_count(b, a), -ab, 'sign')
    V.eq(D.day_count(a, V.clone(a)), 0.0, 'zero')
    if a < b:
        V.check(ab > 0, 'positive')


@contract('A02')
def day_count_equal_clones(V):
    D = V.mod('daycount')
    k = V.kind('num', 'date', 'bd')
    a = V.time('a', k)
    b = V.time('b', k, near=[a])
    V.eq(D.day_count(V.clone(a), V.clone(b)), D.day_count(a, b),
         'depends on values only')
    if a == b:
        V.eq(D.day_count(a, b), 0.0, 'zero')
    else:
        V.check(D.day_count(a, b) != 0, 'non zero')


@contract('A02')
def day_count_mixed_ints(V):
    D = V.mod('daycount')
    if V.symbolic:
        a, b = V.real('a'), V.real('b')
    else:
        a = V.integer('a', -20, 40) - 10
        b = V.integer('b', -20, 40) - 10
    V.eq(D.day_count(a, b), b - a, 'numbers')
    V.check(V.isnum(D.day_count(a, b)), 'number')
