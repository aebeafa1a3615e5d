"""curves: C01 - C04"""
from . import contract
from .basics import _w
from .interp import points, position

INTERPS = (None, 'linear', 'constant', 'right', 'nearest', 'linear_scheme',
           'constant_linear_constant', 'zero_linear_constant')


def chosen(V, positive=False, rate=False):
    """some interpolation argument: an arbitrary one (proof), the shipped
    ones (evaluation)"""
    if V.symbolic:
        return V.interp('interpolation', positive=positive)
    I = V.mod('interpolation')
    opts = [None, None, 'linear', 'constant', 'linear_scheme', I.linear,
            'constant_linear_constant', (I.constant, I.linear, I.constant)[1]]
    if positive:
        opts += ['loglinear', 'log_linear_scheme', I.log_linear_scheme]
    else:
        opts += ['right', 'nearest', 'zero_linear_constant', I.left]
    return V.choice('interpolation', opts)


def date_points(V, kinds=('num', 'date', 'bd'), minlen=1, gt=None, ylo=-10,
                yhi=10, mingap=1 / 512.):
    k = V.kind(*kinds)
    n = V.length('n', minlen)
    ts = V.times('d', k, n, mingap=mingap)
    ys = V.reals('y', n, ylo, yhi, gt=gt)
    return k, n, ts, ys


@contract('C01', unbounded=True)
def curve_nodes(V):
    C = V.mod('curves.curve')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    if V.boolean('tuples'):
        px, py = tuple(px), tuple(py)
    c = C.Curve(px, py, chosen(V))
    V.forall(n, lambda i: V.eq(c(V.clone(xs[i])), ys[i], 'value at point'))
    V.forall(n, lambda i: V.eq(c[V.clone(xs[i])], ys[i], 'subscript'))
    V.forall(n, lambda i: V.check(xs[i] in c, 'member'))
    q = list(xs) + [xs[0]]
    V.eq(tuple(c(q)), tuple(ys) + (ys[0],), 'list argument')
    V.eq(tuple(c(tuple(q))), tuple(ys) + (ys[0],), 'tuple argument')
    x = position(V, 'at', xs)
    V.assume_all(xs, lambda v: v != x)
    V.raises(KeyError, lambda: c[x], 'no curve point')
    V.eq(tuple(c([x, xs[0]])), (c(x), ys[0]), 'mixed list argument')


@contract('C01', unbounded=True)
def curve_default_interpolation(V):
    """without interpolation: linear between, constant beyond the points"""
    C = V.mod('curves.curve')
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    c = C.Curve(px, py)
    x = position(V, 'at', xs)
    V.eq(c(x), I.linear_scheme(xs, ys)(x), 'default interpolation')
    V.eq(C.Curve(xs, ys)(x), c(x), 'order')


@contract('C01', unbounded=True)
def curve_refuses_lengths(V):
    C = V.mod('curves.curve')
    cls = V.choice('cls', [C.Curve, C.DateCurve])
    n, xs, ys = points(V)
    if V.boolean('short'):
        ys = ys[:-1]
    else:
        ys = list(ys) + [V.real('extra')]
    V.raises(ValueError, lambda: cls(xs, ys), 'unequal length')


@contract('C01', unbounded=True)
def date_curve_nodes(V):
    C = V.mod('curves.curve')
    k, n, ts, ys = date_points(V)
    org = V.time('origin', k, near=ts)
    px, py = V.shuffle('order', ts, ys)
    c = C.DateCurve(px, py, chosen(V), origin=org)
    V.forall(n, lambda i: V.eq(c(V.clone(ts[i])), ys[i], 'value at point',
                               tol=1e-8))
    V.forall(n, lambda i: V.eq(c[V.clone(ts[i])], ys[i], 'subscript',
                               tol=1e-8))
    V.eq(tuple(c(list(ts))), tuple(ys), 'list argument', tol=1e-8)
    V.eq(tuple(c(tuple(ts))), tuple(ys), 'tuple argument', tol=1e-8)
    x = V.time('at', k, near=ts)
    V.assume_all(ts, lambda v: v != x)
    V.raises(KeyError, lambda: c[x], 'no curve point')


@contract('C01', unbounded=True)
def date_curve_order(V):
    C = V.mod('curves.curve')
    I = V.mod('interpolation')
    k, n, ts, ys = date_points(V, minlen=2)
    org = V.time('origin', k, near=ts)
    px, py = V.shuffle('order', ts, ys)
    ip = None if V.symbolic else chosen(V)
    a = C.DateCurve(ts, ys, ip, origin=org)
    b = C.DateCurve(px, py, ip, origin=V.clone(org))
    x = V.time('at', k, near=ts)
    V.eq(a(x), b(x), 'same function for every order')


def _assign(V, c, ts, ys, k, label):
    """one assignment: existing or new point; returns new points"""
    n = len(ts)
    v = V.real('v' + label, -10, 10)
    if V.boolean('existing' + label):
        j = V.index('pos' + label, n)
        t = V.clone(ts[j])
        nts, nys = list(ts), list(ys)
        nys[j] = v
    else:
        t = V.time('t' + label, k, near=ts)
        V.assume_all(ts, lambda x: x != t)
        if not V.symbolic and k == 'num':
            V.assume(min(abs(t - x) for x in ts) > 1e-3)
        nts, nys = list(ts) + [t], list(ys) + [v]
    c[t] = v
    return nts, nys


@contract('C02', unbounded=True)
def assign_curve(V):
    C = V.mod('curves.curve')
    n, xs, ys = points(V)
    ts, vs = V.shuffle('order', xs, ys)
    ip = chosen(V)
    c = C.Curve(ts, vs, ip)
    # the order of the points does not matter (C01): compare in base order
    ts, vs = (list(xs), list(ys)) if V.symbolic else (list(ts), list(vs))
    steps = 1 if V.symbolic else V.choice('steps', [1, 1, 2, 5, 9])
    for s in range(steps):
        ts, vs = _assign(V, c, ts, vs, 'num', str(s))
        V.eq([c(t) for t in ts], vs, 'values after assignment')
    V.check(len(c.domain) == len(ts), 'domain size')
    V.each(ts, lambda t: V.check(t in c, 'domain'))
    x = position(V, 'at', xs)
    V.eq(c(x), C.Curve(ts, vs, ip)(x), 'as built from final points')


@contract('C02', unbounded=True)
def assign_curve_fresh(V):
    """equal, as a function, to a curve built from the final points, for any
    default interpolation"""
    C = V.mod('curves.curve')
    if V.symbolic:
        V.patch(C.Curve, '_INTERPOLATION', staticmethod(V.interp('default')))
    cls = V.choice('cls', ['Curve', 'DateCurve'])
    n, xs, ys = points(V)
    ts, vs = list(xs), list(ys)
    if cls == 'Curve':
        c = C.Curve(ts, vs)
    else:
        c = C.DateCurve(ts, vs, origin=ts[0])
    nts, nvs = _assign(V, c, ts, vs, 'num', '0')
    x = position(V, 'at', xs)
    d = C.Curve(nts, nvs) if cls == 'Curve' else C.DateCurve(
        nts, nvs, origin=xs[0])
    V.eq(c(x), d(x), 'as built from final points')


@contract('C02', unbounded=True, ubudget=3)
def assign_date_curve(V):
    C = V.mod('curves.curve')
    k, n, xs, ys = date_points(V)
    ts, vs = V.shuffle('order', xs, ys)
    org = V.time('origin', k, near=xs)
    if V.boolean('noorigin'):
        org = None
    ip = chosen(V)
    dc = V.daycount()
    c = C.DateCurve(ts, vs, ip, origin=org, day_count=dc)
    want = c.origin
    ts, vs = list(ts), list(vs)
    steps = 1 if V.symbolic else V.choice('steps', [1, 1, 2, 5, 9])
    for s in range(steps):
        ts, vs = _assign(V, c, ts, vs, k, str(s))
        V.eq(c.origin, want, 'origin kept')
        V.eq([c(t) for t in ts], vs, 'values after assignment', tol=1e-8)
    V.check(len(c.domain) == len(ts), 'domain size')
    V.each(ts, lambda t: V.check(t in c, 'domain'))
    x = V.time('at', k, near=xs)
    V.eq(c(x), C.DateCurve(ts, vs, ip, origin=want, day_count=dc)(x),
         'as built from final points', tol=1e-8)


@contract('C02', unbounded=True, ubudget=3)
def assign_rate_curve(V):
    m, name = V.choice('cls', [
        ('curves.interestratecurve', 'ZeroRateCurve'),
        ('curves.interestratecurve', 'ShortRateCurve'),
        ('curves.interestratecurve', 'CashRateCurve'),
        ('curves.interestratecurve', 'DiscountFactorCurve'),
        ('curves.creditcurve', 'FlatIntensityCurve'),
        ('curves.creditcurve', 'HazardRateCurve'),
        ('curves.curve', 'ForwardCurve'),
        ('curves.fx', 'FxForwardCurve'),
        ('curves.volatilitycurve', 'TerminalVolatilityCurve')])
    cls = getattr(V.mod(m), name)
    k, n, xs, ys = date_points(V, gt=0, ylo=.2, yhi=2, mingap=.1)
    ts, vs = list(xs), list(ys)
    ip = V.interp('i', positive=True) if V.symbolic else V.choice(
        'ip', ['linear', 'constant', 'linear_scheme'])
    org = V.clone(xs[0]) if V.boolean('withorigin') else None
    c = cls(ts, vs, ip, origin=org)
    v = V.real('v', .2, 2, gt=0)
    if V.boolean('existing'):
        j = V.index('pos', n)
        t = V.clone(xs[j])
        vs[j] = v
    else:
        t = V.time('t', k, after=xs[0])
        V.assume_all(xs, lambda x: x != t)
        if not V.symbolic and k == 'num':
            V.assume(min(abs(t - x) for x in xs) > 1e-2)
        ts, vs = ts + [t], vs + [v]
    c[t] = v
    V.eq([c(t) for t in ts], vs, 'values after assignment', tol=1e-8)
    V.eq(c.origin, xs[0], 'origin kept')


OPS = (('+', lambda a, b: a + b), ('-', lambda a, b: a - b),
       ('*', lambda a, b: a * b), ('/', lambda a, b: a / b))


@contract('C03', bound=2, unbounded=True, ubudget=2)
def arithmetic(V):
    C = V.mod('curves.curve')
    n, xs, ys = points(V)
    m = V.length('m', 1)
    zs = V.times('z', 'num', m)
    if not V.symbolic and V.boolean('overlap'):
        zs = sorted(set(zs[:1] + xs[:max(1, m)]))[:m]
        m = len(zs)
    ws = V.reals('w', m, .5, 4)
    op, f = V.choice('op', OPS)
    a, b = C.Curve(xs, ys, chosen(V)), C.Curve(zs, ws, chosen(V))
    av, bv = {}, {}
    grid = list(xs) + list(zs)
    A, B = [a(t) for t in grid], [b(t) for t in grid]
    if op == '/':
        if 0 in B:
            V.raises(ZeroDivisionError, lambda: f(a, b), 'divisor vanishes')
            return
        _w(V, 0, V.symbolic or min(abs(x) for x in B) > 1e-6)
    c = f(a, b)
    V.check(isinstance(c, C.Curve), 'curve')
    V.each(grid, lambda t: V.check(t in c, 'grid point'))
    V.forall(len(grid), lambda i: V.eq(c(grid[i]), f(A[i], B[i]), 'pointwise',
                                       tol=1e-8))
    V.each(c.domain, lambda x: V.check(x in grid, 'no other point'))
    V.eq([a(t) for t in grid], A, 'first operand unchanged')
    V.eq([b(t) for t in grid], B, 'second operand unchanged')
    V.eq(list(a.domain), list(xs), 'first domain unchanged')
    V.eq(list(b.domain), list(zs), 'second domain unchanged')


@contract('C03', bound=1, unbounded=True, ubudget=6)
def date_arithmetic(V):
    C = V.mod('curves.curve')
    k = V.kind('num', 'date')
    n = V.length('n', 1)
    xs = V.times('d', k, n, mingap=.1)
    ys = V.reals('y', n, -4, 4)
    same = V.boolean('same grid') if not V.symbolic else False
    m = n if same else V.length('m', 1)
    zs = list(xs) if same else V.times('z', k, m, mingap=.1)
    if not V.symbolic and k == 'num':
        V.assume(all(x == z or abs(x - z) > 1e-6 for x in xs for z in zs))
    ws = V.reals('w', m, .5, 4)
    org = V.time('origin', k, near=list(xs))
    dc = V.daycount()
    op, f = V.choice('op', OPS)
    ip = V.interp('ia') if V.symbolic else V.choice(
        'ip', [None, 'linear', 'linear_scheme'])
    jp = V.interp('ib') if V.symbolic else ip
    a = C.DateCurve(xs, ys, ip, origin=org, day_count=dc)
    b = C.DateCurve(zs, ws, jp, origin=V.clone(org), day_count=dc)
    grid = list(xs) + list(zs)
    A, B = [a(t) for t in grid], [b(t) for t in grid]
    if op == '/':
        if 0 in B:
            V.raises(ZeroDivisionError, lambda: f(a, b), 'divisor vanishes')
            return
        _w(V, 0, V.symbolic or min(abs(x) for x in B) > 1e-6)
    c = f(a, b)
    V.eq(c.origin, org, 'origin of first operand')
    V.check(c._day_count is dc, 'day count of first operand')
    V.each(grid, lambda t: V.check(t in c, 'grid point'))
    V.forall(len(grid), lambda i: V.eq(c(grid[i]), f(A[i], B[i]), 'pointwise',
                                       tol=1e-7))
    V.each(c.domain, lambda x: V.check(x in grid, 'no other point'))
    V.eq([a(t) for t in grid], A, 'first operand unchanged')
    V.eq([b(t) for t in grid], B, 'second operand unchanged')
    V.eq(list(a.domain), list(xs), 'first domain unchanged')
    V.eq(list(b.domain), list(zs), 'second domain unchanged')


@contract('C04', unbounded=True)
def time_by_year_fraction(V):
    """value = interpolation over year fractions from the origin"""
    C = V.mod('curves.curve')
    I = V.mod('interpolation')
    k, n, ts, ys = date_points(V)
    mode = V.choice('origin', ['none', 'given', 'zero'])
    org = None
    if mode == 'given':
        org = V.time('org', k, near=ts)
    elif mode == 'zero':
        V.assume(k == 'num')
        org = V.choice('zero', [0, 0.0])
    dcf_ = V.choice('dc', ['none', 'func', 'scaled'])
    if dcf_ == 'none':
        dc = None
        yf = V.yf
    elif dcf_ == 'scaled':
        s = V.real('scale', .5, 3, gt=0)
        dc = yf = lambda a, b: V.yf(a, b) * s
    else:
        s = V.real('scale', .5, 3, gt=0)
        q = V.real('quirk', 0, 1, gt=0)
        dc = yf = lambda a, b: V.If(a == b, 0.0, V.yf(a, b) * s) + \
            V.If(a < b, q, 0.0)
    o = ts[0] if org is None else org
    grid = [yf(o, t) for t in ts]
    log = []

    def rec(domain, data):
        g = I.linear_scheme(domain, data) if not V.symbolic else \
            V.interp('arb')(domain, data)
        log.append((list(domain), list(data), g))
        return g
    c = C.DateCurve(ts, ys, rec, origin=org, day_count=dc)
    V.eq(c.origin, o, 'origin')
    V.eq(log[-1][0], grid, 'interpolated over year fractions')
    V.eq(log[-1][1], list(ys), 'interpolated values')
    x = V.time('at', k, near=ts)
    V.eq(c(x), log[-1][2](yf(o, x)), 'evaluated at year fraction')
    V.eq(c.day_count(x), yf(o, x), 'day count from origin')
    z = V.time('z', k, near=ts)
    V.eq(c.day_count(x, z), yf(x, z), 'day count')


@contract('C04', unbounded=True)
def day_count_registry(V):
    C = V.mod('curves.curve')
    s = V.real('scale', .5, 3, gt=0)
    f = lambda a, b: V.yf(a, b) * s
    k, n, ts, ys = date_points(V)
    V.patch(C.DateCurve, 'DAY_COUNT', {'mine': f})
    c = C.DateCurve(ts, ys, chosen(V), day_count='mine')
    d = C.DateCurve(ts, ys, None, day_count=f)
    a, b = V.time('a', k), V.time('b', k)
    V.eq(c.day_count(a, b), V.yf(a, b) * s, 'registered day count')
    V.eq(d.day_count(a, b), V.yf(a, b) * s, 'given day count')


@contract('C04', unbounded=True)
def fixings(V):
    m, name = V.choice('cls', [
        ('curves.curve', 'DateCurve'), ('curves.curve', 'ForwardCurve'),
        ('curves.interestratecurve', 'ZeroRateCurve'),
        ('curves.interestratecurve', 'CashRateCurve')])
    cls = getattr(V.mod(m), name)
    k, n, ts, ys = date_points(V, gt=0, ylo=.2, yhi=2)
    c = cls(ts, ys, V.interp('i') if V.symbolic else 'linear_scheme')
    hi = ts[n - 1] if name == 'ForwardCurve' else None
    x = V.time('at', k, near=ts, hi=hi)
    z = V.time('other', k, near=ts, hi=hi)
    V.assume(x != z)
    before = c(z)
    bx = c(x)
    v = V.choice('fixing', [0.0, V.real('v')])
    c.fixings[V.clone(x)] = v
    V.eq(c(V.clone(x)), v, 'fixing takes precedence')
    V.eq(c(z), before, 'other date')
    V.eq(tuple(c([x, z])), (v, before), 'list argument')
    c.fixings.clear()
    V.eq(c(x), bx, 'fixing removed')
