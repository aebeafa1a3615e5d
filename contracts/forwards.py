"""forward prices, exchange rates, volatilities: E01 - E03"""
from . import contract
from .basics import _w

CC = 'curves.curve'


def yield_of(V, k, dc, near):
    """(yield argument, spec of its discount factor over a period)"""
    y = V.yf if dc is None else dc
    how = V.choice('yield', ['none', 'default', 'float', 'curve', 'zero'])
    if how == 'none':
        return {'yield_curve': None}, lambda s, e: 1.0
    if how == 'default':
        return {}, lambda s, e: 1.0
    if how == 'zero':
        return {'yield_curve': 0.0}, lambda s, e: 1.0
    if how == 'float':
        r = V.real('yield', -.1, .2)
        return {'yield_curve': r}, lambda s, e: V.exp(-r * y(s, e))

    class Yield(object):
        f = staticmethod(V.func('df', .5, 1.5))

        def get_discount_factor(self, s, e=None):
            return self.f(s, e)
    if V.symbolic:
        q = Yield()
        f = q.f
        q.f = lambda s, e: positive(V, f(s, e))
        return {'yield_curve': q}, q.f
    I = V.mod('curves.interestratecurve')
    z = I.ZeroRateCurve([near[0]], [V.real('zero', -.1, .2)])
    return {'yield_curve': z}, z.get_discount_factor


def positive(V, x):
    V.assume(x > 0)
    return x


@contract('E01', bound=2, weight=2, unbounded=True, ubudget=4, usplit=4)
def forward_curve(V):
    C = V.mod(CC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.02)
    ps = V.reals('p', n, 1, 200, gt=0)
    dc = V.daycount()
    px, py = V.shuffle('order', ts, ps)
    org = V.time('origin', k, near=ts) if V.boolean('given') or n > 0 and \
        px[0] is not ts[0] else None
    kw, df = yield_of(V, k, dc, ts)
    ip = V.interp('i', positive=True) if V.symbolic else V.choice(
        'ip', [None, None, 'linear', 'constant', 'log_linear_scheme'])
    c = C.ForwardCurve(px, py, ip, origin=org, day_count=dc, **kw)
    V.forall(n, lambda i: V.eq(c(V.clone(ts[i])), ps[i], 'given price',
                               tol=1e-8))
    V.forall(n, lambda i: V.eq(c.get_forward_price(V.clone(ts[i])), ps[i],
                               'given price', tol=1e-8))
    last = ts[n - 1]
    x = V.time('x', k, after=last)
    V.eq(c(x), ps[n - 1] / df(last, x), 'beyond the last', tol=1e-8)
    V.eq(c.get_forward_price(x), c(x), 'forward price')
    V.eq(list(c([x, V.clone(ts[0])])), [c(x), ps[0]], 'list argument',
         tol=1e-8)
    if n > 1:
        j = V.index('seg', n - 1)
        m = V.time('m', k, after=ts[j], before=ts[j + 1])
        V.check(c(m) > 0, 'positive in between')


@contract('E01', bound=2, unbounded=True, ubudget=4, usplit=4)
def forward_curve_assignment(V):
    """also after assignments, in particular beyond the latest date"""
    C = V.mod(CC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.02)
    ps = V.reals('p', n, 1, 200, gt=0)
    kw, df = yield_of(V, k, None, ts)
    ip = V.interp('i', positive=True) if V.symbolic else None
    c = C.ForwardCurve(list(ts), list(ps), ip, **kw)
    allt, allp = list(ts), list(ps)
    for s in range(1 if V.symbolic else V.choice('steps', [1, 1, 2, 4])):
        v = V.real('v%d' % s, 1, 200, gt=0)
        if V.boolean('existing%d' % s):
            j = V.index('pos%d' % s, len(allt))
            t = V.clone(allt[j])
            allp[j] = v
        else:
            t = V.time('t%d' % s, k, near=allt, after=ts[0])
            V.assume_all(allt, lambda x: x != t)
            if not V.symbolic and k == 'num':
                V.assume(min(abs(x - t) for x in allt) > 1e-3)
            allt.append(t)
            allp.append(v)
        c[t] = v
    last, p = allt[n - 1], allp[n - 1]
    for t, v in zip(allt[n:], allp[n:]):
        if t > last:
            last, p = t, v
    V.forall(n, lambda i: V.eq(c(allt[i]), allp[i], 'price', tol=1e-8))
    V.forall(len(allt) - n, lambda i: V.eq(c(allt[n + i]), allp[n + i],
                                           'price', tol=1e-8))
    x = V.time('x', k, after=last)
    V.eq(c(x), p / df(last, x), 'beyond the last', tol=1e-8)


@contract('E01', unbounded=True)
def spot_price(V):
    C = V.mod(CC)
    k = V.kind('num', 'date', 'bd')
    org = V.time('origin', k)
    if not V.symbolic and k == 'num' and V.boolean('zero'):
        org = 0.0
    p = V.real('p', 1, 200, gt=0)
    kw, df = yield_of(V, k, None, [org])
    how = V.choice('how', ['float', 'price', 'fx', 'lists'])
    if how == 'float':
        c = C.ForwardCurve(p, origin=org, **kw)
    elif how == 'price':
        c = C.ForwardCurve(C.Price(p, org), **kw)
    elif how == 'fx':
        c = C.ForwardCurve(V.mod('curves.fx').FxRate(p, org), **kw)
    else:
        c = C.ForwardCurve([org], [p], **kw)
    V.eq(c.origin, org, 'origin')
    V.eq(c(V.clone(org)), p, 'spot', tol=1e-8)
    x = V.time('x', k, after=org)
    V.eq(c(x), p / df(org, x), 'grows at the yield', tol=1e-8)


CCY = ('USD', 'EUR', 'GBP', 'JPY', 'CHF')


def ir_curve(V, name, k, org):
    I = V.mod('curves.interestratecurve')
    if V.symbolic:
        ip = V.interp('z' + name)
        c = I.ZeroRateCurve([org], [V.real('z' + name)], ip)
        return c
    n = V.length('zn' + name, 1, 3)
    ts = V.times('zt' + name, k, n, first=org, mingap=.2)
    return I.ZeroRateCurve(ts, V.reals('z' + name, n, -.02, .1))


@contract('E02', bound=1, weight=2, unbounded=True)
def exchange_rates(V):
    F = V.mod('curves.fx')
    k = V.kind('num', 'bd') if V.symbolic else V.kind('num', 'date', 'bd')
    org = V.time('origin', k)
    base = CCY[0]
    fx = F.FxContainer(base, ir_curve(V, base, k, org))
    rates, curves = {base: V.const(1)}, {base: fx.domestic_curve}
    steps = V.choice('steps', [2, 3] if V.symbolic else [1, 2, 3, 4, 6])
    order = [1, 2, 1]
    for s in range(steps):
        i = order[s] if V.symbolic else V.choice('ccy%d' % s, range(
            1, len(CCY)))
        r = V.real('fx%d' % s, .2, 5, gt=0)
        cv = ir_curve(V, str(s), k, org)
        via = not V.symbolic and V.boolean('setitem%d' % s)
        if via:
            fx[CCY[i]] = F.FxForwardCurve([org], [r],
                                          domestic_curve=fx.domestic_curve,
                                          foreign_curve=cv)
        else:
            fx.add(CCY[i], cv, r)
        rates[CCY[i]], curves[CCY[i]] = r, cv
    names = list(rates)
    x = V.choice('when', [V.time('late', k, after=org), V.clone(org)] + (
        [] if V.symbolic else [V.time('early', k, before=org)]))
    for d in names:
        for f in names:
            if d == f:
                if d == base:
                    V.eq(fx[d, f](x), 1.0, 'identity', tol=1e-8)
                continue
            V.check((d, f) in fx, 'pair')
            c = fx[d, f]
            # units of d per unit of f at origin, via the base currency
            V.eq(c(V.clone(org)) * rates[d], rates[f],
                 'triangulation', tol=1e-7)
            V.eq(fx[d, base](org) * fx[base, f](org), c(org),
                 'product via base', tol=1e-7)
            V.eq(c(x) * fx[f, d](x), 1.0, 'reciprocal', tol=1e-7)
            V.eq(fx.get_forward_price(d, f, x), c(x), 'forward price')
            V.check(c.domestic_curve is curves[d], 'domestic curve')
            V.check(c.foreign_curve is curves[f], 'foreign curve')
            if x > org:
                V.eq(c(x) * curves[f].get_discount_factor(org, x),
                     c(org) * curves[d].get_discount_factor(org, x),
                     'ratio of discount factors', tol=1e-7)
    for d in names:
        sub = fx[d]
        want = [f for f in names if f != d or d == base]
        V.check(set(sub) == set(want), 'curves of one currency')
        V.check(all(sub[f] is fx[d, f] for f in want), 'same curves')


@contract('E02', unbounded=True)
def refuses(V):
    F = V.mod('curves.fx')
    org = V.time('origin', 'num')
    z = ir_curve(V, 'a', 'num', org)
    fx = F.FxContainer('USD', z)
    r = V.real('r', .5, 2, gt=0)
    V.raises(AssertionError, lambda: fx.add('EUR', None, r), 'curve needed')
    V.raises(AssertionError, lambda: fx.add('EUR', z, '1.0'), 'rate needed')
    V.raises(AssertionError, lambda: fx.add(1, z, r), 'currency needed')
    V.check(set(fx) == {('USD', 'USD')}, 'unchanged')


def vol_curve(V, floor=None, falling=True):
    T = V.mod('curves.volatilitycurve').TerminalVolatilityCurve
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.1)
    ys = V.reals('v', n, .05, .5, gt=0)
    dc = V.daycount()
    org = V.time('origin', k, before=ts[0]) if V.boolean('given') else None
    ip = V.interp('i', positive=True) if V.symbolic else V.choice(
        'ip', [None, 'constant', 'linear_scheme', 'log_linear_scheme'])
    V.patch(T, 'FLOOR', floor)
    c = T(ts, ys, ip, origin=org, day_count=dc)
    y = V.yf if dc is None else dc
    return c, k, ts, ys, (ts[0] if org is None else org), y


@contract('E03', bound=1, weight=2, unbounded=True)
def forward_volatility(V):
    c, k, ts, ys, org, y = vol_curve(V)
    a, b = V.time('a', k, near=ts, after=org), V.time('b', k, near=ts)
    V.assume(a < b)
    if not V.symbolic:
        V.assume(y(a, b) > 1e-2)
    va, vb = c(a) * c(a) * y(org, a), c(b) * c(b) * y(org, b)
    _w(V, 0, V.symbolic or abs(vb - va) > 1e-9)
    if vb < va:
        V.raises(ZeroDivisionError, lambda: c.get_terminal_vol(a, b),
                 'negative difference')
        return
    v = c.get_terminal_vol(a, b)
    V.check(v >= 0, 'not negative')
    V.eq(v * v * y(a, b), vb - va, 'difference of total variances', tol=1e-8)


@contract('E03', bound=1, unbounded=True)
def variance_adds_up(V):
    c, k, ts, ys, org, y = vol_curve(V)
    a = V.time('a', k, near=ts, after=org)
    b = V.time('b', k, near=ts)
    e = V.time('e', k, near=ts)
    V.assume(V.And(a < b, b < e))
    if not V.symbolic:
        V.assume(y(a, b) > 1e-2 and y(b, e) > 1e-2)
    oks, p = V.attempt(lambda: c.get_terminal_vol(a, b), ZeroDivisionError)
    okq, q = V.attempt(lambda: c.get_terminal_vol(b, e), ZeroDivisionError)
    if not oks or not okq:
        return
    r = c.get_terminal_vol(a, e)
    V.eq(p * p * y(a, b) + q * q * y(b, e), r * r * y(a, e),
         'total variance adds up', tol=1e-8)


@contract('E03', bound=1, unbounded=True)
def volatility_edges(V):
    fl = V.choice('floor', [None, V.real('fl', .01, .4, gt=0)])
    c, k, ts, ys, org, y = vol_curve(V, fl)
    x = V.time('x', k, near=ts)
    n = len(ts)
    V.forall(n, lambda i: V.eq(c.get_terminal_vol(V.clone(ts[i])), ys[i],
                               'stored volatility'))
    V.forall(n, lambda i: V.eq(c.get_terminal_vol(V.clone(org), ts[i]), ys[i],
                               'from origin'))
    V.eq(c.get_terminal_vol(x), c(x), 'curve value')
    V.eq(c.get_terminal_vol(org, x), c(x), 'from origin')
    V.eq(c.get_terminal_vol(V.clone(c.origin), x), c(x),
         'from a date equal to origin')
    a, b = V.time('a', k, near=ts), V.time('b', k, near=ts)
    V.assume(V.And(a > b, a != org))
    V.eq(c.get_terminal_vol(a, b), 0.0, 'reversed')


@contract('E03', bound=1, unbounded=True)
def floored_volatility(V):
    fl = V.real('fl', .01, .4, gt=0)
    c, k, ts, ys, org, y = vol_curve(V, fl)
    a, b = V.time('a', k, near=ts, after=org), V.time('b', k, near=ts)
    V.assume(a < b)
    if not V.symbolic:
        V.assume(y(a, b) > 1e-2)
    va, vb = c(a) * c(a) * y(org, a), c(b) * c(b) * y(org, b)
    v = c.get_terminal_vol(a, b)
    _w(V, 0, V.symbolic or abs((vb - va) - fl * fl * y(a, b)) > 1e-9)
    if vb - va < fl * fl * y(a, b):
        V.eq(v, fl, 'floor', tol=1e-8)
    else:
        V.eq(v * v * y(a, b), vb - va, 'volatility', tol=1e-8)
        V.check(v >= 0, 'not negative')
