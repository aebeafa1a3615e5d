"""interest rate curves: D01 - D05, D07 (rates)"""
from . import contract
from .basics import _w

IRC = 'curves.interestratecurve'
CRC = 'curves.creditcurve'

FACTOR = [(IRC, 'DiscountFactorCurve', 'get_discount_factor',
           'get_zero_rate'),
          (IRC, 'ZeroRateCurve', 'get_discount_factor', 'get_zero_rate'),
          (CRC, 'SurvivalProbabilityCurve', 'get_survival_prob',
           'get_flat_intensity'),
          (CRC, 'DefaultProbabilityCurve', 'get_survival_prob',
           'get_flat_intensity'),
          (CRC, 'FlatIntensityCurve', 'get_survival_prob',
           'get_flat_intensity')]
STORES_FACTOR = ('DiscountFactorCurve', 'SurvivalProbabilityCurve',
                 'DefaultProbabilityCurve')


def interpolation(V, name, is_factor):
    """an arbitrary interpolation (proof), one of the shipped (evaluation)"""
    if V.symbolic:
        return V.interp('i' + name, positive=is_factor)
    if is_factor:
        return V.choice('ip' + name, [None, None, 'log_linear_rate_scheme',
                                      'log_linear_scheme', 'linear_scheme'])
    return V.choice('ip' + name, [None, None, 'linear', 'constant',
                                  'linear_scheme', 'nearest'])


def factor_data(V, name, ts, org, lo=.02, hi=.12, dc=None):
    """plausible factors: falling with time, one at origin (evaluation)"""
    n = len(ts)
    if V.symbolic:
        return V.reals('y', n, gt=1e-300, lt=1 - 1e-9)
    out = []
    for t in ts:
        r = V.real('r', lo, hi)
        yf = V.yf(org, t)
        out.append(V.exp(-r * yf) if yf >= 0 else V.exp(-r * yf))
    return out


def a_curve(V, cls_opts, kinds=('num', 'date', 'bd'), name='', minlen=1,
            origin=None, values=None, after_origin=False):
    """a rate curve with arbitrary points and origin"""
    m, cname, fac, zr = V.choice('cls' + name, cls_opts)
    cls = getattr(V.mod(m), cname)
    k = V.kind(*kinds)
    is_f = cname in STORES_FACTOR
    n = V.length('n' + name, minlen)
    ip = interpolation(V, name, is_f)
    mode = V.choice('originmode' + name, ['first', 'given'])
    if mode == 'given':
        org = V.time('origin', k)
        if after_origin or (is_f and not V.symbolic):
            ts = V.times('d' + name, k, n + 1, first=org, mingap=.02)[1:]
        else:
            ts = V.times('d' + name, k, n, mingap=.02)
    else:
        ts = V.times('d' + name, k, n, mingap=.02)
        org = ts[0]
    dc = V.daycount('dc' + name)
    if is_f:
        ys = factor_data(V, name, ts, org)
        if mode == 'first' and not V.symbolic:
            ys[0] = 1.0
        if cname == 'DefaultProbabilityCurve':
            data = [1.0 - y for y in ys]
        else:
            data = ys
        if not V.symbolic:
            if cname != 'DiscountFactorCurve':
                V.assume(all(1e-9 < y <= 1 for y in ys))
                ys = [1. - (1. - y) for y in ys]
            # logarithm over time zero: no rate
            V.assume(mode != 'first' or n > 1)
    else:
        ys = V.reals('y', n, -.02, .2)
        data = ys
    c = cls(ts, data, ip, origin=org if mode == 'given' else None,
            day_count=dc)
    # the origin as the curve sees it, not always the same object
    if not V.symbolic and V.boolean('other origin object' + name):
        org = V.clone(org)
    if is_f:
        if V.symbolic:
            V.assume(c(c.origin) == 1)
        else:
            V.assume(abs(c(c.origin) - 1) < 1e-12)
    return c, cname, fac, zr, k, ts, ys, org, dc


def yf(V, dc):
    return V.yf if dc is None else dc


def ok_all(V, c, cname, ts):
    if V.symbolic and cname in STORES_FACTOR:
        V.assume_all(ts, lambda t: c(t) > 1e-300)
    elif not V.symbolic:
        ok(V, c, cname, *ts)


def ok(V, c, cname, *ts):
    """stored factors vanish nowhere (dates in use); no overflow"""
    if not V.symbolic and cname not in STORES_FACTOR:
        V.assume(all(abs(c(t) * V.yf(c.origin, t)) < 25 for t in ts))
    if cname in STORES_FACTOR:
        for t in ts:
            if V.symbolic:
                V.assume(c(t) > 1e-300)
            else:
                V.assume(1e-12 < c(t) < 1e6)


@contract('D01', bound=1, weight=3, split=5, budget=2,
          unbounded=True, ubudget=5, usplit=4)
def chain(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, FACTOR)
    f = getattr(c, fac)
    near = list(ts) + [org]
    # (an arbitrary date may be equal or identical to the origin)
    pick = 'any' if V.symbolic else V.choice(
        'shape', ['any', 'origin first', 'origin mid', 'origin last',
                  'equal ends'])
    a = V.time('a', k, near=near)
    b = V.time('b', k, near=near)
    e = V.time('c', k, near=near)
    if pick == 'origin first':
        a = V.choice('which', [org, c.origin])
    elif pick == 'origin mid':
        b = V.choice('which', [org, c.origin])
    elif pick == 'origin last':
        e = V.choice('which', [org, c.origin])
    elif pick == 'equal ends':
        e = V.clone(a)
    ok(V, c, cname, a, b, e)
    V.eq(f(a, a), 1.0, 'no period')
    V.eq(f(a, V.clone(a)), 1.0, 'no period (equal dates)')
    V.eq(f(a, b) * f(b, e), f(a, e), 'chain', tol=1e-8)


@contract('D01', bound=1, unbounded=True)
def origin_default(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, FACTOR)
    f = getattr(c, fac)
    x = V.time('x', k, near=list(ts) + [org])
    if not V.symbolic:
        x = V.choice('at', [x, org, c.origin, ts[0]])
    ok(V, c, cname, x)
    V.eq(f(x), f(c.origin, x), 'from origin')
    V.eq(f(x), f(org, x), 'from a date equal to origin', tol=1e-8)
    V.eq(f(c.origin), 1.0, 'origin')
    V.eq(f(org), 1.0, 'equal to origin')
    V.eq(f(x) * f(x, org), 1.0, 'there and back', tol=1e-8)


@contract('D01', bound=1, unbounded=True, ubudget=1)
def stored_factor(V):
    """factors from origin are those of the stored values"""
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, FACTOR)
    f = getattr(c, fac)
    y = yf(V, dc)

    def one(i):
        t = ts[i]
        want = ys[i] if cname in STORES_FACTOR else \
            V.exp(-ys[i] * y(org, t))
        if V.symbolic and cname in STORES_FACTOR:
            V.assume(V.Or(t != org, ys[i] == 1))
        V.eq(f(t), want, 'factor at curve point', tol=1e-8)
    V.forall(len(ts), one)
    x = V.time('x', k, near=list(ts) + [org])
    ok(V, c, cname, x)
    if cname in STORES_FACTOR:
        V.eq(f(x), c(x), 'interpolated factor', tol=1e-8)
    else:
        V.eq(f(x), V.exp(-c(x) * y(org, x)), 'interpolated rate', tol=1e-8)


IR2 = FACTOR[:2]


def rate_relations(V, c, a, b, y, tol=1e-8):
    df = c.get_discount_factor(a, b)
    z = c.get_zero_rate(a, b)
    r = c.get_cash_rate(a, b)
    t = y(a, b)
    V.eq(df, V.exp(-z * t), 'factor and zero rate', tol=tol)
    V.eq(df * (1 + r * t), 1.0, 'factor and cash rate', tol=tol)


@contract('D02', bound=1, weight=2, split=2, unbounded=True)
def relations(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, IR2)
    y = yf(V, dc)
    near = list(ts) + [org]
    a, b = V.time('a', k, near=near), V.time('b', k, near=near)
    if not V.symbolic:
        a = V.choice('start', [a, org, c.origin, ts[0]])
        b = V.choice('stop', [b, org])
    V.assume(a != b)
    ok(V, c, cname, a, b)
    _w(V, 0, V.symbolic or abs(y(a, b)) > 1e-2)
    _w(V, 0, V.symbolic or 1e-6 < c.get_discount_factor(a, b) < 1e6)
    rate_relations(V, c, a, b, y)
    if b != org:
        V.eq(c.get_zero_rate(b), c.get_zero_rate(c.origin, b),
             'zero rate from origin')


def schedule_curve(V, cls, bounded_days=3, positive=False, kinds=('bd',),
                   lo=-.02, hi=.2, tenor=None, minlen=1, gt=None, ip=None):
    """curve over business dates storing short / cash / hazard rates"""
    k = V.kind(*kinds)
    n = V.length('n', minlen)
    ts = V.times('d', k, n, mingap=.01)
    ys = V.reals('y', n, lo, hi, gt=gt)
    dc = V.daycount()
    org = V.time('origin', k, near=list(ts)) if V.boolean('given') else None
    kw = {} if tenor is None else {'forward_tenor': tenor}
    if ip is None:
        ip = V.interp('i', positive=positive) if V.symbolic else V.choice(
            'ip', [None, None, 'linear_scheme', 'constant', 'right'])
    c = cls(ts, ys, ip, origin=org, day_count=dc, **kw)
    return c, k, ts, ys, (ts[0] if org is None else org), dc


def days_later(V, name, a, far=40):
    """a later business date"""
    if V.symbolic:
        d = V.integer(name)
        return V.days(a, d) if d != 0 else V.clone(a), d
    d = V.choice(name + '?', [V.integer(name, 0, 3),
                              V.integer(name + 'far', 0, far),
                              V.integer(name + 'far', 0, 10 * far)])
    return a + ('%dD' % d), d


@contract('D02', bound=2, unbounded=True, ubudget=2)
def relations_short_rate(V):
    I = V.mod(IRC)
    c, k, ts, ys, org, dc = schedule_curve(V, I.ShortRateCurve)
    y = yf(V, dc)
    a = V.choice('start', [V.time('a', k, near=list(ts)), org])
    b, d = days_later(V, 'days', a)
    if d == 0:
        V.eq(c.get_discount_factor(a, b), 1.0, 'no period')
        V.eq(c.get_zero_rate(a, b), c(a), 'no period: short rate')
        return
    rate_relations(V, c, a, b, y)
    # a reversed period keeps the relations
    if V.boolean('reversed'):
        df, z = c.get_discount_factor(b, a), c.get_zero_rate(b, a)
        V.eq(df, V.exp(-z * y(b, a)), 'reversed', tol=1e-8)


@contract('D02', bound=2, unbounded=True, ubudget=3)
def relations_cash_rate(V):
    I = V.mod(IRC)
    tenor = V.choice('tenor', ['1M', '3M', '1D', '6M', '1Y'])
    c, k, ts, ys, org, dc = schedule_curve(
        V, I.CashRateCurve, tenor=tenor, gt=0, lo=.001, positive=True)
    y = yf(V, dc)
    a = V.choice('start', [V.time('a', k, near=list(ts)), org])
    if V.symbolic:
        b = a
        for _ in range(V.choice('periods', range(3))):
            b = b + tenor
        if V.boolean('odd'):
            x = V.time('b', k, after=b)
            V.assume(x < b + tenor)
            b = x
    else:
        b, d = days_later(V, 'days', a, 200)
    V.assume(a < b)
    z = c.get_zero_rate(a, b)
    df = c.get_discount_factor(a, b)
    V.eq(df, V.exp(-z * y(a, b)), 'factor and zero rate', tol=1e-8)
    V.eq(df * (1 + c.get_cash_rate(a, b) * y(a, b)), 1.0,
         'factor and cash rate', tol=1e-8)


@contract('D02', bound=1, unbounded=True)
def relations_cash_rate_numbers(V):
    I = V.mod(IRC)
    k = 'num'
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.01)
    ys = V.reals('y', n, .001, .2, gt=0)
    tenor = V.real('tenor', .1, 1, gt=0)
    dc = V.daycount()
    c = I.CashRateCurve(ts, ys, V.interp('i', positive=True) if V.symbolic
                        else V.choice('ip', [None, 'linear_scheme']),
                        day_count=dc, forward_tenor=tenor)
    y = yf(V, dc)
    a = V.time('a', k, near=ts)
    m = V.choice('periods', range(3 if V.symbolic else 12))
    b = a + tenor * m + V.real('rest', 0.01, 1, gt=0)
    if not V.symbolic:
        V.assume(c(a) > 1e-3 and all(c(a + tenor * i) > 1e-3
                                     for i in range(m + 2)))
    else:
        V.assume(b <= a + tenor * (m + 1))
    z = c.get_zero_rate(a, b)
    df = c.get_discount_factor(a, b)
    V.eq(df, V.exp(-z * y(a, b)), 'factor and zero rate', tol=1e-8)
    V.eq(df * (1 + c.get_cash_rate(a, b) * y(a, b)), 1.0,
         'factor and cash rate', tol=1e-8)
    V.eq(c.get_cash_rate(a), c(a), 'stored rate')


@contract('D02', bound=1, split=3, budget=2, unbounded=True, ubudget=3)
def cash_rate_end(V):
    """omitted end: start plus step, else forward tenor"""
    I = V.mod(IRC)
    cls, gt = V.choice('cls', [(I.DiscountFactorCurve, 0),
                               (I.ZeroRateCurve, None),
                               (I.CashRateCurve, 0)])
    k = V.kind('num', 'bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.05)
    ys = V.reals('y', n, .2, 1., gt=gt)
    ip = V.interp('i', positive=gt is not None) if V.symbolic else \
        V.choice('ip', ['linear_scheme', 'constant'])
    if k == 'num':
        tenor = V.choice('tenor', [None, V.real('ten', .25, 1, gt=0)])
        step = V.real('step', .25, 2, nonzero=True)
    else:
        tenor = V.choice('tenor', [None, '1M', '6M', '1Y'])
        step = V.choice('step', ['1D', '1M', '3M', '1Y'])
    c = cls(ts, ys, ip, forward_tenor=tenor)
    a = V.time('a', k, near=list(ts))
    if V.symbolic and cls is I.DiscountFactorCurve:
        V.assume(c(c.origin) == 1)
    elif cls is I.DiscountFactorCurve:
        V.assume(a != c.origin)
    if tenor is None:
        V.assume(k == 'bd')
    eff = '3M' if tenor is None else tenor
    V.check(c.forward_tenor == eff, 'forward tenor')
    if not V.symbolic and cls is I.DiscountFactorCurve:
        V.assume(min(c(a), c(a + eff), c(a + step)) > 1e-3)
    if V.symbolic and cls is I.CashRateCurve:
        # the case distinction of stored and derived rates
        if k == 'num':
            V.assume(step > 0)
            V.assume(step <= eff)
        else:
            V.assume(a + step <= a + eff)
    if k == 'num':
        V.assume(step > 0)
    if not V.symbolic and cls is I.CashRateCurve and k == 'num':
        V.assume(abs(step - eff) > 1e-9)
    what = V.choice('what', ['tenor', 'step', 'contradiction'])
    if what == 'tenor':
        V.eq(c.get_cash_rate(a), c.get_cash_rate(a, a + eff), 'forward tenor')
        return
    if what == 'step':
        V.eq(c.get_cash_rate(a, step=step), c.get_cash_rate(a, a + step),
             'step')
        return
    V.eq(c.get_cash_rate(a, a + step, step), c.get_cash_rate(a, a + step),
         'end and step agree')
    x = V.time('x', k, near=[a, a + step])
    V.assume(V.And(x != a + step, x != a))
    V.raises(AssertionError, lambda: c.get_cash_rate(a, x, step),
             'end and step contradict')


@contract('D02', bound=1, unbounded=True)
def cash_rate_end_zero(V):
    """an end or step of zero is given, not omitted"""
    I = V.mod(IRC)
    cls = V.choice('cls', [I.ZeroRateCurve, I.DiscountFactorCurve,
                           I.CashRateCurve])
    n = V.length('n', 1)
    ts = V.times('d', 'num', n, mingap=.05)
    ys = V.reals('y', n, .2, 1., gt=0)
    ip = V.interp('i', positive=True) if V.symbolic else 'constant'
    tenor = V.real('ten', .25, 1, gt=0)
    c = cls(ts, ys, ip, forward_tenor=tenor)
    a = V.time('a', 'num', near=[0.0], before=0.0)
    _w(V, 0, V.symbolic or a < -1e-2)
    V.assume(V.Or(cls is not I.CashRateCurve, a + tenor > 0))
    z = V.time('z', 'num', near=[0.0])
    V.assume(z != 0)
    _w(V, 0, V.symbolic or abs(z) > 1e-3)
    if cls is I.DiscountFactorCurve:
        if V.symbolic:
            V.assume(c(c.origin) == 1)
        else:
            V.assume(c.origin not in (a, 0.0, z))
    elif not V.symbolic and cls is I.ZeroRateCurve:
        V.assume(max(abs(c.origin - a), abs(c.origin - z)) < 10)
    df = c.get_discount_factor(a, 0.0)
    V.eq(df * (1 + c.get_cash_rate(a, 0.0) * (0.0 - a)), 1.0, 'end zero',
         tol=1e-8)
    s = V.real('s', .25, 2, gt=0)
    V.assume(a + s != 0)
    _w(V, 0, V.symbolic or abs(a + s) > 1e-6)
    V.raises(AssertionError, lambda: c.get_cash_rate(a, 0.0, s),
             'end of zero contradicts')
    b = V.time('b', 'num', after=a)
    V.raises(AssertionError, lambda: c.get_cash_rate(a, b, 0.0),
             'step of zero contradicts')
    if cls is not I.CashRateCurve:
        V.eq(c.get_discount_factor(z, 0.0),
             V.exp(-c.get_zero_rate(z, 0.0) * (0.0 - z)), 'period to zero',
             tol=1e-8)
        V.eq(c.get_discount_factor(z, 0.0) * c.get_discount_factor(0.0, z),
             1.0, 'period to zero and back', tol=1e-8)


@contract('D02', bound=2, unbounded=True, ubudget=1)
def stored_quantity(V):
    I = V.mod(IRC)
    what = V.choice('what', ['df', 'zero', 'short', 'cash'])
    cls = {'df': I.DiscountFactorCurve, 'zero': I.ZeroRateCurve,
           'short': I.ShortRateCurve, 'cash': I.CashRateCurve}[what]
    k = V.kind('num', 'date', 'bd') if what in ('df', 'zero', 'short') else \
        V.kind('bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.02)
    dc = V.daycount()
    y = yf(V, dc)
    org = V.time('origin', k, near=ts, before=ts[0]) if V.boolean('given') \
        else None
    o = ts[0] if org is None else org
    if what == 'df':
        ys = [V.exp(-V.real('r', .01, .1) * V.yf(o, t)) for t in ts] if not \
            V.symbolic else V.reals('y', n, gt=0)
        V.assume(org is not None or n > 1 or V.symbolic)
        if org is None:
            ys[0] = V.const(1)
    else:
        ys = V.reals('y', n, .001, .2)
    c = cls(ts, ys, interpolation(V, '', what == 'df'), origin=org,
            day_count=dc)
    if what == 'df' and V.symbolic:
        V.assume(c(c.origin) == 1)

    def one(i):
        t = V.clone(ts[i])
        if what == 'df':
            V.eq(c.get_discount_factor(t), ys[i], 'discount factor',
                 tol=1e-8)
            V.eq(c.get_discount_factor(c.origin, t), ys[i],
                 'discount factor from origin', tol=1e-8)
        elif what == 'zero':
            V.eq(c.get_zero_rate(t), ys[i], 'zero rate')
            V.eq(c.get_zero_rate(c.origin, t), ys[i], 'zero rate from origin')
            V.eq(c.get_zero_rate(V.clone(c.origin), t), ys[i],
                 'zero rate from a date equal to origin', tol=1e-7)
        elif what == 'short':
            V.eq(c.get_short_rate(t), ys[i], 'short rate')
        else:
            V.eq(c.get_cash_rate(t), ys[i], 'cash rate')
            V.eq(c.get_cash_rate(t, t + c.forward_tenor), ys[i],
                 'cash rate with end')
            V.eq(c.get_cash_rate(t, step=c.forward_tenor), ys[i],
                 'cash rate with step')
    V.forall(n, one)


@contract('D03', bound=2, unbounded=True, ubudget=2)
def annuity(V):
    I = V.mod(IRC)
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, IR2)
    y = yf(V, dc)
    m = V.length('m', 1)
    sched = V.times('s', k, m, mingap=.02)
    if not V.symbolic and V.boolean('from origin'):
        sched = V.times('so', k, m, first=org, mingap=.02)
    ok_all(V, c, cname, sched)
    if cname != 'ZeroRateCurve' and not V.symbolic:
        ok(V, c, cname, org)
    want = V.sum(m - 1, lambda i: c.get_discount_factor(
        c.origin, sched[i + 1]) * y(sched[i], sched[i + 1]))
    V.eq(c.get_swap_annuity(sched), want, 'annuity', tol=1e-8)
    V.eq(c.get_swap_annuity(tuple(sched)), want, 'annuity of tuple', tol=1e-8)
    if cname == 'ZeroRateCurve':
        v = V.sum(m - 1, lambda i: V.exp(-c(sched[i + 1]) * y(
            org, sched[i + 1])) * y(sched[i], sched[i + 1]))
    else:
        v = V.sum(m - 1, lambda i: c(sched[i + 1]) * y(
            sched[i], sched[i + 1]))
    V.eq(c.get_swap_annuity(sched), v, 'annuity by stored values', tol=1e-7)


@contract('D03', bound=2, unbounded=True, ubudget=3, usplit=6)
def piecewise_short_rate(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, IR2, minlen=2)
    n = len(ts)
    ok_all(V, c, cname, ts)
    j = V.index('seg', n - 1)
    x = V.choice('at', [V.time('x', k, after=ts[j], before=ts[j + 1]),
                        V.clone(ts[j])])
    V.assume(x < ts[j + 1])
    # proofs: one claim at a time
    claim = V.choice('claim', [0, 1, 2]) if V.symbolic else None
    if claim in (None, 0):
        V.eq(c.get_short_rate(x), c.get_zero_rate(ts[j], ts[j + 1]),
             'zero rate between neighbours', tol=1e-8)
    y = yf(V, dc)
    if not V.symbolic or claim == 1 and cname == 'ZeroRateCurve':
        a = V.log(c.get_discount_factor(org, ts[j])) \
            if not V.symbolic else -c(ts[j]) * y(org, ts[j])
        b = V.log(c.get_discount_factor(org, ts[j + 1])) \
            if not V.symbolic else -c(ts[j + 1]) * y(org, ts[j + 1])
        V.eq(c.get_short_rate(x) * y(ts[j], ts[j + 1]), a - b,
             'rate of the segment', tol=1e-7)
    if claim in (None, 2):
        z = V.time('z', k, before=ts[0])
        V.eq(c.get_short_rate(z), c.get_short_rate(ts[0]), 'before the first')


@contract('D03', bound=2, unbounded=True, ubudget=3)
def unordered_short_rate(V):
    """whatever the order of the points"""
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 2)
    ts = V.times('d', k, n, mingap=.02)
    ys = V.reals('y', n, -.02, .2)
    px, py = V.shuffle('order', ts, ys)
    org = V.time('origin', k, near=ts)
    c = I.ZeroRateCurve(px, py, interpolation(V, '', False), origin=org)
    j = V.index('seg', n - 1)
    x = V.time('x', k, after=ts[j], before=ts[j + 1])
    V.eq(c.get_short_rate(x) * V.yf(ts[j], ts[j + 1]),
         ys[j + 1] * V.yf(org, ts[j + 1]) - ys[j] * V.yf(org, ts[j]),
         'zero rate between neighbours', tol=1e-8)


FAMS = ([FACTOR[0], FACTOR[1]], [FACTOR[2], FACTOR[3], FACTOR[4]])


@contract('D04', bound=1, weight=2, unbounded=True, ubudget=3, usplit=2)
def cast_grid(V):
    """onto a given grid"""
    fam = V.choice('family', FAMS)
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, fam, minlen=1)
    m, tname, tfac, _ = V.choice('target', fam)
    n = V.length('grid', 1)
    V.assume(ts[len(ts) - 1] > org)
    if V.symbolic:
        grid = V.times('g', k, n)
        V.assume_all(grid, lambda t: t > org)
        ok_all(V, c, cname, grid)
    else:
        grid = V.times('g', k, n + 1, first=org, mingap=.05)[1:]
        if V.boolean('use points'):
            grid = sorted(set([t for t in ts if t > org] + list(grid[:2])))
        V.assume(all(abs(V.yf(a, b)) > 1e-3
                     for a, b in zip(grid, grid[1:])))
        ok_all(V, c, cname, grid)
    snap = [c(t) for t in ts]
    ip = None
    if V.symbolic:
        ip = V.interp('it', positive=tname in STORES_FACTOR)
    T = getattr(V.mod(m), tname)
    ftenor = V.choice('tenor', [None, '1M'])
    n2 = T(list(grid), c, ip, forward_tenor=ftenor)
    V.eq(n2.origin, c.origin, 'origin')
    V.check(n2._day_count is c._day_count, 'day count')
    V.eq(list(n2.domain), list(grid), 'grid')
    f, g = getattr(c, fac), getattr(n2, tfac)

    def one(t):
        V.eq(g(t), f(t), 'factor at grid point', tol=1e-7)
        V.eq(g(c.origin, t), f(c.origin, t), 'factor from origin', tol=1e-7)
    V.each(grid, one)
    V.eq([c(t) for t in ts], snap, 'original unchanged')
    V.eq(list(c.domain), list(ts), 'original points unchanged')


@contract('D04', bound=1, unbounded=True, ubudget=4, usplit=2)
def cast_curve(V):
    """casting over business dates keeps the factors at all points"""
    fam = V.choice('family', FAMS)
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, fam, kinds=('bd',))
    m, tname, tfac, _ = V.choice('target', fam)
    if not V.symbolic:
        V.assume(ts[0] >= c.origin)
        V.assume(max(ts) > c.origin)
    else:
        V.assume(ts[0] > c.origin)
    ok_all(V, c, cname, ts)
    if not V.symbolic:
        ok(V, c, cname, ts[-1] + '1y' + '1d')
    snap = [c(t) for t in ts]
    T = getattr(V.mod(m), tname)
    ip = V.interp('it', positive=tname in STORES_FACTOR) if V.symbolic \
        else None
    if V.symbolic:
        for t in (c.origin + '1d', ts[len(ts) - 1] + '1d',
                  ts[len(ts) - 1] + '1y'):
            ok(V, c, cname, t)
        t = ts[len(ts) - 1] + '1y' + '1y'
        ok(V, c, cname, t)
    n2 = T(c, interpolation=ip)
    V.eq(n2.origin, c.origin, 'origin')
    V.check(n2._day_count is c._day_count, 'day count')
    f, g = getattr(c, fac), getattr(n2, tfac)

    def one(t):
        if V.symbolic:
            V.assume(g(c.origin) == 1)
        V.eq(g(t), f(t), 'factor at curve point', tol=1e-7)
        V.check(t in n2.domain, 'point kept')
    V.each(ts, one)
    V.eq([c(t) for t in ts], snap, 'original unchanged')
    V.eq(list(c.domain), list(ts), 'original points unchanged')


@contract('D04', unbounded=True)
def cast_refuses_data(V):
    fam = V.choice('family', FAMS)
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, fam, kinds=('bd',))
    m, tname, tfac, _ = V.choice('target', fam)
    V.raises(TypeError, lambda: getattr(V.mod(m), tname)(c, [1.0]),
             'data beside a curve')


SPREAD = FACTOR[:2] + [FACTOR[2], FACTOR[4],
                       (IRC, 'ShortRateCurve', 'get_discount_factor',
                        'get_zero_rate'),
                       (IRC, 'CashRateCurve', 'get_discount_factor',
                        'get_zero_rate'),
                       (CRC, 'HazardRateCurve', 'get_survival_prob',
                        'get_flat_intensity')]


@contract('D05', bound=1, weight=2, split=7, budget=2,
          unbounded=True, ubudget=2)
def spread(V):
    C = V.mod('curves.curve')
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, SPREAD)
    sp = a_spread(V, k, ts)
    near = list(ts) + [org]
    x = V.time('x', k, near=near)
    if not V.symbolic:
        x = V.choice('at', [x, V.clone(org), ts[0]])
    z = V.time('z', k, near=near)
    vx, vz = c(x), c(z)
    V.check(c.spread is None, 'no spread')
    snap = [c(t) for t in ts]
    c.spread = sp
    V.check(c.spread is sp, 'spread')
    wx, wz = vx + sp(x), vz + sp(z)
    V.eq(c(x), wx, 'value plus spread')
    V.eq(tuple(c([x, z])), (wx, wz), 'list argument')
    V.raises(TypeError, lambda: setattr(c, 'spread', sp), 'second spread')
    V.raises(TypeError, lambda: setattr(c, 'spread', C.DateCurve([ts[0]],
                                                                 [.5])),
             'other second spread')
    V.eq(c(x), wx, 'value plus spread, after refusal')
    derived(V, c, cname, fac, zr, x, z, wx, wz, org, dc)
    V.eq(c(z), wz, 'reading does not change')
    c.spread = None
    V.check(c.spread is None, 'removed')
    V.eq((c(x), c(z)), (vx, vz), 'restored')
    V.eq([c(t) for t in ts], snap, 'points restored')
    V.eq(list(c.domain), list(ts), 'points')
    derived(V, c, cname, fac, zr, x, z, vx, vz, org, dc)
    c.spread = sp
    V.eq(c(x), wx, 'attached again')


def a_spread(V, k, ts):
    C = V.mod('curves.curve')
    how = 'function' if V.symbolic else V.choice(
        'spread', ['function', 'curve', 'rate curve'])
    if how == 'function':
        return V.func('spread', -.01, .02)
    v = V.real('sv', -.01, .02)
    if how == 'curve':
        return C.DateCurve([ts[0]], [v])
    return V.mod(IRC).ZeroRateCurve([ts[0]], [v])


def derived(V, c, cname, fac, zr, x, z, wx, wz, org, dc):
    """rates derived from the curve use these values"""
    y = yf(V, dc)
    f, r = getattr(c, fac), getattr(c, zr)
    if cname in STORES_FACTOR:
        V.assume(V.And(wx > 1e-3, wz > 1e-3))
        if x != z and x != org:
            V.eq(f(x, z), wz / wx, 'factor', tol=1e-8)
            _w(V, 0, V.symbolic or abs(y(x, z)) > 1e-3)
            V.eq(V.exp(-r(x, z) * y(x, z)), wz / wx, 'rate', tol=1e-8)
    elif cname in ('ZeroRateCurve', 'FlatIntensityCurve'):
        V.eq(r(org), r(c.origin, org), 'origin', tol=1e-8)
        if x != org:
            V.eq(f(c.origin, x), V.exp(-wx * y(org, x)), 'factor', tol=1e-8)
            V.eq(r(x), wx, 'rate', tol=1e-7)
        if x != z and x != org:
            _w(V, 0, V.symbolic or abs(y(x, z)) > 1e-3)
            V.eq(r(x, z) * y(x, z), wz * y(org, z) - wx * y(org, x),
                 'forward rate', tol=1e-8)
    elif cname == 'ShortRateCurve':
        V.eq(c.get_short_rate(x), wx, 'short rate')
        V.eq(c.get_zero_rate(x, V.clone(x)), wx, 'zero rate')
    elif cname == 'HazardRateCurve':
        V.eq(c.get_hazard_rate(x), wx, 'hazard rate')
    elif cname == 'CashRateCurve' and hasattr(x, 'diff_in_days'):
        V.eq(c.get_cash_rate(x), wx, 'cash rate')


@contract('D05', bound=1, unbounded=True, ubudget=3)
def reading(V):
    """reading never changes the curve"""
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, FACTOR)
    near = list(ts) + [org]
    x, z = V.time('x', k, near=near), V.time('z', k, near=near)
    ok(V, c, cname, x, z)
    V.assume(x != z)
    if not V.symbolic:
        V.assume(abs(V.yf(x, z)) > 1e-3)
    snap = (c(x), c(z), [c(t) for t in ts])
    keep = dict(c.__dict__)
    getattr(c, fac)(x, z), getattr(c, zr)(x, z), getattr(c, fac)(x)
    c.kwargs, c.forward_tenor, c.spread, c.domain, c.origin
    if hasattr(c, 'get_cash_rate'):
        c.get_cash_rate(x, z)
        c.get_swap_annuity([x, z])
    V.eq((c(x), c(z), [c(t) for t in ts]), snap, 'values')
    V.check(set(keep) == set(c.__dict__), 'attributes')
    V.check(V.And(*[keep[a] is c.__dict__[a] or keep[a] == c.__dict__[a]
                    for a in keep]), 'state')


@contract('D07', bound=3, ticks=8, unbounded=True, ubudget=2)
def daily(V):
    """sum of daily rates"""
    m, name, zr, sr, fac = V.choice('cls', [
        (IRC, 'ShortRateCurve', 'get_zero_rate', 'get_short_rate',
         'get_discount_factor'),
        (CRC, 'HazardRateCurve', 'get_flat_intensity', 'get_hazard_rate',
         'get_survival_prob')])
    c, k, ts, ys, org, dc = schedule_curve(V, getattr(V.mod(m), name))
    y = yf(V, dc)
    a = V.choice('start', [V.time('a', k, near=list(ts)), org, ts[0]])
    b, d = days_later(V, 'days', a)
    r = getattr(c, zr)
    V.eq(getattr(c, sr)(a), c(a), 'curve value')
    if d == 0:
        V.eq(r(a, b), c(a), 'coinciding dates')
        V.eq(getattr(c, fac)(a, b), 1.0, 'coinciding dates')
        return
    want = V.sum(d, lambda i: c(V.days(a, i)) * y(
        V.days(a, i), V.days(a, i + 1)))
    V.eq(r(a, b) * y(a, b), want, 'sum of daily rates', tol=1e-8)
    V.eq(getattr(c, fac)(a, b), V.exp(-want), 'factor', tol=1e-8)


@contract('D07', bound=2, ticks=10, unbounded=True, ubudget=4, usplit=4)
def daily_chain(V):
    m, name, fac = V.choice('cls', [
        (IRC, 'ShortRateCurve', 'get_discount_factor'),
        (CRC, 'HazardRateCurve', 'get_survival_prob')])
    c, k, ts, ys, org, dc = schedule_curve(V, getattr(V.mod(m), name))
    f = getattr(c, fac)
    if V.boolean('origin'):
        b, d = days_later(V, 'days3', org)
        V.eq(f(b), f(org, b), 'from origin', tol=1e-8)
        if V.symbolic:
            return
    a = V.choice('start', [V.time('a', k, near=list(ts)), org])
    b, d = days_later(V, 'days', a)
    e, d2 = days_later(V, 'days2', b)
    V.eq(f(a, b) * f(b, e), f(a, e), 'chain', tol=1e-8)
