"""valuation of cashflow lists (J01 - J07)"""
from . import contract
from .basics import _w
from .flows import stub_model, offset, back

PR = 'pricer'
CF = 'cashflows.cashflow'
CT = 'cashflows.contingent'
CU = 'curves.curve'
IRC = 'curves.interestratecurve'


class Discounting(object):
    """a discount curve known by its contract only: an arbitrary function"""

    def __init__(self, V, origin=None, lo=.5, hi=1.1):
        self.origin = origin
        self.df = V.func('df', lo, hi)

    def get_discount_factor(self, start, stop=None):
        if stop is None:
            return self.df(self.origin, start)
        return self.df(start, stop)


def days(V, n):
    if V.symbolic:
        from vc.engine import SDelta, SInt
        return SDelta(SInt(n))
    import datetime
    return datetime.timedelta(n)


def a_list(V, k, n, name='', lo=-1e5, hi=1e5, gt=None):
    """some cashflow list of n dates: (list, dates, amounts)"""
    M = V.mod(CF)
    ds = V.times('d' + name, k, n, mingap=.02)
    am = V.reals('a' + name, n, lo, hi, gt=gt)
    px, py = V.shuffle('order' + name, ds, am)
    cls = V.choice('class' + name, ['CashFlowList', 'FixedCashFlowList'])
    return getattr(M, cls)(list(px), list(py)), ds, am


# ---------------------------------------------------------------- J01

@contract('J01', bound=3, split=3, unbounded=True)
def any_list(V):
    """sum of discounted future cashflows"""
    P = V.mod(PR)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 0)
    c, ds, am = a_list(V, k, n)
    org = V.time('origin', k, near=ds)
    disc = Discounting(V, org)
    given = V.boolean('given')
    if given:
        v = V.time('v', k, near=ds)
        pv = P.get_present_value(c, disc, v)
    else:
        v = org
        pv = P.get_present_value(c, disc)
    req = V.sum(n, lambda i: V.If(v <= ds[i], disc.df(v, ds[i]) * am[i], 0.0))
    V.eq(pv, req, 'sum of discounted future cashflows')


@contract('J01', bound=2, split=3, unbounded=True)
def curves(V):
    """with real curves: zero rate and discount factor curve"""
    P = V.mod(PR)
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    if V.symbolic:
        ds, am = V.times('d', k, n), V.reals('a', n)
        c = V.mod(CF).CashFlowList(ds, am)
    else:
        c, ds, am = a_list(V, k, n)
    m = V.length('points', 1)
    ts = V.times('t', k, m, mingap=.05)
    ys = V.reals('y', m, -.02, .2)
    cv = I.ZeroRateCurve(ts, ys, V.interp('ip') if V.symbolic else None)
    v = V.time('v', k, near=ds)
    V.eq(P.get_present_value(c, cv, V.clone(v)),
         V.sum(n, lambda i: V.If(v <= ds[i], cv.get_discount_factor(
             v, ds[i]) * am[i], 0.0)), 'sum', tol=1e-8)
    V.eq(P.get_present_value(c, cv),
         V.sum(n, lambda i: V.If(ts[0] <= ds[i], cv.get_discount_factor(
             ts[0], ds[i]) * am[i], 0.0)), 'from origin', tol=1e-8)


@contract('J01', bound=2, split=4)
def legs(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    m = 2 if V.symbolic else V.length('legs', 1, 4)
    lg = []
    v = V.time('v', k)
    disc = Discounting(V, v)
    tot = 0.0
    parts = []
    for j in range(m):
        n = V.length('n%d' % j, 1)
        if V.symbolic and j:
            ds = V.times('d1', k, n)
            am = V.reals('a1', n)
            c = M.FixedCashFlowList(ds, am)
        else:
            c, ds, am = a_list(V, k, n, str(j))
        parts.append((n, ds, am))
        lg.append(c)
    pv = P.get_present_value(M.CashFlowLegList(lg), disc,
                             *([v] if V.boolean('given') else []))
    for n, ds, am in parts:
        tot = tot + V.sum(n, lambda i: V.If(
            v <= ds[i], disc.df(v, ds[i]) * am[i], 0.0))
    V.eq(pv, tot, 'sum of the values of the legs')


@contract('J01', bound=2, split=3)
def rate_cashflows(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    am = V.reals('N', n, -1e5, 1e5)
    c = V.real('c', -.1, .2)
    f = V.func('fwd', -.05, .2)
    l = M.RateCashFlowList(ds, am, o, fixed_rate=c, forward_curve=f)
    v = V.time('v', k, near=ds)
    disc = Discounting(V, v)
    st = [o] + list(ds[:-1])
    V.eq(P.get_present_value(l, disc, v),
         V.sum(n, lambda i: V.If(v <= ds[i], disc.df(v, ds[i]) * am[i] *
                                 V.yf(st[i], ds[i]) * (c + f(st[i])), 0.0)),
         'sum', tol=1e-8)


@contract('J01', bound=2, split=3)
def options(V):
    """option cashflows are valued as of the valuation date"""
    P = V.mod(PR)
    C = V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    v = V.time('v', k, near=ds)
    mv = V.choice('model date', [0, 1, 2])
    mv = [None, v, V.time('mv', k, near=ds)][mv]
    g = V.func('value', -1e4, 1e4)
    O = V.mod('models.optionpricing')
    model = O.OptionPayOffModel(valuation_date=mv)

    def payoff(i):
        def p(m=None):
            V.check(m is model, 'payoff is given the model')
            return g(m.valuation_date, ds[i])
        return p
    l = C.ContingentCashFlowList(list(ds), [payoff(i) for i in range(n)],
                                 payoff_model=model)
    disc = Discounting(V, v)
    pv = P.get_present_value(l, disc, *([v] if V.boolean('given') else []))
    V.eq(pv, V.sum(n, lambda i: V.If(
        v <= ds[i], disc.df(v, ds[i]) * g(v, ds[i]), 0.0)),
        'valued as of the valuation date')
    V.check(model.valuation_date is mv, 'model valuation date as before')


# ---------------------------------------------------------------- J02

def monotone(V):
    """an arbitrary continuous monotone function; f: real -> real"""
    up = V.choice('up', [1, -1])
    L = V.real('lipschitz', .01, 1e4, gt=0, log=True)
    if not V.symbolic:
        r = V.real('root', -1, 1)
        p = V.choice('power', [1, 3])
        q = V.real('flat', 0, 1)

        def g(x):
            y = x - r
            if p == 3:
                y = (y * y * y + q * y) / 16.
            return up * L * y
        return g, up, L
    F = V.func('f')
    seen = []

    def f(x):
        y = F(x)
        for a, b in seen:
            V.assume(V.implies(a <= x, V.And(
                up * b <= up * y, up * (y - b) <= L * (x - a))))
            V.assume(V.implies(x <= a, V.And(
                up * y <= up * b, up * (b - y) <= L * (a - x))))
        seen.append((x, y))
        return y
    return f, up, L


def bracketed(V, f, r, a, b, precision, label):
    lo, m, hi = r
    V.check(V.And(V.min(a, b) <= V.min(lo, hi), V.max(lo, hi) <=
                  V.max(a, b)), label + ': within the interval')
    V.check(V.And(V.min(lo, hi) <= m, m <= V.max(lo, hi)),
            label + ': middle within')
    V.check(V.And(hi - lo < precision, lo - hi < precision),
            label + ': narrow')
    fl, fh = f(lo), f(hi)
    V.check(V.Or(V.And(fl <= 0, 0 <= fh), V.And(fh <= 0, 0 <= fl)),
            label + ': embraces the root')
    y = f(m)
    V.check(V.And(y <= precision, -precision <= y), label + ': precise')


def search_step(V, last):
    """induction step of the recursive root search: assuming the
    contract of the recursive call; requires an embraced root, a strictly
    halved interval and that the interval is not yet small enough"""
    P = V.mod(PR)
    g, up, L = monotone(V)
    a = V.real('a', -2, 0)
    b = V.real('b', 0, 2, gt=a)
    precision = V.real('precision', 1e-9, 1e-3, gt=0, log=True)
    fa, fb = g(a), g(b)
    inside = V.Or(V.And(fa <= 0, 0 <= fb), V.And(fb <= 0, 0 <= fa))
    values = []

    def f(x):
        values.append(g(x))
        return values[-1]
    body = P._simple_bracketing
    if V.symbolic:
        def again(func, lo, hi, prec=1e-13):
            gl, gh = func(lo), func(hi)
            x, m, y = V.real('x'), V.real('m'), V.real('y')
            if not last:
                V.eq(prec, precision, 'recursion: same precision')
                V.check(V.And(a <= V.min(lo, hi), V.max(lo, hi) <= b),
                        'recursion: within the interval')
                V.check(V.Or(V.And(gl <= 0, 0 <= gh), V.And(
                    gh <= 0, 0 <= gl)), 'recursion: root embraced')
                V.check(V.And(2 * (hi - lo) <= b - a, 2 * (lo - hi) <= b - a),
                        'recursion: interval halved')
                V.check(V.Or(b - a >= precision, L * (b - a) >= precision),
                        'recursion: only while not precise')
            V.assume(V.And(lo <= x, x <= hi, lo <= y, y <= hi, V.min(x, y)
                           <= m, m <= V.max(x, y)))
            V.assume(V.And(y - x < prec, x - y < prec))
            hm, hx, hy = func(m), func(x), func(y)
            V.assume(V.Or(V.And(hx <= 0, 0 <= hy), V.And(hy <= 0, 0 <= hx)))
            for h in (hm, hx, hy):
                V.assume(V.And(h <= prec, -prec <= h))
            return x, m, y
        V.patch(P, '_simple_bracketing', again)
    ok, r = V.attempt(lambda: body(f, a, b, precision), AssertionError)
    eps = 0 if V.symbolic else 1e-12
    if not last:
        V.check(inside if ok else V.Not(inside), 'refuses if and only if no '
                'root is embraced')
        if ok:
            bracketed(V, g, r, a, b, precision + eps, 'result')
    elif ok:
        V.check(V.And(values[-1] <= precision + eps, -precision - eps <=
                      values[-1]), 'last evaluation precise')


@contract('J02', unbounded=True)
def bracketing(V):
    search_step(V, False)


@contract('J06', unbounded=True)
def last_evaluation(V):
    """the curve is left at a value found precise"""
    search_step(V, True)


def root_search(V, free=False):
    """the root search by its contract (J02.bracketing); free: may refuse
    and return anything"""
    P = V.mod(PR)
    if not V.symbolic:
        return
    if free:
        def anything(func, a, b, precision=1e-13):
            func(a), func(b)
            if V.boolean('refused'):
                raise AssertionError('no root embraced')
            x = V.real('x')
            func(x)
            return x, V.real('root'), V.real('y')
        V.patch(P, '_simple_bracketing', anything)
        return

    def search(func, a, b, precision=1e-13):
        fa, fb = func(a), func(b)
        if not V.Or(V.And(fa <= 0, 0 <= fb), V.And(fb <= 0, 0 <= fa)):
            raise AssertionError('no root embraced')
        x, m, y = V.real('x'), V.real('root'), V.real('y')
        V.assume(V.And(V.min(a, b) <= m, m <= V.max(a, b)))
        for z in (x, y):
            V.assume(V.And(V.min(a, b) <= z, z <= V.max(a, b)))
        func(x)
        e = func(m)
        V.assume(V.And(e <= precision, -precision <= e))
        e = func(y)
        V.assume(V.And(e <= precision, -precision <= e))
        return x, m, y
    V.patch(P, '_simple_bracketing', search)


def search_args(V, const=False):
    """(precision, lower, upper bound, keywords)"""
    if V.boolean('defaults'):
        return 1e-7, -.1, .2, {}
    if V.symbolic:
        pr = V.real('precision', gt=0)
        if const:
            return pr, -.5, 1.0, {'precision': pr, 'bounds': (-.5, 1.0)}
        lo = V.real('lower')
        hi = V.real('upper', gt=lo)
        return pr, lo, hi, {'precision': pr, 'bounds': (lo, hi)}
    pr = V.choice('precision', [1e-7, 1e-5, 1e-2])
    lo, hi = V.choice('bounds', [(-.5, 1.0), (0.0, .1), (-.1, .2)])
    return pr, lo, hi, {'precision': pr, 'bounds': (lo, hi)}


def flat(V, y, ds, am, v, yf):
    return V.sum(len(ds), lambda i: V.If(
        v <= ds[i], V.exp(-y * yf(v, ds[i])) * am[i], 0.0))


@contract('J02', bound=2, split=3, budget=2)
def yield_to_maturity(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    am = V.reals('a', n, 1, 1e4, gt=0)
    how = V.choice('date', ['given', 'origin', 'first'])
    org = V.time('o', k, before=ds[0]) if how != 'first' else None
    c = M.CashFlowList(list(ds), list(am), org)
    if how == 'given':
        v = V.time('v', k, near=ds, before=ds[-1])
        args = (v,)
    else:
        v = ds[0] if org is None else org
        args = ()
    dc = V.daycount()
    yf = dc or V.yf
    pr, lo, hi, kw = search_args(V, True)
    if dc:
        kw['day_count'] = dc
    at_lo, at_hi = flat(V, lo, ds, am, v, yf), flat(V, hi, ds, am, v, yf)
    if V.symbolic:
        price = V.real('price')
    else:
        y0 = V.real('y0', lo - .05, hi + .05)
        price = flat(V, y0, ds, am, v, yf)
        V.assume(abs(price) < 1e6 and max(map(abs, (at_lo, at_hi))) < 1e6)
        V.assume(min(abs(price - at_lo), abs(price - at_hi)) > 1e-6)
    root_search(V)
    ok, y = V.attempt(lambda: P.get_yield_to_maturity(
        c, *args, present_value=price, **kw), AssertionError)
    inside = V.Or(V.And(at_hi <= price, price <= at_lo),
                  V.And(at_lo <= price, price <= at_hi))
    if V.symbolic:
        # same value as the error function sees
        for q, s in ((lo, at_lo), (hi, at_hi)):
            pv = P.get_present_value(c, V.mod(IRC).ZeroRateCurve(
                [v], [q], **({'day_count': dc} if dc else {})), v)
            V.eq(pv, s, 'value at bound')
            V.lemma(pv == s)
    V.check(inside if ok else V.Not(inside), 'returns if and only if the '
            'price is attained between the bounds')
    if ok:
        V.check(V.And(lo <= y, y <= hi), 'within the bounds')
        pv = flat(V, y, ds, am, v, yf)
        if V.symbolic:
            z = P.get_present_value(c, V.mod(IRC).ZeroRateCurve(
                [v], [y], **({'day_count': dc} if dc else {})), v)
            V.lemma(z == pv)
        tol = pr if V.symbolic else pr * (1 + 1e-6) + 1e-12 * abs(price)
        V.check(V.And(pv - price <= tol, price - pv <= tol), 'gives the '
                'asked present value')


@contract('J02', bound=2)
def value_falls(V):
    """precondition of the root search: the flat rate value is monotone"""
    P = V.mod(PR)
    M = V.mod(CF)
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    am = V.reals('a', n, 1, 1e4, gt=0)
    c = M.CashFlowList(list(ds), list(am))
    v = V.time('v', k, near=ds, before=ds[-1])
    r = V.real('r', -.5, .9)
    q = V.real('q', -.5, 1, gt=r)
    p1 = P.get_present_value(c, I.ZeroRateCurve([v], [r]), v)
    p2 = P.get_present_value(c, I.ZeroRateCurve([v], [q]), v)
    if V.symbolic:
        for d in ds:
            t = V.yf(v, d)
            V.lemma(V.implies(t >= 0, r * t <= q * t))
    V.le(p2, p1, 'value falls with the rate')


@contract('J02', sym=False)
def yield_of_a_bond(V):
    """coupon and redemption legs: yield reprices and is found again"""
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    N = V.real('N', 1, 1e4)
    cpn = V.real('c', .001, .2)
    c = M.CashFlowLegList([M.RateCashFlowList(ds, N, o, fixed_rate=cpn),
                           M.FixedCashFlowList(ds[-1:], N)])
    y0 = V.real('y0', -.09, .19)
    v = V.time('v', k, near=ds, before=ds[-1])
    V.assume(V.yf(v, ds[-1]) > .05)
    st = [o] + list(ds)
    am = [N * cpn * V.yf(a, b) for a, b in zip(st[:-1], ds)]
    am[-1] += N
    price = flat(V, y0, ds, am, v, V.yf)
    V.assume(price < 1e6)
    y = P.get_yield_to_maturity(c, v, price)
    V.check(abs(flat(V, y, ds, am, v, V.yf) - price) <= 1.01e-7,
            'gives the price')
    V.check(abs(y - y0) < 1e-5, 'the rate again')


# ---------------------------------------------------------------- J03

@contract('J03', bound=2, split=4, budget=2)
def fair_rate(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    sign = V.choice('sign', [1, -1])
    am = [sign * x for x in V.reals('N', n, 1, 1e4, gt=0)]
    f = V.func('fwd', -.05, .2) if V.boolean('forward') else None
    l = M.RateCashFlowList(ds, am, o, forward_curve=f,
                           fixed_rate=V.real('before', -1, 1))
    if V.boolean('different'):
        l.payoff(ds[-1]).fixed_rate = V.real('last', -1, 1)
    pr, lo, hi, kw = search_args(V)
    v = V.time('v', k, near=ds, before=ds[-1])
    disc = Discounting(V, v)
    st = [o] + list(ds[:-1])

    def value(c):
        return V.sum(n, lambda i: V.If(
            v <= ds[i], disc.df(v, ds[i]) * am[i] * V.yf(st[i], ds[i]) *
            (c + (f(st[i]) if f else 0.0)), 0.0))
    at_lo, at_hi = value(lo), value(hi)
    if V.symbolic:
        target = V.real('target')
    else:
        target = value(V.real('c0', lo - .05, hi + .05))
        V.assume(min(abs(target - at_lo), abs(target - at_hi)) > 1e-6)
    root_search(V)
    args = (v,) if V.boolean('given') else ()
    ok, c = V.attempt(lambda: P.get_fair_rate(
        l, disc, *args, present_value=target, **kw), AssertionError)
    inside = V.Or(V.And(at_hi <= target, target <= at_lo),
                  V.And(at_lo <= target, target <= at_hi))
    V.check(inside if ok else V.Not(inside), 'returns if and only if the '
            'value is attained between the bounds')
    if ok:
        V.check(V.And(lo <= c, c <= hi), 'within the bounds')
        pv = value(c)
        tol = pr if V.symbolic else pr * (1 + 1e-6) + 1e-12 * abs(target)
        V.check(V.And(pv - target <= tol, target - pv <= tol), 'gives the '
                'asked present value')


@contract('J03', bound=2)
def value_is_linear(V):
    """precondition of the root search: monotone in the fixed rate"""
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    am = V.reals('N', n, -1e4, 1e4)
    f = V.func('fwd', -.05, .2)
    l = M.RateCashFlowList(ds, am, o, forward_curve=f)
    v = V.time('v', k, near=ds)
    disc = Discounting(V, v)
    a, b = V.real('a', -1, 1), V.real('b', -1, 1)
    vals = []
    for c in (0.0, a, b):
        l.fixed_rate = c
        vals.append(P.get_present_value(l, disc, v))
    V.eq((vals[1] - vals[0]) * b, (vals[2] - vals[0]) * a,
         'linear in the fixed rate', tol=1e-7)


@contract('J03', sym=False)
def fair_rate_of_collared(V):
    P = V.mod(PR)
    C = V.mod(CT)
    k = V.kind('num', 'date')
    n = V.length('n', 1, 5)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    f = V.func('fwd', -.05, .2)
    m, call, put = stub_model(V, f, o)
    l = C.ContingentRateCashFlowList(ds, V.real('N', 1, 1e4), o,
                                     cap_strike=.1, floor_strike=.01,
                                     payoff_model=m)
    disc = Discounting(V, o)
    c0 = V.real('c0', -.09, .19)
    l.fixed_rate = c0
    pv = P.get_present_value(l, disc)
    l.fixed_rate = V.real('before', -1, 1)
    c = P.get_fair_rate(l, disc, present_value=pv)
    l.fixed_rate = c
    V.check(abs(P.get_present_value(l, disc) - pv) <= 1.01e-7, 'value')


# ---------------------------------------------------------------- J04

def accrual_spec(V, l, ds, v, yf, flow):
    return V.sum(len(ds), lambda i: V.If(
        V.And(l.payoff(ds[i]).start <= v, v < l.payoff(ds[i]).end),
        flow(i) * yf(l.payoff(ds[i]).start, v) /
        yf(l.payoff(ds[i]).start, l.payoff(ds[i]).end), 0.0))


@contract('J04', bound=2, split=4)
def accrued(V):
    P = V.mod(PR)
    M, C = V.mod(CF), V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.5)
    o = V.time('o', k, before=ds[0])
    if not V.symbolic:
        V.assume(V.yf(o, ds[0]) > .31)
    dc = V.daycount()
    yf = dc or V.yf
    po = offset(V, 'pay', k)
    if V.symbolic and po and k == 'num':
        V.assume(po >= 0)
    am = V.reals('N', n, -1e5, 1e5)
    c = V.real('c', -.1, .2)
    f = V.func('fwd', -.05, .2)
    if V.boolean('collared'):
        m, call, put = stub_model(V, f, o)
        l = C.ContingentRateCashFlowList(
            ds, am, o, dc, None, po, c, V.real('L', 0, .1),
            V.real('K', -.1, 0), m)
    else:
        l = M.RateCashFlowList(ds, am, o, dc, None, po, c, f)
    ends = [l.payoff(t).end for t in ds]
    v = V.time('v', k, near=list(ds) + ends)
    ac = P.get_interest_accrued(l, v)
    tot = 0.0
    for i, t in enumerate(ds):
        s, e = l.payoff(t).start, l.payoff(t).end
        if V.symbolic:
            V.assume(s < e)
        elif not s < e:
            V.assume(False)
        if V.And(s <= v, v < e):
            tot = tot + l[t] * yf(s, v) / yf(s, e)
    V.eq(ac, tot, 'elapsed share of the current cashflow', tol=1e-8)


@contract('J04', bound=2, split=2)
def at_start(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    l = M.RateCashFlowList(ds, V.reals('N', n, -1e5, 1e5), o,
                           fixed_rate=V.real('c', -.1, .2))
    for s in [o] + list(ds):
        V.eq(P.get_interest_accrued(l, V.clone(s)), 0.0,
             'nothing at period start', tol=1e-8)
    x = V.time('before', k, before=o)
    V.eq(P.get_interest_accrued(l, x), 0.0, 'nothing before')
    x = V.time('after', k, after=ds[-1])
    V.eq(P.get_interest_accrued(l, x), 0.0, 'nothing after')


@contract('J04', bound=2, split=3)
def accrued_legs(V):
    P = V.mod(PR)
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    a = M.RateCashFlowList(ds, V.real('N', -1e5, 1e5), o,
                           fixed_rate=V.real('c', -.1, .2))
    es = V.times('e', k, n, mingap=.1)
    b = M.RateCashFlowList(es, V.real('M', -1e5, 1e5),
                           V.time('p', k, before=es[0]),
                           fixed_rate=V.real('g', -.1, .2))
    x = M.FixedCashFlowList(es, V.real('x', -1e5, 1e5))
    v = V.time('v', k, near=list(ds) + list(es))
    V.eq(P.get_interest_accrued(x, v), 0.0, 'no accrual period')
    y = M.CashFlowList(ds, V.real('y', -1e5, 1e5))
    V.eq(P.get_interest_accrued(y, v), 0.0, 'no accrual period')
    V.eq(P.get_interest_accrued(M.CashFlowLegList([a, x, b]), v),
         P.get_interest_accrued(a, v) + P.get_interest_accrued(b, v),
         'sum of the legs', tol=1e-8)


# ---------------------------------------------------------------- J05

def probed_value(V, curves, points):
    """present value as arbitrary function of curve values somewhere"""
    g = V.func('value', -1e3, 1e3)
    if V.symbolic:
        return lambda vals: g(*vals)
    ws = [V.real('w%d' % i, -100, 100) for i in range(len(points))]
    return lambda vals: sum(w * x + w * x * x for w, x in zip(ws, vals))


def shift_setup(V, two=True, minlen=1, maxlen=None):
    """curves, a grid and a present value depending on their values"""
    P = V.mod(PR)
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    cls = V.choice('class', ['ZeroRateCurve', 'CashRateCurve'])
    V.bounded('two curve points')
    m = 2 if V.symbolic else V.length('points', 1, 5)
    ts = V.times('t', k, m, mingap=.1)
    ys = V.reals('y', m, -.02, .2)
    ip = V.interp('ip') if V.symbolic else None
    disc = getattr(I, cls)(list(ts), list(ys), ip)
    how = V.choice('delta', ['default', 'single', 'list'] if two else
                   ['default'])
    if how == 'default':
        deltas, arg = [disc], None
    else:
        other = I.ZeroRateCurve(list(ts), V.reals('z', m, -.02, .2),
                                V.interp('jp') if V.symbolic else None)
        if how == 'single':
            deltas, arg = [other], other
        else:
            deltas, arg = [disc, other], V.choice(
                'listtype', [list, tuple])([disc, other])
    used = [disc] if how == 'default' else [disc, other]
    return P, k, ts, disc, deltas, arg, used


def value_stub(V, P, k, cfs, disc, vd, used, ts, val):
    """get_present_value by contract: depends on the curve values"""
    xs = [V.time('x%d' % i, k, near=ts) for i in range(1)]
    calls = []

    def value(cashflow_list, discount_curve, valuation_date=None):
        V.check(cashflow_list is cfs, 'values the given list')
        V.check(discount_curve is disc, 'with the given discount curve')
        V.check(valuation_date is vd, 'at the given valuation date')
        calls.append(1)
        return val([c(x) for c in used for x in xs])
    V.patch(P, 'get_present_value', value)
    return xs


def sizes(V):
    return V.real('shift', -.01, .01, special=(1e-4, -1e-4), nonzero=True)


@contract('J05', split=3, unbounded=True)
def basis_point_value(V):
    P, k, ts, disc, deltas, arg, used = shift_setup(V)
    cfs, vd = object(), V.choice('vd', [None, ts[0]])
    val = probed_value(V, used, used)
    base = [None]
    xs = value_stub(V, P, k, cfs, disc, vd, used, ts, val)
    default = V.boolean('default shift')
    s = 1e-4 if default else sizes(V)
    if not V.symbolic:
        V.assume(abs(s) > 1e-6)
    before = [c(x) for c in used for x in xs]
    kw = {} if default else {'shift': s}
    if arg is not None:
        kw['delta_curve'] = arg
    r = P.get_basis_point_value(cfs, disc, vd, **kw)
    up = [b + (s if any(c is d for d in deltas) else 0.0)
          for b, c in zip(before, [c for c in used for x in xs])]
    V.eq(r, (val(up) - val(before)) / s * .0001, 'value change by the shift',
         tol=1e-6)


def hat(V, grid, j, x, yf, s):
    """documented shift around the j-th of the grid points"""
    n = len(grid)
    if n == 1:
        return s
    if V.symbolic or True:
        left = right = None
        if j > 0:
            a, b = grid[j - 1], grid[j]
            left = s * yf(a, x) / yf(a, b)
        if j < n - 1:
            b, e = grid[j], grid[j + 1]
            right = s * yf(x, e) / yf(b, e)
    if x < grid[j]:
        if left is None:
            return s
        return left if grid[j - 1] <= x else 0.0
    if right is None:
        return s
    return right if x < grid[j + 1] else 0.0


@contract('J05', bound=3, split=4, budget=2)
def bucketed_delta(V):
    P, k, ts, disc, deltas, arg, used = shift_setup(V)
    cfs, vd = object(), V.choice('vd', [None, ts[0]])
    val = probed_value(V, used, used)
    if V.boolean('default grid'):
        grid, kw = list(deltas[0].domain), {}
        if arg is not None and len(deltas) > 1:
            grid = list(disc.domain)
    else:
        n = V.length('grid', 1)
        grid = V.times('g', k, n, mingap=.05)
        kw = {'delta_grid': V.choice('gridtype', [list, tuple])(grid)}
    s = sizes(V)
    if not V.symbolic:
        V.assume(abs(s) > 1e-6)
    if arg is not None:
        kw['delta_curve'] = arg
    xs = value_stub(V, P, k, cfs, disc, vd, used, list(ts) + list(grid), val)
    before = [c(x) for c in used for x in xs]
    r = P.get_bucketed_delta(cfs, disc, vd, shift=s, **kw)
    V.eq(len(r), len(grid), 'one bucket per grid point')
    tot = 0.0
    for j in range(len(grid)):
        h = hat(V, grid, j, xs[0], V.yf, s)
        tot = tot + h
        up = [b + (h if any(c is d for d in deltas) else 0.0)
              for b, c in zip(before, used)]
        V.eq(r[j], (val(up) - val(before)) / s * .0001,
             'value change by the documented shift', tol=1e-6)
    V.eq(tot, s, 'shifts add up')


@contract('J05', sym=False)
def buckets_of_bonds(V):
    """with real valuation: buckets and basis point value are the value
    changes of a curve with shifted values"""
    P = V.mod(PR)
    M = V.mod(CF)
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1, 5)
    ds = V.times('d', k, n, mingap=.3)
    o = V.time('o', k, before=ds[0])
    c = M.CashFlowLegList([
        M.RateCashFlowList(ds, 1e4, o, fixed_rate=V.real('c', 0, .1)),
        M.FixedCashFlowList(ds[-1:], 1e4)])
    m = V.length('points', 1, 5)
    ts = V.times('t', k, m, mingap=.3)
    ys = V.reals('y', m, -.02, .1)
    cv = I.ZeroRateCurve(list(ts), list(ys))
    V.assume(abs(V.yf(ts[0], ds[-1])) < 10)
    s = V.choice('shift', [1e-4, -1e-4, 1e-3])
    v = V.choice('v', [None, o])
    pv = P.get_present_value(c, cv, v)
    up = P.get_present_value(c, I.ZeroRateCurve(ts, [y + s for y in ys]), v)
    V.eq(P.get_basis_point_value(c, cv, v, shift=s), (up - pv) / s * 1e-4,
         'basis point value', tol=1e-6)
    b = P.get_bucketed_delta(c, cv, v, shift=s)
    for j in range(m):
        zs = list(ys)
        zs[j] += s
        up = P.get_present_value(c, I.ZeroRateCurve(ts, zs), v)
        V.eq(b[j], (up - pv) / s * 1e-4, 'bucket', tol=1e-6)


# ---------------------------------------------------------------- J06

class Product(object):
    """a product known by its payment dates"""

    def __init__(self, *dates):
        self.domain = dates


@contract('J06', bound=2, split=9, budget=4, weight=3)
def curve_fit(V):
    """one product per grid point, whose value depends on the curve up to
    its maturity; root search by its contract"""
    P = V.mod(PR)
    I = V.mod(IRC)
    W = V.mod('curves.volatilitycurve')
    k, cls = V.choice('case', [
        (k, c) for c in (I.ZeroRateCurve, I.CashRateCurve,
                         W.TerminalVolatilityCurve)
        for k in ('num', 'date', 'bd')])
    n = V.length('n', 1, 5)
    ts = V.times('t', k, n, mingap=.1)
    ys = V.reals('y', n, .001, .1)
    org = V.time('o', k, before=ts[0]) if V.boolean('origin') else None
    if cls is I.CashRateCurve and k != 'bd':
        tenor = .25 if k == 'num' else days(V, 91)
        make = lambda d, y: cls(d, y, None, org, None, tenor)  # noqa
    else:
        make = lambda d, y: cls(d, y, None, org)  # noqa
    cv = make(list(ts), list(ys))
    other = V.boolean('other')
    disc = I.ZeroRateCurve([ts[0]], [.01]) if other else cv
    vd = (ts[0] if other else None) if V.symbolic else \
        V.choice('vd', [None, ts[0]])
    kw = {'fitting_curve': cv} if other else {}
    grid = ts
    if V.boolean('grid'):
        if V.boolean('same'):
            kw['fitting_grid'] = list(ts)
        else:
            grid = V.times('g', k, n, mingap=.1)
            kw['fitting_grid'] = list(grid)
            if org is None:
                org = ts[0]
    o = V.time('start', k, before=grid[0])
    prods = [Product(*([o] * (j % 2 if V.symbolic else V.choice(
        'dates', [0, 1])) + list(grid[:j + 1]))) for j in range(n)]
    xs = [V.time('x%d' % j, k, before=grid[j]) for j in range(n)] \
        if grid is ts else []
    gs = []
    seen = {}
    for j in range(n):
        if V.symbolic:
            f = V.func('value%d' % j)
        else:
            # rises with the last value
            ws = [V.real('w', -5, 5) for _ in range(j)] + [
                V.real('w', 1, 100)] + [0.0] * (1 if xs else 0)
            if xs:
                ws[-1] = V.real('wx', 0, .5) * ws[j]

            def f(*vals, _w_=ws):
                return sum(a * b for a, b in zip(_w_, vals))
        gs.append(f)

    def look(c, j):
        return [c(t) for t in grid[:j + 1]] + [c(x) for x in xs[j:j + 1]]

    def value(cl, discount_curve, valuation_date=None):
        V.check(discount_curve is disc, 'with the given discount curve')
        V.check(valuation_date is vd, 'at the given valuation date')
        j = [i for i, q in enumerate(prods) if q is cl]
        V.check(len(j) == 1, 'values a given product')
        seen[j[0]] = look(cv, j[0])
        return gs[j[0]](*seen[j[0]])
    V.patch(P, 'get_present_value', value)
    root_search(V)
    pr = 1e-7
    if not other if V.symbolic else V.boolean('precision'):
        pr = V.real('pr', 1e-7, 1e-3, gt=0, log=True)
        kw['precision'] = pr
    if V.symbolic:
        prices = V.real('price') if other else \
            V.reals('price', n)
    else:
        tgt = make(list(grid), [V.real('z', 0, .1) for _ in range(n)])
        prices = [gs[j](*look(tgt, j)) for j in range(n)]
    kw['present_value'] = prices
    if not V.symbolic and n == 1 and V.boolean('number'):
        kw['present_value'] = prices[0]
    ok, data = V.attempt(lambda: P.get_curve_fit(prods, disc, vd, **kw),
                         AssertionError)
    if not ok:
        # refused: nothing to check; prices not attained
        return
    if not isinstance(prices, list):
        prices = [prices] * n
    V.eq(len(data), n, 'one value per grid point')
    fit = make(list(grid), list(data))
    tot = 0.0
    for j in range(n):
        vals = look(fit, j)
        if V.symbolic and j in seen:
            for a, b in zip(vals, seen[j]):
                V.lemma(a == b)
        tot = tot + gs[j](*vals) - prices[j]
        tol = pr if V.symbolic else pr * (1 + 1e-6) + 1e-11
        V.check(V.And(tot <= tol, -tot <= tol), 'reprices the products')


@contract('J06', sym=False)
def bonds(V):
    """bootstrapping of a strip of bonds"""
    P = V.mod(PR)
    M = V.mod(CF)
    I = V.mod(IRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1, 6)
    ts = V.times('t', k, n, mingap=.2)
    V.assume(V.yf(ts[0], ts[-1]) < 12)
    o = V.time('o', k, before=ts[0])
    V.assume(.05 < V.yf(o, ts[0]) < 5)
    N = 100.
    prods = []
    for j in range(n):
        c = M.RateCashFlowList(ts[:j + 1], N, o, fixed_rate=V.real(
            'c', 0, .05))
        prods.append(M.CashFlowLegList([c, M.FixedCashFlowList(
            [ts[j]], N)]))
    rates = V.reals('z', n, 0, .08)
    org = V.choice('org', [None, o])
    tgt = I.ZeroRateCurve(ts, rates, None, o)
    prices = [P.get_present_value(p, tgt, o) for p in prods]
    cv = I.ZeroRateCurve(ts, V.reals('y', n, -.01, .06), None, o)
    grid = V.choice('grid', [None, list(ts)])
    data = P.get_curve_fit(prods, cv, o, fitting_grid=grid,
                           present_value=prices)
    V.eq(len(data), n, 'one value per grid point')
    fit = I.ZeroRateCurve(ts, data, None, o)
    for p, q in zip(prods, prices):
        V.check(abs(P.get_present_value(p, fit, o) - q) <= 2.01e-7,
                'reprices')
    del org


@contract('J06', sym=False)
def volatilities(V):
    """option implied volatility"""
    P = V.mod(PR)
    C = V.mod(CT)
    I = V.mod(IRC)
    W = V.mod('curves.volatilitycurve')
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1, 4)
    o = V.time('o', k)
    ts = V.times('t', k, n + 1, first=o, mingap=.1)[1:]
    V.assume(V.yf(o, ts[-1]) < 6)
    f = V.real('f', .8, 1.2)
    vols = V.reals('v', n, .06, .18)
    tgt = W.TerminalVolatilityCurve(ts, vols, None, o)
    cv = W.TerminalVolatilityCurve(ts, [.1] * n, None, o)
    B = V.mod('models.bachelier').NormalOptionPayOffModel

    def model(v):
        return B(valuation_date=o, forward_curve=lambda d: f,
                 volatility_curve=v)
    disc = I.ZeroRateCurve([o], [.02])
    ps = [V.real('K', .95, 1.05) for _ in range(n)]
    mk = lambda m: [C.OptionCashflowList(  # noqa
        [ts[j]], 1e3, ps[j], origin=o, payoff_model=m) for j in range(n)]
    prices = [P.get_present_value(p, disc, o) for p in mk(model(tgt))]
    low = mk(model(W.TerminalVolatilityCurve(ts, [.02] * n, None, o)))
    V.assume(all(q - P.get_present_value(p, disc, o) > 1e-4
                 for p, q in zip(low, prices)))
    prods = mk(model(cv))
    data = P.get_curve_fit(prods, disc, o, fitting_curve=cv,
                           present_value=prices, bounds=(-.08, .2))
    for j in range(n):
        V.check(abs(data[j] - vols[j]) < 1e-3, 'implied volatility')
    fit = mk(model(W.TerminalVolatilityCurve(ts, data, None, o)))
    for p, q in zip(fit, prices):
        V.check(abs(P.get_present_value(p, disc, o) - q) <= 2.01e-7,
                'reprices')


# ---------------------------------------------------------------- J07

class Boom(Exception):
    pass


class Faults(object):
    """raises at the given evaluation (counted from one)"""

    def __init__(self, at):
        self.at, self.n = at, 0

    def __call__(self):
        self.n += 1
        if self.n == self.at:
            raise Boom()


def counted(V, fault, name):
    """interpolation which may raise at some evaluation"""
    if V.symbolic:
        base = V.interp(name)
    else:
        base = V.mod('interpolation').linear

    def factory(domain, data):
        f = base(domain, data)

        def value(x):
            fault()
            return f(x)
        return value
    factory.__name__ = 'counted'
    return factory


def curve_state(V, c, x):
    return [tuple(c.domain), c.origin, c._day_count, c.spread,
            dict(c.fixings), c.forward_tenor] + [c(t) for t in c.domain] + [
                c(x)]


def list_state(l):
    legs = getattr(l, 'legs', None)
    if legs is not None:
        out = [len(legs)]
        for g in legs:
            out += [g] + list_state(g)
        return out
    out = [tuple(l.domain), l.origin, getattr(l, 'forward_curve', None),
           getattr(l, 'payoff_model', None)]
    for d in l.domain:
        p = l.payoff(d)
        out.append(p)
        if hasattr(p, 'fixed_rate'):
            out += [p.fixed_rate, p.amount, p.start, p.end, p.day_count,
                    p.fixing_offset]
    return out


def same(V, a, b, label):
    V.eq(len(a), len(b), label)
    for x, y in zip(a, b):
        if x is y:
            V.check(True, label)
        elif isinstance(x, tuple) and isinstance(y, tuple):
            same(V, x, y, label)
        elif V.isnum(x) and V.isnum(y):
            V.eq(x, y, label)
        elif isinstance(x, dict) or hasattr(x, 'ord') or hasattr(
                x, 'toordinal') or hasattr(x, 'to_date') or isinstance(
                x, str):
            V.check(x == y, label)
        else:
            V.check(False, label + ' (another object)')


FAULTS = [0, 1, 2, 3, 5, 8]


@contract('J07', bound=2, split=7, budget=3)
def untouched(V):
    """every pricing function, with and without a fault at some evaluation"""
    P = V.mod(PR)
    M, C = V.mod(CF), V.mod(CT)
    I = V.mod(IRC)
    V.bounded('two dates, two curve points')
    op = V.choice('what', ['pv', 'yield', 'accrued', 'fair', 'bpv', 'bucket',
                           'fit'])
    k = 'num' if V.symbolic else V.kind('num', 'date', 'bd')
    at = V.choice('fault', FAULTS if V.symbolic else list(range(40)))
    fault = Faults(0)
    n = 2 if V.symbolic else V.length('n', 1, 5)
    ds = V.times('d', k, n, mingap=.2)
    o = V.time('o', k, before=ds[0])
    ts = V.times('t', k, 2, mingap=.2)
    disc = I.ZeroRateCurve(ts, V.reals('y', 2, -.01, .1),
                           counted(V, fault, 'ip'), o)
    g = V.func('fwd', -.05, .1)

    def fwd(d):
        fault()
        return g(d)
    am = V.reals('N', n, 1, 1e3, gt=0)
    kind = V.choice('list', ['rate', 'legs', 'collared'] if V.symbolic else
                    ['rate', 'legs', 'collared', 'options', 'fixed'])
    model = None
    if kind in ('collared', 'options'):
        m0, call, put = stub_model(V, fwd, None)
        md = V.time('mv', k) if V.boolean('dated') else None

        class Model(type(m0)):
            def get_call_value(self, date, strike=None):
                fault()
                return call(date)

            def get_put_value(self, date, strike=None):
                fault()
                return put(date)
        model = Model(valuation_date=md, forward_curve=fwd)
    if kind == 'collared':
        l = C.ContingentRateCashFlowList(
            ds, am, o, fixed_rate=.01, cap_strike=.05, floor_strike=.0,
            payoff_model=model)
    elif kind == 'options':
        l = C.OptionCashflowList(ds, am, 1.0, origin=o, payoff_model=model)
    elif kind == 'fixed':
        l = M.FixedCashFlowList(ds, am, o)
    else:
        l = M.RateCashFlowList(ds, am, o, forward_curve=fwd,
                               fixed_rate=V.real('c', -.1, .2))
        if op == 'fair' and V.boolean('different'):
            l.payoff(ds[-1]).fixed_rate = V.real('last', -1, 1)
        if kind == 'legs':
            l = M.CashFlowLegList([l, M.FixedCashFlowList(
                [ds[-1]], am[-1], o)])
    if op == 'fair' and (kind == 'legs' or kind == 'fixed' or
                         kind == 'options'):
        return
    x = V.time('x', k, near=ts)
    v = o
    spread = None
    if op in ('bpv', 'bucket', 'fit') and V.boolean('spread'):
        spread = V.mod(CU).DateCurve([ts[0]], [V.real('s', -.01, .01)])
        disc.spread = spread
    root_search(V, True)
    before = curve_state(V, disc, x) + list_state(l) + (
        [model.valuation_date, model.forward_curve] if model else [])
    fault.n, fault.at = 0, at
    price = V.real('price', 0, 1e3)
    calls = {
        'pv': lambda: P.get_present_value(l, disc, v),
        'yield': lambda: P.get_yield_to_maturity(l, v, price),
        'accrued': lambda: P.get_interest_accrued(l, v),
        'fair': lambda: P.get_fair_rate(l, disc, v, price),
        'bpv': lambda: P.get_basis_point_value(l, disc, v),
        'bucket': lambda: P.get_bucketed_delta(l, disc, v),
        'fit': lambda: P.get_curve_fit([l], disc, v, fitting_grid=[ds[-1]],
                                       present_value=[price])}
    ok, r = V.attempt(calls[op])
    if not ok:
        V.check(isinstance(r, (Boom, AssertionError)) or (
            isinstance(r, TypeError) and spread is not None) or (
            not V.symbolic and isinstance(r, (RecursionError,
                                              OverflowError))) or
            (op == 'accrued' and model and model.valuation_date is None),
            'no other exception')
    fault.at = 0
    after = curve_state(V, disc, x) + list_state(l) + (
        [model.valuation_date, model.forward_curve] if model else [])
    same(V, before, after, 'inputs as they were')


@contract('J07', bound=2, split=7, budget=3)
def several_curves(V):
    """basis point value and buckets of several delta curves, each of which
    may refuse"""
    P = V.mod(PR)
    M = V.mod(CF)
    I = V.mod(IRC)
    CU_ = V.mod(CU)
    V.bounded('two curve points')
    k = 'num' if V.symbolic else V.kind('num', 'date', 'bd')
    n = 2
    ds = V.times('d', k, n, mingap=.2)
    ts = V.times('t', k, 2, mingap=.2)
    fault = Faults(0)
    cs = [I.ZeroRateCurve(ts, V.reals('y%d' % i, 2, -.01, .1),
                          counted(V, fault, 'ip%d' % i)) for i in range(3)]
    own = V.choice('has spread', [None, 0, 1, 2])
    if own is not None:
        cs[own].spread = CU_.DateCurve([ts[0]], [.001])
    dup = V.boolean('twice')
    l = M.FixedCashFlowList(ds, V.reals('a', n, -1e3, 1e3))
    x = V.time('x', k, near=ts)
    before = sum([curve_state(V, c, x) for c in cs], []) + list_state(l)
    arg = [cs[0], cs[1]] + ([cs[0]] if dup else [cs[2]])
    fault.n, fault.at = 0, V.choice('fault', [0, 1, 2, 3, 4, 5, 6])
    if V.boolean('bucket'):
        fn = lambda: P.get_bucketed_delta(  # noqa
            l, cs[0], ds[0], delta_curve=arg)
    else:
        fn = lambda: P.get_basis_point_value(  # noqa
            l, cs[0], ds[0], delta_curve=arg)
    V.attempt(fn)
    fault.at = 0
    after = sum([curve_state(V, c, x) for c in cs], []) + list_state(l)
    same(V, before, after, 'inputs as they were')
