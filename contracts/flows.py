"""cashflow lists and payoffs (F01 - F04), products (L01), tables (L02)"""
from . import contract
from .basics import _w

CF = 'cashflows.cashflow'
PO = 'cashflows.payoffs'
CT = 'cashflows.contingent'
OP = 'models.optionpricing'


# ---------------------------------------------------------------- F01

@contract('F01', bound=3)
def lookup(V):
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 0)
    ds = V.times('d', k, n)
    am = V.reals('a', n, -1e6, 1e6)
    px, py = V.shuffle('order', ds, am)
    cls = V.choice('class', ['CashFlowList', 'FixedCashFlowList'])
    c = getattr(M, cls)(list(px), list(py))
    V.eq(tuple(c.domain), tuple(px), 'dates in order')
    for d, a in zip(ds, am):
        V.eq(c[V.clone(d)], a, 'given amount')
    x = V.time('x', k, near=ds)
    V.eq(c[x], V.sum(n, lambda i: V.If(ds[i] == x, am[i], 0.0)),
         'amount or zero')
    V.eq(list(c[list(px)]), list(py), 'list of dates')
    V.eq(list(c[tuple(px) + (x,)]), list(py) + [c[x]], 'tuple of dates')
    if n:
        V.eq(c.origin, px[0], 'origin')
        o = V.time('o', k)
        V.eq(getattr(M, cls)(list(px), list(py), o).origin, o, 'given origin')


@contract('F01', bound=3, unbounded=True)
def one_amount_for_all(V):
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n)
    a = V.real('a', -1e6, 1e6)
    cls = V.choice('class', ['CashFlowList', 'FixedCashFlowList'])
    c = getattr(M, cls)(list(ds), a)
    V.eq(list(c[list(ds)]), [a] * n, 'same amount at every date')
    V.eq(tuple(c.domain), tuple(ds), 'dates in order')


@contract('F01', bound=3, unbounded=True)
def unequal_lengths(V):
    M = V.mod(CF)
    k = V.kind('num', 'date')
    n = V.length('n', 0)
    m = V.length('m', 0)
    if n == m:
        return
    ds = V.times('d', k, n)
    am = V.reals('a', m, -1e6, 1e6)
    cls = V.choice('class', ['CashFlowList', 'FixedCashFlowList'])
    V.raises(ValueError, lambda: getattr(M, cls)(ds, am), 'unequal lengths')


@contract('F01', bound=2, unbounded=True)
def fixed_from_list(V):
    """a cashflow list turned into a fixed one keeps dates and amounts"""
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n)
    am = V.reals('a', n, -1e6, 1e6)
    c = M.CashFlowList(ds, am)
    f = M.FixedCashFlowList(c)
    V.eq(tuple(f.domain), tuple(ds), 'dates')
    V.eq(list(f[list(ds)]), am, 'amounts')
    g = c()
    V.eq(list(g[list(ds)]), am, 'called: amounts')
    V.eq(tuple(g.domain), tuple(ds), 'called: dates')


@contract('F01', bound=2, split=4, weight=2,
          unbounded=True, ubudget=3, usplit=4)
def legs(V):
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    m = 2 if V.symbolic else V.length('legs', 1, 5)
    pool = V.times('d', k, 3 if V.symbolic else V.length('pool', 1, 8))
    lg, pays, orgs = [], [], []
    for j in range(m):
        kind = V.choice('leg%d' % j, [0, 1] if V.symbolic else [0, 1, 2])
        on = [i for i, b in enumerate(V.subset('on%d' % j, len(pool))) if b]
        if not on:
            on = [j % len(pool)]
        ds = [V.clone(pool[i]) for i in on]
        am = V.reals('a%d' % j, len(on), -1e6, 1e6)
        o = V.time('o%d' % j, k, before=ds[0]) if V.boolean('given%d' % j) \
            or kind == 2 else None
        if kind == 0:
            leg = M.CashFlowList(ds, am, o)
        elif kind == 1:
            leg = M.FixedCashFlowList(ds, am, o)
        else:
            leg = M.RateCashFlowList(ds, am, o, fixed_rate=.03)
            am = [leg[d] for d in ds]
        lg.append(leg)
        pays.append(dict(zip(on, am)))
        orgs.append(ds[0] if o is None else o)
    c = M.CashFlowLegList(lg)
    used = [i for i in range(len(pool)) if any(i in p for p in pays)]
    V.eq(tuple(c.domain), tuple(pool[i] for i in used), 'union of dates')
    for i in used:
        tot = 0.0
        for p in pays:
            tot = tot + p.get(i, 0.0)
        V.eq(c[V.clone(pool[i])], tot, 'sum of the legs')
    for o in orgs:
        V.check(c.origin <= o, 'earliest origin')
    V.check(V.Or(*[c.origin == o for o in orgs]), 'an origin of the legs')
    x = V.time('x', k)
    V.assume(V.And(*[x != d for d in pool]))
    V.eq(c[x], 0.0, 'nothing else')
    V.eq(len(c.legs), m, 'legs')


@contract('F01', unbounded=True)
def legs_refuse_others(V):
    M = V.mod(CF)
    n = V.choice('what', [None, 1.0, 'leg', object()])
    V.raises(ValueError, lambda: M.CashFlowLegList([n]), 'no leg')


# ---------------------------------------------------------------- F02

def forward_of(V, near=None):
    """(forward curve argument, its rate at a date)"""
    how = V.choice('forward', ['none', 'number', 'cash', 'function', 'holder',
                               'model', 'zero'])
    if how == 'none':
        return None, lambda d: 0.0
    if how == 'zero':
        return 0.0, lambda d: 0.0
    if how == 'number':
        r = V.real('fwd', -.05, .2)
        return r, lambda d: r
    f = V.func('fwd', -.05, .2)
    if how == 'function':
        return f, f

    class Cash(object):
        def get_cash_rate(self, d):
            return f(d)
    if how == 'cash':
        return Cash(), f
    if how == 'holder':
        class Holder(object):
            forward_curve = Cash()
        return Holder(), f
    O = V.mod(OP)
    return O.OptionPayOffModel(forward_curve=Cash()), f


def offset(V, name, k):
    how = V.choice(name, [0, 1])
    if not how:
        return None
    if k == 'num':
        return V.real(name + 'x', 0, .3)
    n = V.choice(name + 'n', [1, 2] if V.symbolic else [1, 2, 5, 30])
    if k == 'bd':
        return '%dD' % n
    import datetime
    if V.symbolic:
        from vc.engine import SDelta, SInt
        return SDelta(SInt(n))
    return datetime.timedelta(n)


def back(t, o):
    return t - o if o else t


@contract('F02', unbounded=True)
def rate_payoff(V):
    P = V.mod(PO)
    k = V.kind('num', 'date', 'bd')
    s = V.time('s', k)
    e = V.time('e', k, after=s)
    dc = V.daycount()
    yf = dc or V.yf
    fo = offset(V, 'fixing', k)
    N = V.real('N', -1e6, 1e6)
    c = V.real('c', -.1, .2)
    arg, f = forward_of(V)
    p = P.RateCashFlowPayOff(s, e, N, dc, fo, c)
    V.eq(p(arg), N * yf(s, e) * (c + f(back(s, fo))), 'interest payment')
    V.eq(p(), N * yf(s, e) * c, 'without forward curve')
    d = p.details(arg)
    V.eq(d['cashflow'], p(arg), 'details')
    V.eq(d['year fraction'], yf(s, e), 'year fraction')
    V.eq(d['notional'], N, 'notional')
    V.eq(d['fixed rate'], c, 'fixed rate')
    V.eq([d['start date'], d['end date']], [s, e], 'period')


@contract('F02', bound=3, split=4, weight=2)
def rate_list(V, cls=None):
    M = V.mod(CF)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    if not V.symbolic:
        ds = V.times('d', k, n, mingap=.1)
        o = V.time('o', k, before=ds[0])
        if k == 'num' and V.boolean('origin zero'):
            V.assume(ds[0] > 0)
            o = 0.0
    else:
        ds = V.times('d', k, n)
        o = V.time('o', k, before=ds[0])
    dc = V.daycount()
    yf = dc or V.yf
    fo = offset(V, 'fixing', k)
    po = offset(V, 'pay', k)
    if V.boolean('one amount'):
        N = V.real('N', -1e6, 1e6)
        am = [N] * n
    else:
        N = am = V.reals('N', n, -1e6, 1e6)
    c = V.real('c', -.1, .2)
    arg, f = forward_of(V) if not V.symbolic else (lambda g: (g, g))(
        V.func('fwd'))
    l = M.RateCashFlowList(list(ds), N, o, dc, fo, po, c, arg)
    V.eq(tuple(l.domain), tuple(ds), 'payment dates')
    V.eq(l.origin, o, 'origin')
    V.eq(l.fixed_rate, c, 'fixed rate')
    prev = None
    for i, t in enumerate(ds):
        p = l.payoff(V.clone(t))
        V.eq(p.end, back(t, po), 'ends at payment date less pay offset')
        if i:
            V.eq(p.start, prev, 'starts where the previous ends')
        elif not po:
            V.eq(p.start, o, 'starts at origin')
        prev = p.end
        fix = back(p.start, fo)
        V.eq(l[V.clone(t)], am[i] * yf(p.start, p.end) * (c + f(fix)),
             'interest payment')
    V.eq(list(l[list(ds)]), [l[t] for t in ds], 'list of dates')
    x = V.time('x', k, near=ds)
    V.assume(V.And(*[x != t for t in ds]))
    V.eq(l[x], 0.0, 'nothing at other dates')


@contract('F02', bound=3)
def rate_list_without_origin(V):
    M = V.mod(CF)
    k = V.kind('num', 'date')
    n = V.length('n', 2)
    ds = V.times('d', k, n, mingap=.1)
    dc = V.daycount()
    yf = dc or V.yf
    am = V.reals('N', n, -1e6, 1e6)
    c = V.real('c', -.1, .2)
    l = M.RateCashFlowList(list(ds), am, None, dc, None, None, c)
    first = ds[0] - (ds[1] - ds[0])
    V.eq(l.payoff(ds[0]).start, first, 'one regular step before')
    V.eq(l[ds[0]], am[0] * yf(first, ds[0]) * c, 'first payment')
    for i in range(1, n):
        p = l.payoff(ds[i])
        V.eq([p.start, p.end], [ds[i - 1], ds[i]], 'period')
        V.eq(l[ds[i]], am[i] * yf(ds[i - 1], ds[i]) * c, 'payment')


@contract('F02', bound=2)
def fixed_rate_setter(V):
    """the fixed rate set on a list is paid by each of its cashflows"""
    M, C = V.mod(CF), V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0])
    am = V.reals('N', n, -1e6, 1e6)
    f = V.func('fwd', -.05, .2)
    if V.boolean('contingent'):
        l = C.ContingentRateCashFlowList(ds, am, o, fixed_rate=.01,
                                         payoff_model=f)
    else:
        l = M.RateCashFlowList(ds, am, o, fixed_rate=.01, forward_curve=f)
    c = V.real('c', -.1, .2)
    l.fixed_rate = c
    V.eq(l.fixed_rate, c, 'fixed rate')
    s = o
    for i, t in enumerate(ds):
        V.eq(l[t], am[i] * V.yf(s, t) * (c + f(s)), 'payment')
        s = t


# ---------------------------------------------------------------- F03

def strikes(V):
    """floor strike, cap strike (floor at most cap) or None"""
    how = V.choice('collar', ['none', 'floor', 'cap', 'both', 'both'])
    K = L = None
    if how in ('floor', 'both'):
        K = V.real('K', -.05, .1, special=(0.,))
    if how in ('cap', 'both'):
        L = V.real('L', -.05, .2, special=(0.,))
    if how == 'both':
        V.assume(K <= L)
    return K, L


def collar(V, f, K, L):
    r = f
    if L is not None:
        r = V.min(r, L)
    if K is not None:
        r = V.max(K, r)
    return r


@contract('F03', weight=2, split=3, unbounded=True, ubudget=4)
def intrinsic_collar(V):
    P = V.mod(PO)
    I = V.mod('models.intrinsic')
    k = V.kind('num', 'date', 'bd')
    s = V.time('s', k)
    e = V.time('e', k, after=s)
    v = V.time('v', k, near=[s])
    dc = V.daycount()
    yf = dc or V.yf
    fo = offset(V, 'fixing', k)
    N = V.real('N', -1e6, 1e6)
    c = V.real('c', -.1, .2)
    K, L = strikes(V)
    f = V.func('fwd', -.05, .2)

    class Cash(object):
        def get_cash_rate(self, d):
            return f(d)
    fc = V.choice('curve', [f, Cash()])
    vol = V.choice('vol', [None, .2])
    m = I.IntrinsicOptionPayOffModel(valuation_date=v, forward_curve=fc,
                                     volatility_curve=vol)
    p = P.ContingentRateCashFlowPayOff(s, e, N, dc, fo, c, K, L)
    r = collar(V, f(back(s, fo)), K, L)
    V.eq(p(m), N * yf(s, e) * (r + c), 'capped and floored rate', tol=1e-8)
    V.eq(p(fc), N * yf(s, e) * (f(back(s, fo)) + c), 'forward only')
    V.eq(p(), N * yf(s, e) * c, 'fixed only')


def stub_model(V, f, v=None):
    """an option model with arbitrary values"""
    O = V.mod(OP)
    call = V.func('call', 0, .1)
    put = V.func('put', 0, .1)

    class Stub(O.OptionPayOffModel):
        def get_call_value(self, date, strike=None):
            return call(*((date,) if strike is None else (date, strike)))

        def get_put_value(self, date, strike=None):
            return put(*((date,) if strike is None else (date, strike)))
    return Stub(valuation_date=v, forward_curve=f), call, put


@contract('F03', unbounded=True)
def any_model(V):
    P = V.mod(PO)
    k = V.kind('num', 'date', 'bd')
    s = V.time('s', k)
    e = V.time('e', k, after=s)
    v = V.time('v', k, near=[s])
    dc = V.daycount()
    fo = offset(V, 'fixing', k)
    N = V.real('N', -1e6, 1e6)
    c = V.real('c', -.1, .2)
    K, L = strikes(V)
    f = V.func('fwd', -.05, .2)
    how = V.choice('curve', ['none', 'function'])
    m, call, put = stub_model(V, None if how == 'none' else f, v)
    plain = P.RateCashFlowPayOff(s, e, N, dc, fo, c)
    p = P.ContingentRateCashFlowPayOff(s, e, N, dc, fo, c, K, L)
    yf = (dc or V.yf)(s, e)
    fix = back(s, fo)
    r = plain(m.forward_curve)
    if K is not None:
        r = r + N * yf * put(fix, K)
    if L is not None:
        r = r - N * yf * call(fix, L)
    V.eq(p(m), r, 'plain plus floorlet less caplet', tol=1e-8)


@contract('F03', bound=3, split=4)
def collared_list(V):
    """periods, rates and values of a list of collared cashflows"""
    M, C = V.mod(CF), V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    o = V.time('o', k, before=ds[0]) if k == 'bd' or n < 2 or \
        V.boolean('given') else None
    if not V.symbolic and k == 'num' and V.boolean('zero') and ds[0] > 0:
        o = 0.0
    v = V.time('v', k, near=ds)
    dc = V.daycount()
    fo = offset(V, 'fixing', k)
    po = offset(V, 'pay', k)
    if V.boolean('one amount'):
        N = V.real('N', -1e6, 1e6)
        am = [N] * n
    else:
        N = am = V.reals('N', n, -1e6, 1e6)
    c = V.real('c', -.1, .2)
    K, L = strikes(V) if not V.symbolic else (V.real('K'), V.real('L'))
    f = V.func('fwd', -.05, .2)
    m, call, put = stub_model(V, f, v)
    u = M.RateCashFlowList(list(ds), am, o, dc, fo, po, c, f)
    l = C.ContingentRateCashFlowList(list(ds), N, o, dc, fo, po, c, L, K, m)
    V.eq(tuple(l.domain), tuple(ds), 'payment dates')
    V.eq(l.origin, u.origin, 'origin')
    for i, t in enumerate(ds):
        p, q = l.payoff(t), u.payoff(t)
        V.eq([p.start, p.end], [q.start, q.end], 'periods as uncollared')
        yf = (dc or V.yf)(q.start, q.end)
        fix = back(q.start, fo)
        r = u[t]
        if K is not None:
            r = r + am[i] * yf * put(fix, K)
        if L is not None:
            r = r - am[i] * yf * call(fix, L)
        V.eq(l[V.clone(t)], r, 'plain plus floorlet less caplet', tol=1e-8)
    V.eq(list(l[list(ds)]), [l[t] for t in ds], 'list of dates')


# ---------------------------------------------------------------- F04

@contract('F04', unbounded=True)
def option_payoff(V):
    P = V.mod(PO)
    k = V.kind('num', 'date', 'bd')
    x = V.time('x', k)
    v = V.time('v', k, near=[x])
    N = V.real('N', -1e6, 1e6)
    K = V.real('K', -.05, 200, special=(0.,)) if V.boolean('strike') else None
    isput = V.boolean('put')
    m, call, put = stub_model(V, V.func('fwd', -.05, .2), v)
    p = P.OptionCashFlowPayOff(x, N, K, isput)
    a = (x,) if K is None else (x, K)
    V.eq(p(m), N * (put(*a) if isput else call(*a)), 'notional x value')
    V.eq(p(), 0.0, 'nothing without model')
    V.eq(p.details(m)['cashflow'], p(m), 'details')


@contract('F04', bound=2, split=3)
def option_list(V):
    C = V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    v = V.time('v', k, near=ds)
    fo = offset(V, 'fixing', k)
    po = offset(V, 'pay', k)
    m, call, put = stub_model(V, V.func('fwd', -.05, .2), v)
    if V.boolean('lists'):
        N = am = V.reals('N', n, -1e6, 1e6)
        K = ks = [V.real('K%d' % i, -.05, 200) if b else None
                  for i, b in enumerate(V.subset('strike', n))]
        isput = ip = V.subset('put', n)
    else:
        N = V.real('N', -1e6, 1e6)
        am = [N] * n
        K = V.real('K', -.05, 200, special=(0.,))
        ks = [K] * n
        isput = V.boolean('put')
        ip = [isput] * n
    l = C.OptionCashflowList(list(ds), N, K, isput, fo, po, payoff_model=m)
    V.eq(tuple(l.domain), tuple(ds), 'payment dates')
    for i, t in enumerate(ds):
        x = back(back(t, po), fo)
        V.eq(l.payoff(t).expiry, x, 'expiry')
        a = (x,) if ks[i] is None else (x, ks[i])
        V.eq(l[V.clone(t)], am[i] * (put(*a) if ip[i] else call(*a)),
             'notional x value')
    l.payoff_model = None
    V.eq(l[ds[0]], 0.0, 'nothing without model')


def strategy_args(V, top):
    nc, np_ = V.length('calls', 0, top), V.length('puts', 0, top)
    cs = V.reals('Kc', nc, -.05, 200)
    ps = V.reals('Kp', np_, -.05, 200)
    if V.boolean('single notional'):
        a, b = V.real('Nc', -1e6, 1e6), V.real('Np', -1e6, 1e6)
        return a, cs, b, ps, [a] * nc, [b] * np_
    a, b = V.reals('Nc', nc, -1e6, 1e6), V.reals('Np', np_, -1e6, 1e6)
    return a, cs, b, ps, a, b


@contract('F04', bound=2, split=3)
def strategy_payoff(V):
    P = V.mod(PO)
    k = V.kind('num', 'date', 'bd')
    x = V.time('x', k)
    v = V.time('v', k, near=[x])
    m, call, put = stub_model(V, V.func('fwd', -.05, .2), v)
    a, cs, b, ps, an, bn = strategy_args(V, 5)
    p = P.OptionStrategyCashFlowPayOff(x, a, list(cs), b, list(ps))
    r = V.sum(len(cs), lambda i: an[i] * call(x, cs[i])) + \
        V.sum(len(ps), lambda i: bn[i] * put(x, ps[i]))
    V.eq(p(m), r, 'sum of options', tol=1e-8)
    V.eq(p(), 0.0, 'nothing without model')


@contract('F04', bound=1, split=3)
def strategy_list(V):
    C = V.mod(CT)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ds = V.times('d', k, n, mingap=.1)
    v = V.time('v', k, near=ds)
    fo = offset(V, 'fixing', k)
    po = offset(V, 'pay', k)
    m, call, put = stub_model(V, V.func('fwd', -.05, .2), v)
    a, cs, b, ps, an, bn = strategy_args(V, 5)
    l = C.OptionStrategyCashflowList(list(ds), a, list(cs), b, list(ps), fo,
                                     po, payoff_model=m)
    V.eq(tuple(l.domain), tuple(ds), 'payment dates')
    for t in ds:
        x = back(back(t, po), fo)
        r = V.sum(len(cs), lambda i: an[i] * call(x, cs[i])) + \
            V.sum(len(ps), lambda i: bn[i] * put(x, ps[i]))
        V.eq(l[V.clone(t)], r, 'same strategy at every date', tol=1e-8)


# ---------------------------------------------------------------- L01

PR = 'cashflows.products'
BOUND = 3


def product_times(V):
    """kind, start, end, period"""
    k = V.kind('num', 'date') if V.symbolic else V.kind('num', 'date', 'bd')
    V.bounded('at most %d periods' % BOUND)
    s = V.time('s', k)
    if k == 'num':
        if V.symbolic:
            p = V.real('period', gt=0)
            e = V.time('e', k, after=s)
            V.assume(e <= s + p * BOUND)
        else:
            s = round(s * 8) / 8.
            p = V.choice('period', [.125, .25, .5, 1.0, 2.0])
            e = s + .125 * V.length('m', 1, 80)
        return k, s, e, p
    if k == 'date':
        n = V.integer('period', 1, 400) if not V.symbolic else None
        if V.symbolic:
            from vc.engine import SDelta, SInt, INT, z3
            m = SInt(z3.Int('perioddays'))
            V.assume(m >= 1)
            p = SDelta(m)
            e = V.time('e', k, after=s)
            V.assume(e <= s + p * BOUND)
        else:
            import datetime
            p = datetime.timedelta(n)
            e = s + datetime.timedelta(V.integer('life', 1, 12 * n))
        return k, s, e, p
    from businessdate import BusinessDate, BusinessPeriod
    s = BusinessDate(s).adjust('follow')
    per = V.choice('period', ['1M', '3M', '6M', '1Y'])
    e = s + BusinessPeriod(V.choice('life', ['1M', '2M', '1Y', '18M', '5Y',
                                             '7Y', '100D', '1000D']))
    return k, s, e, V.choice('pclass', [per, BusinessPeriod(per)])


def adjust_args(V, k):
    if V.symbolic or k != 'bd':
        return {}
    import datetime
    return {'convention': V.choice('conv', ['mod_follow', 'follow', 'no',
                                            'previous']),
            'holidays': V.choice('hol', [
                None, [], [datetime.date(2022, 12, 26),
                           datetime.date(2023, 6, 15)]])}


def day_counter(V, name, k):
    f = V.choice(name, [1.0, 365.25 / 360])
    return lambda s, e: V.yf(s, e) * f


def check_leg(V, k, leg, s, e, adj, back_=None):
    """increasing dates up to the adjusted end, no gap from start to end"""
    ds = list(leg.domain)
    for a, b in zip(ds[:-1], ds[1:]):
        V.check(a < b, 'payment dates increase')
    end = e
    if k == 'bd':
        end = type(e)(e).adjust(adj['convention'], adj['holidays'])
    V.eq(ds[-1], end, 'last payment at the adjusted end date')
    prev = s
    for d in ds:
        p = leg.payoff(d)
        V.eq(p.start, prev, 'no gap')
        V.eq(p.end, d, 'period ends at payment')
        V.check(p.start < p.end, 'period is not empty')
        prev = p.end
    return ds


def proper(V, k, s, e, per, adj):
    """schedules without an empty period after adjustment"""
    if k != 'bd':
        return
    from businessdate import BusinessDate, BusinessPeriod, BusinessSchedule
    P = BusinessPeriod(per)
    d, i = e, 1
    while d > s:
        last = d
        d = e - P * i if hasattr(P, '__mul__') else e
        i += 1
    V.assume((last - s).max_days() > 6)


@contract('L01', bound=1, ticks=8, split=3, unbounded=True, ubudget=1)
def bond(V):
    P = V.mod(PR)
    k, s, e, per = product_times(V)
    adj = adjust_args(V, k)
    proper(V, k, s, e, per, adj)
    c = V.real('c', -.05, .2)
    f = V.func('fwd', -.05, .2) if V.boolean('float') else None
    dc = day_counter(V, 'dc', k)
    plan = V.boolean('plan')
    kw = dict(adj, day_count=dc, fixed_rate=c, forward_curve=f)
    N = V.real('N', -1e6, 1e6)
    if plan:
        n = len(P.bond(s, e, per, notional_amount=1.0, **kw).legs[1].domain)
        am = V.reals('am', n, -1e6, 1e6)
        b = P.bond(s, e, per, notional_amount=list(am), **kw)
        V.raises(ValueError, lambda: P.bond(
            s, e, per, notional_amount=am + [1.0], **kw), 'plan length')
        total = V.sum(n, lambda i: am[i])
    else:
        b = P.bond(s, e, per, notional_amount=N, **kw)
        total = N
    V.eq(len(b.legs), 2, 'two legs')
    nl, cl = b.legs
    ds = check_leg(V, k, cl, s, e, adj)
    V.eq(nl[V.clone(s)], -total, 'notional paid at start')
    V.eq(nl.domain[0], s, 'start')
    rest = 0.0
    for d in nl.domain[1:]:
        rest = rest + nl[d]
    V.eq(rest, total, 'notional repaid', tol=1e-8)
    V.check(nl.domain[-1] == (ds[-1] if plan else e), 'repaid until the end')
    out = total
    for i, d in enumerate(ds):
        p = cl.payoff(d)
        r = c if f is None else c + f(p.start)
        V.eq(p.amount, out, 'outstanding notional', tol=1e-7)
        V.eq(cl[d], out * dc(p.start, p.end) * r, 'interest', tol=1e-6)
        if plan:
            V.eq(nl[d], am[i], 'redemption plan')
            out = out - am[i]
    V.eq(b.origin, s, 'starts at start')
    for d in list(b.domain)[:3]:
        V.eq(b[d], nl[d] + cl[d], 'total cashflow', tol=1e-8)


@contract('L01', bound=1, ticks=8, split=3, unbounded=True, ubudget=1)
def swap(V):
    P = V.mod(PR)
    k, s, e, per = product_times(V)
    adj = adjust_args(V, k)
    proper(V, k, s, e, per, adj)
    if V.symbolic:
        rper = per
    elif k == 'bd':
        rper = V.choice('rec', ['1M', '3M', '6M', '1Y'])
        proper(V, k, s, e, rper, adj)
    else:
        rper = per * V.choice('rec', [1, 2, 4])
    c, q = V.real('c', -.05, .2), V.real('q', -.05, .2)
    f, g = V.func('fwd', -.05, .2), V.func('rfwd', -.05, .2)
    if V.boolean('fixed'):
        f = None
    dc, rc = day_counter(V, 'dc', k), day_counter(V, 'rc', k)
    N = V.real('N', -1e6, 1e6)
    kw = dict(adj)
    if k != 'bd':
        kw['holidays'] = None
    w = P.interest_rate_swap(
        s, e, per, notional_amount=N, day_count=dc, fixed_rate=c,
        forward_curve=f, rec_leg_period=rper, rec_leg_day_count=rc,
        rec_leg_fixed_rate=q, rec_leg_forward_curve=g, **kw)
    V.eq(len(w.legs), 2, 'two legs')
    pay, rec = w.legs
    for leg, n, y, r, h in ((pay, -N, dc, c, f), (rec, N, rc, q, g)):
        for d in check_leg(V, k, leg, s, e, adj):
            p = leg.payoff(d)
            V.eq(leg[d], n * y(p.start, p.end) * (
                r if h is None else r + h(p.start)), 'interest', tol=1e-8)
    V.eq(w.origin, s, 'starts at start')


# ---------------------------------------------------------------- L02

@contract('L02', bound=2, split=4)
def table_of_grids(V):
    C = V.mod('curves.curve')
    k = V.kind('num', 'date')
    n = V.length('x', 1, 6)
    m = V.length('y', 1, 5)
    xs = V.times('x', k, n)
    if k == 'num':
        ys = V.reals('y', m, 0, 3)
    elif V.symbolic:
        from vc.engine import SDelta, SInt, z3
        ys = [SDelta(SInt(z3.Int('y%d' % i))) for i in range(m)]
    else:
        import datetime
        ys = [datetime.timedelta(V.integer('y%d' % i, 0, 900))
              for i in range(m)]
    f = V.func('f')
    t = C.rate_table(f, list(xs), tuple(ys))
    V.eq(len(t), n + 1, 'a row per grid date')
    V.eq(t[0][0], '', 'header')
    V.eq(list(t[0][1:]), list(ys), 'header')
    for i, x in enumerate(xs):
        row = t[i + 1]
        V.eq(row[0], x, 'starts with the date')
        end = xs[i + 1] if i + 1 < n else x + ys[-1] + ys[-1]
        req = [f(x + y) for y in ys if x + y < end]
        V.eq(list(row[1:]), req, 'curve values')


@contract('L02', bound=2)
def table_default_grid(V):
    """the grid is taken from the curve, the origin put first if missing"""
    C = V.mod('curves.curve')
    k = V.kind('num', 'date')
    n = V.length('n', 2, 6)
    ts = V.times('t', k, n, mingap=.1)
    org = V.time('o', k, before=ts[0]) if V.boolean('origin') else None
    c = C.DateCurve(list(ts), V.reals('v', n), V.interp('i'), origin=org)
    if k == 'num':
        ys = [0.0, V.real('y', .01, 2, gt=0)]
    elif V.symbolic:
        from vc.engine import SDelta, SInt
        ys = [SDelta(SInt(0)), SDelta(SInt(100))]
    else:
        import datetime
        ys = [datetime.timedelta(0), datetime.timedelta(100)]
    t = C.rate_table(c, y_grid=ys)
    xs = ([] if org is None else [org]) + list(ts)
    V.eq(len(t), len(xs) + 1, 'a row per curve point and origin')
    for i, x in enumerate(xs):
        V.eq(t[i + 1][0], x, 'grid date')
        end = xs[i + 1] if i + 1 < len(xs) else x + ys[-1] + ys[-1]
        V.eq(list(t[i + 1][1:]), [c(x + y) for y in ys if x + y < end],
             'curve values', tol=1e-9)


@contract('L02', bound=1, sym=False)
def table_of_business_dates(V):
    from businessdate import BusinessPeriod
    C = V.mod('curves.curve')
    n = V.length('n', 2, 6)
    ts = V.times('t', 'bd', n, mingap=.1)
    I = V.mod('curves.interestratecurve')
    c = I.ZeroRateCurve(list(ts), V.reals('v', n, -.1, .2))
    ys = ['0D', '1M', '3M', '1Y'][:V.length('m', 1, 4)]
    if V.boolean('periods'):
        ys = [BusinessPeriod(y) for y in ys]
    t = C.rate_table(c, y_grid=ys)
    V.eq(list(t[0]), [''] + list(ys), 'header')
    V.eq(len(t), n + 1, 'rows')
    for i, x in enumerate(ts):
        end = ts[i + 1] if i + 1 < n else x + ys[-1] + ys[-1]
        V.eq(list(t[i + 1]), [x] + [c(x + y) for y in ys if x + y < end],
             'row')
