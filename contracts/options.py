"""option payoff models (G01 - G06)"""
from . import contract
from .basics import _w

OP = 'models.optionpricing'
MODS = ('models.bachelier', 'models.black76', 'models.displaced',
        'models.intrinsic')
DI = 'models.distibutions'
PRICED = ('normal', 'lognormal', 'displaced', 'intrinsic')


def abstract_normal(V):
    """normal distribution functions by contract: arbitrary functions"""
    D = V.mod(DI)
    if not V.symbolic:
        return D.normal_cdf, D.normal_pdf
    cdf, pdf = V.func('Phi'), V.func('phi')
    old = {'normal_cdf': (D.normal_cdf, cdf), 'normal_pdf': (D.normal_pdf,
                                                             pdf)}
    for m in MODS + (DI,):
        M = V.mod(m)
        for n, (o, f) in old.items():
            if vars(M).get(n) is o:
                V.patch(M, n, f)
    return cdf, pdf


def build(V, which, **kw):
    if which == 'normal':
        return V.mod('models.bachelier').NormalOptionPayOffModel(**kw), 0.0
    if which == 'lognormal':
        return V.mod('models.black76').LogNormalOptionPayOffModel(**kw), 0.0
    if which == 'displaced':
        a = V.real('displacement', -.5, 1, special=(0.,))
        return V.mod('models.displaced').DisplacedLogNormalOptionPayOffModel(
            displacement=a, **kw), a
    return V.mod('models.intrinsic').IntrinsicOptionPayOffModel(**kw), 0.0


def positive_args(V, which, f, K, a, shift=False):
    """the domain of the (displaced) Black model"""
    if which in ('lognormal', 'displaced'):
        V.assume(V.And(f + a > 0, K + a > 0))
        if shift:
            V.assume(f + a > 2e-4)
        _w(V, 0, V.symbolic or (f + a > 1e-3 and K + a > 1e-3))


def market(V, which=None, vol0=True, time0=True, slim=False):
    """valuation date, expiry, time, strike, forward, vol"""
    k = 'num' if slim and V.symbolic else V.kind('num', 'date', 'bd')
    v = V.time('v', k)
    x = V.time('x', k, lo=v) if time0 else V.time('x', k, after=v)
    dc = None if slim and V.symbolic else V.daycount()
    t = (dc or V.yf)(v, x)
    f = V.real('F', -1, 5)
    s = V.real('vol', 1e-3, 1.5, gt=0)
    K = f if V.boolean('atm') else V.real('K', -1, 5)
    if vol0 and V.boolean('no vol'):
        s = 0.0
    _w(V, 0, V.symbolic or not s or (t == 0 or s * s * t > 1e-8))
    if not V.symbolic and K is not f and s and t:
        # d = (F - K) / (vol sqrt(t)) of moderate size
        V.assume(abs(f - K) < 30 * s * V.sqrt(t) or s * s * t == 0)
    return v, x, dc, t, f, K, s


def abstract_model(V, v, f, s, dc, greeks):
    """a model with an arbitrary price function (and greeks)"""
    O = V.mod(OP)
    price, g = V.func('price', 0, 1), V.func('greek', -1, 1)

    class Abstract(O.OptionPayOffModel):
        def _call_price(self, time, strike, forward, volatility):
            return price(time, strike, forward, volatility)
    if greeks:
        Abstract._call_delta = lambda self, *a: g(1.0, *a)
        Abstract._call_gamma = lambda self, *a: g(2.0, *a)
        Abstract._call_vega = lambda self, *a: g(3.0, *a)
        Abstract._call_theta = lambda self, *a: g(4.0, *a)
    Abstract.DELTA_SHIFT = V.real('dshift', 1e-4, .1, gt=0)
    Abstract.DELTA_SCALE = V.real('dscale', 1e-4, 1, gt=0)
    Abstract.VEGA_SHIFT = V.real('vshift', 1e-3, .1, gt=0)
    Abstract.VEGA_SCALE = V.real('vscale', 1e-4, 1, gt=0)
    m = Abstract(valuation_date=v, forward_curve=f, volatility_curve=s,
                 day_count=dc, bump_greeks=V.choice('bump', [None, True]))
    return m, price, g


def parity(V, m, x, K, f, scale, tol=1e-9):
    V.eq(m.get_call_value(x, K) - m.get_put_value(x, K), f - K,
         'call less put', tol=tol)
    V.eq(m.get_put_delta(x, K), m.get_call_delta(x, K) - scale,
         'put delta', tol=1e-9)
    V.eq(m.get_put_gamma(x, K), m.get_call_gamma(x, K), 'put gamma')
    V.eq(m.get_put_vega(x, K), m.get_call_vega(x, K), 'put vega')
    V.eq(m.get_put_theta(x, K), m.get_call_theta(x, K), 'put theta')


@contract('G01')
def parity_any_model(V):
    v, x, dc, t, f, K, s = market(V)
    m, price, g = abstract_model(V, v, f, s, dc, V.boolean('greeks'))
    parity(V, m, x, K, f, type(m).DELTA_SCALE)
    if K is f:
        V.eq(m.get_call_value(x), m.get_put_value(x), 'at the money')


@contract('G01', split=4, weight=2)
def parity_of_models(V):
    abstract_normal(V)
    which = V.choice('model', PRICED)
    v, x, dc, t, f, K, s = market(V, slim=True)
    m, a = build(V, which, valuation_date=v, forward_curve=f,
                 volatility_curve=s, day_count=dc,
                 bump_greeks=V.choice('bump', [None, True]))
    positive_args(V, which, f, K, a, True)
    parity(V, m, x, K, f, type(m).DELTA_SCALE, 1e-8)


@contract('G02', split=5, weight=2)
def degenerate(V):
    """no volatility or no time"""
    abstract_normal(V)
    which = V.choice('model', PRICED + ('any',))
    k = V.kind('num', 'bd') if V.symbolic else V.kind('num', 'date', 'bd')
    v = V.time('v', k)
    dc = V.daycount()
    f = V.real('F', -1, 5)
    K = V.choice('strike', [None, f, V.real('K', -1, 5)])
    if V.boolean('at expiry'):
        x, s = V.clone(v), V.choice('vol', [0.0, None, V.real(
            's', 0, 2, special=(0.,))])
    else:
        x, s = V.time('x', k), V.choice('novol', [0.0, None])
    bump = V.choice('bump', [None, True])
    if which == 'any':
        m, price, g = abstract_model(V, v, f, s, dc, V.boolean('greeks'))
    else:
        m, a = build(V, which, valuation_date=v, forward_curve=f,
                     volatility_curve=s, day_count=dc, bump_greeks=bump)
    kk = f if K is None else K
    V.eq(m.get_call_value(x, K), V.max(f - kk, 0.0), 'call')
    V.eq(m.get_put_value(x, K), V.max(kk - f, 0.0), 'put')
    unit = type(m).DELTA_SCALE
    V.eq(m.get_call_delta(x, K), V.If(f < kk, 0.0, unit), 'call delta')
    V.eq(m.get_call_gamma(x, K), 0.0, 'gamma')
    V.eq(m.get_call_vega(x, K), 0.0, 'vega')
    V.eq(m.get_call_theta(x, K), 0.0, 'theta')
    V.eq(m.get_put_gamma(x, K), 0.0, 'put gamma')
    V.eq(m.get_put_vega(x, K), 0.0, 'put vega')
    V.eq(m.get_put_theta(x, K), 0.0, 'put theta')
    V.eq(m.get_put_delta(x, K), V.If(f < kk, 0.0, unit) - unit, 'put delta')


@contract('G02')
def intrinsic_model(V):
    """the intrinsic model gives the intrinsic values always"""
    v, x, dc, t, f, K, s = market(V)
    m, _ = build(V, 'intrinsic', valuation_date=v, forward_curve=f,
                 volatility_curve=s, day_count=dc)
    V.eq(m.get_call_value(x, K), V.max(f - K, 0.0), 'call')
    V.eq(m.get_put_value(x, K), V.max(K - f, 0.0), 'put')
    unit = type(m).DELTA_SCALE
    V.eq(m.get_call_delta(x, K), V.If(f < K, 0.0, unit), 'call delta')
    V.eq(m.get_call_gamma(x, K), 0.0, 'gamma')
    V.eq(m.get_call_vega(x, K), 0.0, 'vega')
    V.eq(m.get_call_theta(x, K), 0.0, 'theta')


@contract('G03', split=3, weight=2)
def formulas(V):
    cdf, pdf = abstract_normal(V)
    which = V.choice('model', ['normal', 'lognormal', 'displaced'])
    v, x, dc, t, f, K, s = market(V, vol0=False, time0=False)
    m, a = build(V, which, valuation_date=v, forward_curve=f,
                 volatility_curve=s, day_count=dc)
    positive_args(V, which, f, K, a)
    du, vu = type(m).DELTA_SCALE, type(m).VEGA_SCALE
    sq = V.sqrt(t)
    w = s * sq
    call, delta = m.get_call_value(x, K), m.get_call_delta(x, K)
    if which == 'normal':
        d = (f - K) / w
        V.eq(call, (f - K) * cdf(d) + w * pdf(d), 'Bachelier call')
        V.eq(m.get_call_gamma(x, K), pdf(d) / w * du * du, 'Bachelier gamma')
        V.eq(m.get_call_vega(x, K), sq * pdf(d) * vu, 'Bachelier vega')
    else:
        F, k = f + a, K + a
        d = (V.log(F / k) + w * w / 2) / w
        _w(V, 0, V.symbolic or abs(d) < 30)
        V.eq(call, F * cdf(d) - k * cdf(d - w), 'Black call')
    V.eq(delta, cdf(d) * du, 'call delta')


@contract('G03')
def displaced_is_shifted(V):
    """displaced model = undisplaced one at displaced forward and strike"""
    abstract_normal(V)
    v, x, dc, t, f, K, s = market(V, vol0=False, time0=False)
    kw = dict(valuation_date=v, volatility_curve=s, day_count=dc)
    m, a = build(V, 'displaced', forward_curve=f, **kw)
    F = f + a
    positive_args(V, 'displaced', f, K, a)
    u, _ = build(V, 'lognormal', forward_curve=F, **kw)
    V.eq(m.get_call_value(x, K), u.get_call_value(x, K + a), 'call',
         tol=1e-8)
    V.eq(m.get_put_value(x, K), u.get_put_value(x, K + a), 'put', tol=1e-8)
    V.eq(m.get_call_delta(x, K), u.get_call_delta(x, K + a), 'delta',
         tol=1e-8)
    V.eq(m.get_call_vega(x, K), u.get_call_vega(x, K + a), 'vega', tol=1e-8)


@contract('G04')
def density(V):
    D = V.mod(DI)
    x = V.real('x', -45, 45, special=(0.,))
    p = D.normal_pdf(x)
    V.eq(D.normal_pdf(-x), p, 'symmetric')
    if V.symbolic:
        from vc import normal
        normal.density(V, p, x)
        return
    V.check(p > 0 or abs(x) > 37, 'positive')
    import math
    V.check(abs(p - math.exp(-x * x / 2) / math.sqrt(2 * math.pi)) <= 1e-14,
            'density')


@contract('G04')
def distribution(V):
    D = V.mod(DI)
    x = V.real('x', -9, 9, special=(0.,))
    c = D.normal_cdf(x)
    if V.symbolic:
        from vc import normal
        normal.distribution(V, c, x)
        normal.opposite(V, c + D.normal_cdf(-x), x)
        return
    import math
    V.check(abs(c - .5 * math.erfc(-x / math.sqrt(2))) <= 2e-7, 'exact')
    V.check(0.0 <= c <= 1.0, 'between zero and one')
    V.check(abs(c + D.normal_cdf(-x) - 1.0) <= 2e-7, 'opposite arguments')
    y = V.real('far', 9, 1e4)
    V.check(abs(D.normal_cdf(y) - 1.0) < 1e-15, 'limit one')
    V.check(abs(D.normal_cdf(-y)) < 1e-15, 'limit zero')


# ---------------------------------------------------------------- G05

class _Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


@contract('G05', split=5)
def parameters(V):
    O = V.mod(OP)
    k = V.kind('num', 'date', 'bd')
    v = V.time('v', k)
    x = V.time('x', k)
    f, g, h, u = V.func('fwd'), V.func('vol'), V.func('h'), V.func('u')
    how = V.choice('forward', ['none', 'price', 'rate', 'number', 'zero',
                               'function'])
    fdc = V.boolean('forward day count')
    fd = (lambda s, e: V.yf(s, e) * 3)
    vd = (lambda s, e: V.yf(s, e) * 5)
    md = (lambda s, e: V.yf(s, e) * 7)
    num = V.real('F', -1, 5)
    kw = {'day_count': fd} if fdc and how in ('price', 'rate') else {}
    if how == 'none':
        fc, F = None, 0.0
    elif how == 'zero':
        fc, F = 0.0, 0.0
    elif how == 'number':
        fc, F = num, num
    elif how == 'function':
        fc, F = f, f(x)
    elif how == 'price':
        fc = _Obj(get_forward_price=f, get_cash_rate=h, **kw)
        F = f(x)
    else:
        fc, F = _Obj(get_cash_rate=f, **kw), f(x)
    vow = V.choice('volatility', ['none', 'terminal', 'number', 'function'])
    vkw = {'day_count': vd} if V.boolean('vol day count') and \
        vow == 'terminal' else {}
    vn = V.real('S', .01, 2)
    if vow == 'none':
        vc, S = None, 0.0
    elif vow == 'number':
        vc, S = vn, vn
    elif vow == 'function':
        vc, S = g, g(x)
    else:
        vc, S = _Obj(get_terminal_vol=g, **vkw), g(x)
    own = md if V.boolean('model day count') else None
    m = O.OptionPayOffModel(v, fc, vc, own)
    K = V.choice('strike', [None, 0.0, V.real('K', -1, 5)])
    if V.boolean('time'):
        # only what the calls receive is observable
        d = own or vkw.get('day_count') or kw.get('day_count') or V.yf
        T = d(v, x)
    else:
        T = (own or vkw.get('day_count') or kw.get('day_count') or V.yf)(v, x)
    d = m.details(x, K)
    V.eq(d['strike'], F if K is None else K, 'strike')
    V.eq(d.get('forward', 0.0), F, 'forward')
    V.eq(d.get('volatility', 0.0), S, 'volatility')
    V.eq(d['time to expiry'], T, 'time to expiry')
    # the pricing formula receives these
    got = []
    m._call_price = lambda *a: got.append(a) or u(*a)
    call = m.get_call_value(x, K)
    kk = F if K is None else K
    if got:
        V.eq(list(got[0]), [T, kk, F, S], 'arguments of the formula')
        V.eq(call, u(T, kk, F, S), 'call value')
    else:
        V.check(V.Or(T == 0, S == 0), 'formula not used')
        V.eq(call, V.max(F - kk, 0.0), 'intrinsic')


@contract('G05')
def parameters_of_curves(V):
    """real curves as forward and volatility curve"""
    O, C = V.mod(OP), V.mod('curves.curve')
    k = V.kind('num', 'date', 'bd')
    o = V.time('o', k)
    x = V.time('x', k, after=o)
    v = V.time('v', k)
    p = V.real('p', 1, 200, gt=0)
    s = V.real('s', .01, 1, gt=0)
    fc = C.ForwardCurve([o], [p])
    vc = V.mod('curves.volatilitycurve').TerminalVolatilityCurve([o], [s])
    m = O.OptionPayOffModel(v, fc, vc)
    d = m.details(x)
    V.eq(d['forward'], p, 'forward price')
    V.eq(d['strike'], p, 'at the money')
    V.eq(d['volatility'], s, 'terminal volatility')
    V.eq(d['time to expiry'], V.yf(v, x), 'time')


# ---------------------------------------------------------------- G06

@contract('G06', weight=2)
def difference_quotients(V):
    v, x, dc, t, f, K, s = market(V, vol0=False, time0=False)
    greeks = V.boolean('greeks')
    m, price, g = abstract_model(V, v, f, s, dc, greeks)
    if greeks and not m.bump_greeks:
        V.eq(m.get_call_delta(x, K), g(1.0, t, K, f, s) *
             type(m).DELTA_SCALE, 'analytic delta')
        V.eq(m.get_call_gamma(x, K), g(2.0, t, K, f, s) *
             type(m).DELTA_SCALE * type(m).DELTA_SCALE, 'analytic gamma')
        V.eq(m.get_call_vega(x, K), g(3.0, t, K, f, s) * type(m).VEGA_SCALE,
             'analytic vega')
        V.eq(m.get_call_theta(x, K), g(4.0, t, K, f, s) *
             type(m).THETA_SCALE, 'analytic theta')
        return
    h, u = type(m).DELTA_SHIFT, type(m).DELTA_SCALE
    P = lambda F, S: price(t, K, F, S)  # noqa
    V.eq(m.get_call_delta(x, K), (P(f + h, s) - P(f, s)) / h * u,
         'forward difference quotient')
    V.eq(m.get_call_gamma(x, K), (P(f + h, s) - 2 * P(f, s) + P(f - h, s)) /
         (h * h) * u * u, 'central second difference quotient', tol=1e-7)
    h, u = type(m).VEGA_SHIFT, type(m).VEGA_SCALE
    V.eq(m.get_call_vega(x, K), (P(f, s + h) - P(f, s)) / h * u,
         'vega difference quotient')


@contract('G06', split=4)
def shifts_of_models(V):
    """numerical sensitivities of the given models use shift and unit of
    their class"""
    abstract_normal(V)
    which = V.choice('model', PRICED)
    v, x, dc, t, f, K, s = market(V, vol0=False, time0=False, slim=True)
    m, a = build(V, which, valuation_date=v, forward_curve=f,
                 volatility_curve=s, day_count=dc, bump_greeks=True)
    positive_args(V, which, f, K, a, True)
    h, u = type(m).DELTA_SHIFT, type(m).DELTA_SCALE
    P = lambda F, S: m._call_price(t, K, F, S)  # noqa
    V.eq(m.get_call_delta(x, K), (P(f + h, s) - P(f, s)) / h * u,
         'forward difference quotient', tol=1e-8)
    h, u = type(m).VEGA_SHIFT, type(m).VEGA_SCALE
    V.eq(m.get_call_vega(x, K), (P(f, s + h) - P(f, s)) / h * u,
         'vega difference quotient', tol=1e-8)


@contract('G06')
def binary_model(V):
    O = V.mod(OP)
    v, x, dc, t, f, K, s = market(V, vol0=False, time0=False)
    inner = V.func('inner', 0, 1)
    h = V.real('shift', 1e-3, .1, gt=0) if V.boolean('given') else None
    if V.boolean('formula'):
        m = O.BinaryOptionPayOffModel(inner, h, v, f, s, dc)
    else:
        class Inner(O.OptionPayOffModel):
            def _call_price(self, *a):
                return inner(*a)
        i = Inner(v, f, s, dc)
        over = V.choice('override', ['none', 'zero vol', 'all'])
        if over == 'none':
            m = O.BinaryOptionPayOffModel(i, h)
        elif over == 'zero vol':
            m = O.BinaryOptionPayOffModel(i, h, volatility_curve=0.0)
            V.eq(m.get_call_value(x, K), V.max(f - K, 0.0), 'given zero')
            return
        else:
            j = Inner(x, f + 1, s * 2, None)
            m = O.BinaryOptionPayOffModel(j, h, v, f, s, dc or V.yf)
    if h is None:
        h = O.BinaryOptionPayOffModel.STRIKE_SHIFT
    V.eq(m.get_call_value(x, K), (inner(t, K - h / 2, f, s) -
                                  inner(t, K + h / 2, f, s)) / h,
         'call spread', tol=1e-7)
