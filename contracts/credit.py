"""credit curves: D06"""
from . import contract
from .basics import _w
from .rates import (CRC, FACTOR, STORES_FACTOR, a_curve, interpolation, ok,
                    ok_all, yf, schedule_curve, days_later)

CREDIT = FACTOR[2:]


@contract('D06', bound=1, weight=2, unbounded=True)
def probability_and_intensity(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, CREDIT)
    y = yf(V, dc)
    near = list(ts) + [org]
    a, b = V.time('a', k, near=near), V.time('b', k, near=near)
    if not V.symbolic:
        a = V.choice('start', [a, org, c.origin, ts[0]])
        b = V.choice('stop', [b, org])
    V.assume(a != b)
    ok(V, c, cname, a, b)
    _w(V, 0, V.symbolic or abs(y(a, b)) > 1e-2)
    p, q = c.get_survival_prob(a, b), c.get_flat_intensity(a, b)
    _w(V, 0, V.symbolic or 1e-6 < p < 1e6)
    V.eq(p, V.exp(-q * y(a, b)), 'probability and intensity', tol=1e-8)
    if b != org:
        V.eq(c.get_flat_intensity(b), c.get_flat_intensity(c.origin, b),
             'intensity from origin')
        V.eq(c.get_survival_prob(b),
             V.exp(-c.get_flat_intensity(b) * y(org, b)), 'from origin',
             tol=1e-8)


@contract('D06', bound=1, unbounded=True)
def stored_probability(V):
    """stored values, those outside zero and one clipped into that range"""
    m, name, _, _ = V.choice('cls', CREDIT[:2])
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    org = V.time('origin', k)
    ts = V.times('d', k, n + 1, first=org, mingap=.05)[1:]
    ys = V.reals('p', n, -.5, 1.5, special=(0, 1))
    dc = V.daycount()
    ip = V.interp('i') if V.symbolic else V.choice(
        'ip', [None, 'linear_scheme', 'log_linear_scheme', 'constant'])
    px, py = V.shuffle('order', ts, ys)
    cls = getattr(V.mod(CRC), name)
    c = cls(px, py, ip, origin=org, day_count=dc)

    def one(i):
        y = ys[i] if name == 'SurvivalProbabilityCurve' else 1.0 - ys[i]
        want = V.max(0.0, V.min(1.0, y))
        t = V.clone(ts[i])
        tiny = 1e-12 if V.symbolic else 1e-8
        for got in (c.get_survival_prob(t), c.get_survival_prob(c.origin, t)):
            V.check(V.And(got - want <= tiny, want - got <= tiny),
                    'stored probability')
            V.check(V.And(got >= -tiny, got <= 1 + tiny), 'probability')
    V.forall(n, one)


@contract('D06', bound=2, unbounded=True)
def stored_intensity(V):
    I = V.mod(CRC)
    k = V.kind('num', 'date', 'bd')
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.02)
    ys = V.reals('y', n, 0, .3)
    dc = V.daycount()
    org = V.time('origin', k, near=ts) if V.boolean('given') else None
    c = I.FlatIntensityCurve(ts, ys, interpolation(V, '', False), origin=org,
                             day_count=dc)
    o = ts[0] if org is None else org
    y = yf(V, dc)

    def one(i):
        t = V.clone(ts[i])
        V.eq(c.get_flat_intensity(t), ys[i], 'intensity')
        V.eq(c.get_survival_prob(t), V.exp(-ys[i] * y(o, t)),
             'survival probability', tol=1e-8)
    V.forall(n, one)
    if k == 'bd':
        # proxy over one day at coinciding dates
        x = V.time('x', k, near=list(ts))
        V.assume(x != o)
        e = x + '1D'
        V.eq(c.get_flat_intensity(x, V.clone(x)), c.get_flat_intensity(x, e),
             'coinciding dates', tol=1e-7)
    V.eq(c.get_flat_intensity(o, V.clone(o)), c(o), 'at origin')


@contract('D06', bound=2, unbounded=True, ubudget=3, usplit=9)
def hazard_rate(V):
    c, cname, fac, zr, k, ts, ys, org, dc = a_curve(V, CREDIT, minlen=2)
    n = len(ts)
    ok_all(V, c, cname, ts)
    j = V.index('seg', n - 1)
    x = V.choice('at', [V.time('x', k, after=ts[j], before=ts[j + 1]),
                        V.clone(ts[j])])
    V.assume(x < ts[j + 1])
    # proofs: one claim at a time
    claim = V.choice('claim', [0, 1, 2]) if V.symbolic else None
    if claim in (None, 0):
        V.eq(c.get_hazard_rate(x), c.get_flat_intensity(ts[j], ts[j + 1]),
             'intensity between neighbours', tol=1e-8)
    y = yf(V, dc)
    if not V.symbolic:
        lam = V.log(c.get_survival_prob(org, ts[j]) /
                    c.get_survival_prob(org, ts[j + 1]))
        V.eq(c.get_hazard_rate(x) * y(ts[j], ts[j + 1]), lam,
             'by survival probabilities', tol=1e-7)
    if claim in (None, 1):
        z = V.time('z', k, before=ts[0])
        V.eq(c.get_hazard_rate(z), c.get_hazard_rate(ts[0]),
             'before the first')
    if k == 'bd' and claim in (None, 2):
        w = V.choice('late', [V.time('w', k, after=ts[n - 1]),
                              V.clone(ts[n - 1])])
        V.assume(ts[n - 2] + '1D' <= ts[n - 1])
        V.eq(c.get_hazard_rate(w),
             c.get_flat_intensity(ts[n - 2], ts[n - 1]), 'after the last',
             tol=1e-8)


@contract('D06', bound=2, ticks=6, unbounded=True, ubudget=2)
def hazard_curve(V):
    c, k, ts, ys, org, dc = schedule_curve(V, V.mod(CRC).HazardRateCurve)
    y = yf(V, dc)
    a = V.choice('start', [V.time('a', k, near=list(ts)), org])
    b, d = days_later(V, 'days', a)
    x = V.time('x', k, near=list(ts))
    V.eq(c.get_hazard_rate(x), c(x), 'hazard rate is the stored value')
    V.forall(len(ts), lambda i: V.eq(
        c.get_hazard_rate(V.clone(ts[i])), ys[i], 'stored hazard rate'))
    if d == 0:
        V.eq(c.get_survival_prob(a, b), 1.0, 'no period')
        V.eq(c.get_flat_intensity(a, b), c(a), 'no period')
        return
    V.eq(c.get_survival_prob(a, b),
         V.exp(-c.get_flat_intensity(a, b) * y(a, b)),
         'probability and intensity', tol=1e-8)


@contract('D06', bound=2, ticks=6, unbounded=True, ubudget=4)
def hazard_monotone(V):
    """non negative hazard rates: probabilities that do not increase"""
    c, k, ts, ys, org, dc = schedule_curve(
        V, V.mod(CRC).HazardRateCurve, positive=True, lo=0, gt=None
        if not V.symbolic else 0, ip=None if V.symbolic else V.choice(
            'ip', [None, 'constant', 'linear', 'right'][:2]))
    a = V.choice('start', [V.time('a', k, near=list(ts)), org])
    b, d = days_later(V, 'days', a)
    e, d2 = days_later(V, 'days2', b)
    p, q = c.get_survival_prob(a, b), c.get_survival_prob(a, e)
    V.le(p, 1.0, 'at most one')
    V.le(0.0, q, 'at least zero')
    if V.symbolic:
        # p * chain = q with a factor of at most one
        r = c.get_survival_prob(b, e)
        V.eq(p * r, q, 'chain')
        V.assume(p * r == q)
        V.check(V.And(r > 0, r <= 1), 'factor')
        V.assume(V.And(r > 0, r <= 1))
    V.le(q, p, 'not increasing')


@contract('D06', bound=2, ticks=6, unbounded=True, ubudget=4, usplit=2)
def marginal(V):
    I = V.mod(CRC)
    name = V.choice('cls', ['MarginalSurvivalProbabilityCurve',
                            'MarginalDefaultProbabilityCurve'])
    k = V.kind('bd', 'num')
    tenor = V.choice('tenor', [None, '1M', '6M']) if k == 'bd' else \
        V.real('tenor', .25, 2, gt=0)
    n = V.length('n', 1)
    ts = V.times('d', k, n, mingap=.05)
    ps = V.reals('p', n, .5, .99, gt=.01, lt=.999)
    data = ps if 'Surv' in name else [1.0 - p for p in ps]
    # probabilities vanish nowhere
    ip = V.interp('i', positive=1e-300) if V.symbolic else V.choice(
        'ip', [None, 'linear', 'log_linear_scheme'][:1])
    dc = V.daycount()
    c = getattr(I, name)(ts, data, ip, day_count=dc, forward_tenor=tenor)
    y = yf(V, dc)
    ten = '1Y' if tenor is None else tenor
    a = V.time('a', k, near=list(ts))
    b = V.time('b', k, after=a)
    if not V.symbolic:
        m = V.choice('periods', [0, 0, 1, 2, 5])
        if m:
            b = a
            for _ in range(m):
                b = b + ten
        u = a
        for _ in range(8):
            V.assume(c(u) > 1e-6)
            u = u + ten
            if not u < b:
                break
    p, q = c.get_survival_prob(a, b), c.get_flat_intensity(a, b)
    V.eq(p, V.exp(-q * y(a, b)), 'probability and intensity', tol=1e-7)
    V.forall(n, lambda i: V.eq(
        c.get_survival_prob(ts[i], ts[i] + ten), ps[i], 'stored probability',
        tol=1e-7))
    V.eq(c.get_survival_prob(a, V.clone(a)), 1.0, 'no period')
