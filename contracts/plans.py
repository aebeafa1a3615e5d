"""payment plans (H01, H02) and rating classes (K01)"""
from . import contract
from .basics import _w

PL = 'plans'


def geo(V, q, n):
    """1 + q + ... + q^(n-1)"""
    r, p = 0.0, 1.0
    for _ in range(n):
        r = r + p
        p = p * q
    return r


@contract('H01', bound=6, unbounded=True)
def shapes(V):
    P = V.mod(PL)
    n = V.length('n', 1, 400)
    a = V.real('amount', -1e6, 1e6)
    which = V.choice('plan', ['same', 'bullet', 'amortize', 'consumer'])
    if which == 'same':
        x = P.same(n, a)
        req = lambda i: a  # noqa
    elif which == 'bullet':
        x = P.bullet(n, a)
        req = lambda i: V.If(i == n - 1, a, 0.0)  # noqa
    elif which == 'amortize':
        x = P.amortize(n, a)
        req = lambda i: a / n  # noqa
        V.eq(V.sum(n, lambda i: x[i]), a, 'sums to the amount', tol=1e-8)
    else:
        r = V.real('r', -.5, .5, special=(0.,))
        x = P.consumer(n, a, r)
        req = lambda i: a * (1 + n * r) / n  # noqa
        V.eq(V.sum(n, lambda i: x[i]), a * (1 + n * r),
             'amount plus interest', tol=1e-8)
    V.eq(len(x), n, 'length')
    V.forall(n, lambda i: V.eq(x[i], req(i), 'entry'))


@contract('H01', bound=6, split=3)
def annuity(V):
    P = V.mod(PL)
    n = V.length('n', 1, 120)
    a = V.real('amount', -1e6, 1e6)
    r = V.real('r', -.3, .5, special=(0.,)) if V.boolean('rate') else 0.0
    V.assume(1 + r > 0)
    _w(V, 0, V.symbolic or r == 0 or abs(r) > 1e-5)
    x = P.annuity(n, a, r)
    V.eq(len(x), n, 'length')
    for i in range(n - 1):
        V.eq(x[i + 1], x[i] * (1 + r), 'next is previous times one plus rate',
             tol=1e-8)
    V.eq(V.sum(n, lambda i: x[i]), a, 'sums to the amount', tol=1e-7)
    out = P.outstanding(x, a)
    for i in range(n):
        V.eq(x[i] + r * out[i], x[0] + r * a, 'constant total payment',
             tol=1e-6)


@contract('H01', bound=3)
def defaults(V):
    """amount one if not given"""
    P = V.mod(PL)
    n = V.length('n', 1, 60)
    V.eq(list(P.same(n)), [1.0] * n, 'same')
    V.eq(list(P.bullet(n)), [0.0] * (n - 1) + [1.0], 'bullet')
    V.eq(V.sum(n, lambda i: P.amortize(n)[i]), 1.0, 'amortize')
    V.eq(V.sum(n, lambda i: P.annuity(n)[i]), 1.0, 'annuity')


@contract('H02', bound=5, unbounded=True)
def outstanding(V):
    P = V.mod(PL)
    n = V.length('n', 1, 60)
    a = V.real('amount', -1e6, 1e6)
    x = V.reals('x', n, -1e6, 1e6)
    keep = list(x) if not V.unbounded else x
    how = V.choice('sign', ['default', 'minus', 'plus'])
    o = P.outstanding(x, a, True) if how == 'plus' else \
        P.outstanding(x, a) if how == 'default' else \
        P.outstanding(x, a, False)
    s = 1 if how == 'plus' else -1
    V.eq(len(o), n, 'length')
    V.eq(o[0], a, 'starts with the amount')
    V.forall(n - 1, lambda i: V.eq(o[i + 1], o[i] + s * x[i],
                                   'running balance', tol=1e-9))
    V.eq(x, keep, 'plan untouched')


@contract('H02', bound=5)
def paid_back(V):
    P = V.mod(PL)
    n = V.length('n', 1, 40)
    x = V.reals('x', n, -1e4, 1e4)
    o = P.outstanding(x, V.sum(n, lambda i: x[i]))
    V.eq(o[-1], x[-1], 'last balance is last payment', tol=1e-8)
    which = V.choice('plan', ['amortize', 'annuity', 'bullet'])
    a = V.real('a', 1, 1e6)
    if which == 'annuity':
        r = V.real('r', .001, .5, gt=0)
        p = P.annuity(n, a, r)
    else:
        p = getattr(P, which)(n, a)
    o = P.outstanding(p, a)
    V.eq(o[-1], p[-1], 'last balance of plan', tol=1e-7)


# ---------------------------------------------------------------- K01

RC = 'ratingclass'


def scale(V, R, n, plain=False):
    """values and names of a master scale in some order"""
    lo = V.real('v0', 1e-6, .3, gt=0)
    vs = [lo]
    for i in range(1, n):
        g = V.real('gap%d' % i, 1e-5, .3, gt=2e-7)
        vs.append(vs[-1] + g)
    names = ['R%d' % i for i in range(n)]
    if plain and V.symbolic:
        return vs, names, dict(zip(names[::-1], vs[::-1]))
    px, pn = V.shuffle('order', vs, names)
    d = dict(zip(pn, px))
    if V.boolean('wrapped'):
        d = R.RatingClass.master_scale(d)
    return vs, names, d


@contract('K01', bound=3, split=3, weight=2, budget=3)
def decomposition(V):
    R = V.mod(RC)
    n = V.length('n', 2)
    vs, names, d = scale(V, R, n, True)
    p = V.real('p', 0, 4)
    if not V.symbolic:
        p = V.choice('where', [p, vs[0] + p / 4. * (vs[-1] - vs[0])])
    V.assume(V.And(vs[0] <= p, p <= vs[-1]))
    w = list(R.RatingClass(p, d))
    V.eq(len(w), n, 'one weight per class')
    tot, mix = 0.0, 0.0
    nz = []
    for i in range(n):
        V.check(V.And(w[i] >= 0, w[i] <= 1), 'weight between zero and one')
        tot = tot + w[i]
        mix = mix + w[i] * vs[i]
        if w[i] != 0:
            nz.append(i)
    e = 1.01e-7
    V.check(V.And(tot - 1 <= e, 1 - tot <= e), 'weights add up to one')
    V.check(len(nz) <= 2 and (len(nz) < 2 or nz[1] == nz[0] + 1),
            'at most two neighbouring classes')
    if V.symbolic and n > 2:
        V.ctx.prove_timeout = 12000
    if V.symbolic and len(nz) == 1 and p != vs[nz[0]]:
        i = nz[0]
        up = i == 0 or i + 1 < n and round(p, 7) > round(vs[i], 7)
        nz = [i, i + 1] if up else [i - 1, i]
    if V.symbolic and len(nz) == 2:
        i, j = nz
        h = .5e-7
        q, a, b = round(p, 7), round(vs[i], 7), round(vs[j], 7)
        s = (q - b) / (a - b)
        V.lemma(s * a + (1 - s) * b == q)
        for d, v in ((w[i] - s, vs[i]), (w[j] - (1 - s), vs[j])):
            V.lemma(V.And(d <= h, -h <= d))
            V.lemma(V.And(d * v <= h * v, -h * v <= d * v))
        V.lemma(V.And(s >= 0, s <= 1))
        V.lemma(V.And(q - p <= h, p - q <= h))
        V.lemma(V.And(vs[i] >= 0, vs[j] >= vs[i], vs[-1] >= vs[j]))
        V.lemma(V.And(s * (vs[i] - a) <= h * s, -h * s <= s * (vs[i] - a)))
        V.lemma(V.And((1 - s) * (vs[j] - b) <= h * (1 - s),
                      -h * (1 - s) <= (1 - s) * (vs[j] - b)))
    span = 2.1e-7 + 1.1e-7 * vs[-1]
    V.check(V.And(mix - p <= span, p - mix <= span), 'reproduces the '
            'default probability')


@contract('K01', bound=3)
def class_itself(V):
    R = V.mod(RC)
    n = V.length('n', 2)
    vs, names, d = scale(V, R, n)
    j = V.choice('class', range(n))
    how = V.choice('how', ['value', 'name', 'get'])
    if how == 'value':
        r = R.RatingClass(V.clone(vs[j]), d)
    elif how == 'name':
        r = R.RatingClass(names[j], d)
    else:
        r = R.RatingClass.master_scale(d).get(names[j])
    V.eq(float(r) if not V.symbolic else r.value, vs[j], 'probability')
    V.eq(list(r), [1.0 if i == j else 0.0 for i in range(n)],
         'weight one on the class')
    if not V.symbolic:
        V.eq(str(r), names[j], 'name')


@contract('K01', bound=3)
def outside(V):
    R = V.mod(RC)
    n = V.length('n', 2)
    vs, names, d = scale(V, R, n)
    p = V.real('p', 0, 5, gt=0)
    V.assume(V.Or(p < vs[0] - 2e-7, p > vs[-1] + 2e-7))
    V.raises(ValueError, lambda: list(R.RatingClass(p, d)), 'refused')
    V.patch(R.RatingClass, 'SLOPPY', True)
    V.eq(len(list(R.RatingClass(p, d))), n, 'sloppy mode')


@contract('K01', sym=False)
def master_scale_of_names(V):
    R = V.mod(RC)
    n = V.length('n', 2, 30)
    names = ['N%d' % i for i in range(n)]
    ms = R.RatingClass.master_scale.fromkeys(names)
    vs = ms.values()
    V.assume(min(b - a for a, b in zip(vs[:-1], vs[1:])) > 2e-7)
    V.eq(vs[-1], 1.0, 'default')
    for r, v in zip(ms.rating_classes(), vs):
        V.eq(r.value, v, 'class')
    p = V.real('p', 0, 1)
    p = V.exp(p * V.log(vs[0]))
    w = list(R.RatingClass(p, ms))
    V.eq(sum(w), 1.0, 'one', tol=1e-7)
    V.eq(sum(a * b for a, b in zip(w, vs)), p, 'mix', tol=4e-7)
