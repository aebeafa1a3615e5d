"""interpolation: B01, B02, B03"""
from . import contract
from .basics import _w


def count_le(V, xs, x):
    """number of points <= x (spec)"""
    if hasattr(xs, '_vc_count'):
        return xs._vc_count(x, 'le')
    k = 0
    for a in xs:
        if a <= x:
            k = k + 1
    return k


def count_lt(V, xs, x):
    if hasattr(xs, '_vc_count'):
        return xs._vc_count(x, 'lt')
    k = 0
    for a in xs:
        if a < x:
            k = k + 1
    return k


def ln(V, n):
    return n


def spec_left(V, n, xs, ys, x):
    k = count_le(V, xs, x)
    if k == 0:
        return ys[0]
    return ys[k - 1]


def spec_right(V, n, xs, ys, x):
    k = count_lt(V, xs, x)
    if k == n:
        return ys[n - 1]
    return ys[k]


def spec_linear(V, n, xs, ys, x):
    if n == 1:
        return ys[0]
    k = count_lt(V, xs, x)
    if k < 1:
        k = 1
    elif k > n - 1:
        k = n - 1
    a, b = xs[k - 1], xs[k]
    return ys[k - 1] + (ys[k] - ys[k - 1]) * (x - a) / (b - a)


def points(V, lo=None, hi=None, gt=None, minlen=1, nonzero=False, ylo=-10,
           yhi=10):
    n = V.length('n', minlen)
    xs = V.times('x', 'num', n, mingap=1 / 512.)
    ys = V.reals('y', n, ylo, yhi, gt=gt)
    return n, xs, ys


def position(V, name, xs):
    return V.time(name, 'num', near=xs)


PLAIN = ('left', 'constant', 'right', 'nearest', 'linear', 'no', 'zero')
POS = ('loglinear',)
RATE = ('loglinearrate', 'logconstantrate')


def _no_zero(V, n, xs):
    """points at exactly zero are treated apart by the rate variants"""
    V.forall(n, lambda i: V.assume(xs[i] != 0))


@contract('B01', unbounded=True)
def nodes_plain(V):
    I = V.mod('interpolation')
    cls = getattr(I, V.choice('cls', PLAIN))
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    f = cls(px, py)
    V.forall(n, lambda i: V.eq(f(V.clone(xs[i])), ys[i], 'value at point'))


@contract('B01', unbounded=True)
def nodes_membership(V):
    I = V.mod('interpolation')
    cls = getattr(I, V.choice('cls', PLAIN))
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    f = cls(px, py)
    V.forall(n, lambda i: V.check(V.clone(xs[i]) in f, 'point is member'))
    x = position(V, 'at', xs)
    V.assume_all(xs, lambda v: v != x)
    V.check(not (x in f), 'other is no member')


@contract('B01', unbounded=True)
def nodes_log(V):
    I = V.mod('interpolation')
    cls = getattr(I, V.choice('cls', POS))
    n, xs, ys = points(V, gt=0, ylo=0.01, yhi=5)
    px, py = V.shuffle('order', xs, ys)
    f = cls(px, py)
    V.forall(n, lambda i: V.eq(f(V.clone(xs[i])), ys[i], 'value at point'))


@contract('B01', unbounded=True)
def nodes_rate(V):
    I = V.mod('interpolation')
    cls = getattr(I, V.choice('cls', RATE))
    n, xs, ys = points(V, gt=0, ylo=0.4, yhi=2)
    V.assume(len([v for v in xs if v != 0]) >= 1)
    px, py = V.shuffle('order', xs, ys)
    f = cls(px, py)
    V.forall(n, lambda i: V.eq(f(V.clone(xs[i])), ys[i], 'value at point',
                               tol=1e-8))


@contract('B01', unbounded=True)
def from_dict(V):
    I = V.mod('interpolation')
    name = V.choice('cls', PLAIN + POS + RATE)
    cls = getattr(I, name)
    n, xs, ys = points(V, gt=0, ylo=0.4, yhi=2)
    if name in RATE:
        V.assume(len([v for v in xs if v != 0]) >= 1)
    px, py = V.shuffle('order', xs, ys)
    f = cls.from_dict(dict(zip(px, py)))
    V.forall(n, lambda i: V.eq(f(V.clone(xs[i])), ys[i], 'value at point',
                               tol=1e-8))
    if name not in RATE:
        V.forall(n, lambda i: V.check(xs[i] in f, 'member'))


@contract('B01', unbounded=True)
def log_refuses_non_positive(V):
    I = V.mod('interpolation')
    cls = getattr(I, V.choice('cls', POS + RATE))
    n, xs, ys = points(V, gt=0, ylo=0.4, yhi=2)
    bad = V.real('bad', -5, 0)
    V.assume(bad <= 0)
    i = V.index('i', n)
    ys[i] = bad
    px, py = V.shuffle('order', xs, ys)
    V.raises(ValueError, lambda: cls(px, py), 'non positive value')


@contract('B01', unbounded=True, ubudget=6)
def order_does_not_matter(V):
    I = V.mod('interpolation')
    name = V.choice('cls', PLAIN + POS + RATE)
    cls = getattr(I, name)
    n, xs, ys = points(V, gt=0, ylo=0.4, yhi=2, minlen=2)
    if name in RATE:
        V.assume(len([v for v in xs if v != 0]) >= 1)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    f, g = cls(xs, ys), cls(px, py)
    ok, a = V.attempt(lambda: f(x), OverflowError)
    V.assume(ok)
    V.eq(a, g(x), 'same function for every order')


@contract('B02', unbounded=True)
def left(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    cls = getattr(I, V.choice('cls', ('left', 'constant')))
    V.eq(cls(px, py)(x), spec_left(V, n, xs, ys, x), 'left value')


@contract('B02', unbounded=True)
def right(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    V.eq(I.right(px, py)(x), spec_right(V, n, xs, ys, x), 'right value')


@contract('B02', unbounded=True)
def nearest(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    v = I.nearest(px, py)(x)
    k = count_le(V, xs, x)
    if k == 0:
        V.eq(v, ys[0], 'before all')
    elif k == n:
        V.eq(v, ys[n - 1], 'after all')
    else:
        l, r = x - xs[k - 1], xs[k] - x
        if not V.symbolic:
            nice = all(float(z * 1024).is_integer() for z in (
                x, xs[k - 1], xs[k]))
            V.assume(nice or abs(l - r) > 1e-9)
        if l <= r:
            V.eq(v, ys[k - 1], 'left is closest')
        else:
            V.eq(v, ys[k], 'right is closest')


@contract('B02', unbounded=True)
def linear(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    v = I.linear(px, py)(x)
    V.eq(v, spec_linear(V, n, xs, ys, x), 'on the line', tol=1e-7)


@contract('B02', unbounded=True)
def nofill(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    V.assume_all(xs, lambda v: v != x)
    V.check(I.no(px, py)(x) is None, 'nothing')
    V.eq(I.zero(px, py)(x), 0.0, 'zero')


@contract('B02')
def flat(V):
    I = V.mod('interpolation')
    y = V.real('y')
    x = V.real('x')
    V.eq(I.flat(y)(x), y, 'flat')


@contract('B02', unbounded=True)
def loglinear(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V, gt=0, ylo=0.2, yhi=5)
    px, py = V.shuffle('order', xs, ys)
    x = position(V, 'at', xs)
    ls = [V.log(y) for y in ys]
    e = spec_linear(V, n, xs, ls, x)
    _w(V, 0, V.symbolic or abs(e) < 200)
    V.eq(I.loglinear(px, py)(x), V.exp(e), 'linear in logarithms', tol=1e-6)


@contract('B02', unbounded=True)
def rate_variants(V):
    I = V.mod('interpolation')
    n, xs, ys = points(V, gt=0, ylo=0.5, yhi=2)
    name = V.choice('cls', RATE)
    x = position(V, 'at', xs)
    qs = [v for v in xs if v != 0]
    V.assume(len(qs) >= 1)
    px, py = V.shuffle('order', xs, ys)
    if x == 0:
        z = [w for v, w in zip(xs, ys) if v == 0]
        want = z[0] if len(z) else 1.0
        V.eq(getattr(I, name)(px, py)(x), want, 'at zero')
        return
    ls = [V.log(w) / v for v, w in zip(xs, ys) if v != 0]
    spec = spec_linear if name == 'loglinearrate' else spec_left
    e = spec(V, len(qs), qs, ls, x) * x
    _w(V, 0, V.symbolic or abs(e) < 100)
    V.eq(getattr(I, name)(px, py)(x), V.exp(e), 'rate of logarithms',
         tol=1e-6)


def _parts(V):
    I = V.mod('interpolation')
    log = []

    def mk(tag):
        fn = V.func('part' + tag)

        class Part(I.base_interpolation):
            def __init__(self, x_list=(), y_list=()):
                super().__init__(x_list, y_list)
                log.append((tag, list(x_list), list(y_list)))

            def __call__(self, x):
                return fn(x)
        Part.__name__ = 'part_' + tag
        Part.fn = staticmethod(fn)
        return Part
    return mk('l'), mk('m'), mk('r'), log


@contract('B03', unbounded=True)
def dispatch(V):
    I = V.mod('interpolation')
    L, M, Rr, log = _parts(V)
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    scheme = I._dyn_scheme(L, M, Rr)
    f = scheme(px, py)
    x = position(V, 'at', xs)
    if x < xs[0]:
        want = L
    elif x > xs[n - 1]:
        want = Rr
    else:
        want = M
    V.eq(f(x), want.fn(x), 'part')
    V.check(len(log) == 3, 'three parts')
    for tag, a, b in log:
        V.check(len(a) == n and len(b) == n, 'all points')
        V.forall(n, lambda i: V.check((xs[i], ys[i]) in list(zip(a, b)),
                                      'built from all points'))


@contract('B03', unbounded=True)
def argument_forms(V):
    I = V.mod('interpolation')
    L, M, Rr, log = _parts(V)
    D = [V.func('dl'), V.func('dm'), V.func('dr')]

    def dflt(fn):
        class P(I.base_interpolation):
            def __call__(self, x):
                return fn(x)
        return P
    base = I._dyn_scheme(*[dflt(d) for d in D])
    n, xs, ys = points(V)
    px, py = V.shuffle('order', xs, ys)
    form, want = V.choice('form', [
        (None, D), (M, [D[0], M.fn, D[2]]), ((M,), [D[0], M.fn, D[2]]),
        ((M, Rr), [Rr.fn, M.fn, Rr.fn]), ([L, M, Rr], [L.fn, M.fn, Rr.fn]),
        ((L, M, Rr), [L.fn, M.fn, Rr.fn])])
    f = base(px, py, form)
    x = position(V, 'at', xs)
    if x < xs[0]:
        w = want[0]
    elif x > xs[n - 1]:
        w = want[2]
    else:
        w = want[1]
    V.eq(f(x), w(x), 'part')


SCHEMES = {
    'constant_linear_constant': ('constant', 'linear', 'constant'),
    'linear_scheme': ('constant', 'linear', 'constant'),
    'logconstant_loglinear_logconstant': ('constant', 'loglinear',
                                          'constant'),
    'log_linear_scheme': ('constant', 'loglinear', 'constant'),
    'logconstantrate_loglinearrate_logconstantrate': (
        'logconstantrate', 'loglinearrate', 'logconstantrate'),
    'log_linear_rate_scheme': ('logconstantrate', 'loglinearrate',
                               'logconstantrate'),
    'zero_linear_constant': ('zero', 'linear', 'constant'),
    'zero_linear_scheme': ('zero', 'linear', 'constant'),
}


@contract('B03', unbounded=True)
def named_schemes(V):
    I = V.mod('interpolation')
    name = V.choice('scheme', sorted(SCHEMES))
    l, m, r = [getattr(I, p) for p in SCHEMES[name]]
    n, xs, ys = points(V, gt=0, ylo=0.4, yhi=2)
    if 'rate' in name:
        # a point at zero is no point of the rate parts
        V.assume_all(xs, lambda v: v != 0)
    px, py = V.shuffle('order', xs, ys)
    f = getattr(I, name)(px, py)
    x = position(V, 'at', xs)
    if x < xs[0]:
        w = l
    elif x > xs[n - 1]:
        w = r
    else:
        w = m
    ok, v = V.attempt(lambda: w(xs, ys)(x), OverflowError)
    V.assume(ok)
    V.eq(f(x), v, 'part', tol=1e-9)


@contract('B03', unbounded=True)
def refusals(V):
    I = V.mod('interpolation')
    L, M, Rr, log = _parts(V)
    scheme = V.choice('scheme', [I.linear_scheme, I._dyn_scheme(L, M, Rr)])
    n, xs, ys = points(V)
    how = V.choice('how', ['short', 'long', 'repeat'])
    if how == 'short':
        ys = ys[:-1]
    elif how == 'long':
        ys = ys + [V.real('extra')]
    else:
        i = V.index('i', n)
        xs, ys = list(xs) + [V.clone(xs[i])], list(ys) + [V.real('extra')]
    px = V.shuffle('order', xs)
    V.raises((AssertionError, ValueError), lambda: scheme(px, ys), 'refused')
