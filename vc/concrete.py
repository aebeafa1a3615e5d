"""Concrete universe: contracts evaluated on the unmodified code."""
import ast
import datetime
import math
import os
import random

REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(Exception):
    """precondition not met"""


class Violated(Exception):
    pass


def mine(repo=REPO):
    """numeric constants of the current source: boundary candidates"""
    reals, ints = set(), set()
    for d, _, fs in os.walk(os.path.join(repo, 'dcf')):
        for f in fs:
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(
                            n.value, (int, float)) and not isinstance(
                            n.value, bool):
                        v = n.value
                        if abs(v) < 1e7:
                            reals.add(float(v))
                            reals.add(-float(v))
                        if float(v).is_integer() and abs(v) < 1e5:
                            ints.add(int(v))
    return sorted(reals), sorted(ints)


REALS, INTS = mine()


class Func(object):
    """an arbitrary function of time (hash noise on a smooth base)"""

    def __init__(self, V, name, lo, hi, salt, table=None):
        self.V, self.lo, self.hi, self.salt = V, lo, hi, salt
        self.table = table

    def key(self, t):
        if isinstance(t, tuple):
            return '/'.join(self.key(x) for x in t)
        if hasattr(t, 'to_date') or isinstance(t, datetime.date):
            return str(self.V.ord(t))
        return repr(round(float(t), 9) + 0.0)

    def __call__(self, *t):
        h = random.Random('%s:%s' % (self.salt, self.key(t))).random()
        return self.lo + (self.hi - self.lo) * h


class Universe(object):
    symbolic = False
    unbounded = False

    def __init__(self, seed, given=None, maxlen=12):
        self.rng = random.Random(seed)
        self.seed = seed
        self.given = given or {}
        self.inputs = {}
        self.nchecks = 0
        self.maxlen = maxlen
        self.hot = self.rng.random() < 0.5  # use special values a lot
        import dcf
        self.dcf = dcf
        self._restore = []
        self.counter = {}

    # -- naming / logging
    def nm(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else '%s!%d' % (name, n)

    def rec(self, name, value):
        self.inputs[name] = value if isinstance(
            value, (int, float, str, bool, type(None))) else repr(value)
        return value

    # -- modules, patches
    def mod(self, name):
        import importlib
        return importlib.import_module('dcf.' + name)

    def patch(self, obj, attr, value):
        had = attr in vars(obj)
        self._restore.append((obj, attr, had, vars(obj).get(attr)))
        setattr(obj, attr, value)

    def close(self):
        for obj, attr, had, old in reversed(self._restore):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._restore = []

    # -- draws
    def real(self, name, lo=-10.0, hi=10.0, gt=None, lt=None, special=(),
             nonzero=False, log=False):
        name = self.nm(name)
        if name in self.given:
            v = float(self.given[name])
        else:
            v = self._real(lo, hi, special, log)
            for _ in range(200):
                if (gt is None or v > gt) and (lt is None or v < lt) and \
                        (not nonzero or v != 0):
                    break
                v = self._real(lo, hi, special, log)
        if (gt is not None and not v > gt) or (lt is not None and
                                               not v < lt) or (
                nonzero and v == 0) or not lo <= v <= hi:
            raise Skip(name)
        return self.rec(name, v)

    def _real(self, lo, hi, special, log):
        r = self.rng
        u = r.random()
        cut = 0.4 if self.hot else 0.12
        if u < cut:
            pool = [x for x in special]
            w = r.random()
            if w < 0.35 or not pool:
                pool = [lo, hi, 0.0, 1.0, -1.0, 0.5, 2.0]
            elif w < 0.7:
                pass
            if w > 0.7:
                pool = REALS
            pool = [x for x in pool if lo <= x <= hi]
            if pool:
                x = float(r.choice(pool))
                w = r.random()
                if w < 0.6:
                    return x
                d = r.choice([1e-3, 0.01, 0.1, 1.0]) * r.random()
                x = x + (d if r.random() < .5 else -d)
                if lo <= x <= hi:
                    return x
        if u > 0.9:
            x = round(r.uniform(lo, hi) * 4) / 4.0
            if lo <= x <= hi:
                return x
        if log and lo > 0:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        return r.uniform(lo, hi)

    def integer(self, name, lo=0, hi=20):
        name = self.nm(name)
        if name in self.given:
            v = int(self.given[name])
            if not lo <= v <= hi:
                raise Skip(name)
            return self.rec(name, v)
        r = self.rng
        u = r.random()
        if u < 0.15:
            pool = [i for i in INTS if lo <= i <= hi]
            if pool:
                return self.rec(name, r.choice(pool))
        if u < 0.3:
            return self.rec(name, r.choice([lo, hi, min(hi, lo + 1)]))
        if u < 0.7:
            return self.rec(name, r.randint(lo, min(hi, lo + 6)))
        return self.rec(name, r.randint(lo, hi))

    def days(self, d, n):
        return d + ('%dD' % n)

    def length(self, name='n', lo=1, hi=None):
        hi = self.maxlen if hi is None else hi
        name = self.nm(name)
        if name in self.given:
            v = int(self.given[name])
            if not lo <= v <= max(hi, 8):
                raise Skip(name)
            return self.rec(name, v)
        r = self.rng
        u = r.random()
        if u < 0.55:
            v = r.randint(lo, min(hi, lo + 4))
        elif u < 0.9:
            v = r.randint(lo, hi)
        else:
            v = r.randint(lo, max(hi, min(hi * 3, 40)) if hi > 6 else hi)
        return self.rec(name, v)

    def boolean(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        name = self.nm(name)
        options = list(options)
        if name in self.given:
            k = int(self.given[name])
            if k >= len(options):
                raise Skip(name)
        else:
            k = self.rng.randrange(len(options))
        self.rec(name, k)
        return options[k]

    def subset(self, name, n):
        return [self.boolean('%s%d' % (name, i)) for i in range(n)]

    def reals(self, name, n, lo=-10.0, hi=10.0, distinct=False, **kw):
        out = []
        mode = self.rng.random()
        base = None
        for i in range(n):
            for _ in range(50):
                if mode < 0.08 and base is not None and not distinct:
                    v = base
                    self.rec(self.nm('%s[%d]' % (name, i)), v)
                else:
                    self.counter.pop('%s[%d]' % (name, i), None)
                    v = self.real('%s[%d]' % (name, i), lo, hi, **kw)
                base = v
                if not distinct or v not in out:
                    break
            else:
                raise Skip('distinct')
            out.append(v)
        return out

    def const(self, x):
        return float(x)

    # -- time
    def kind(self, *kinds):
        return self.choice('kind', list(kinds) or ['num', 'date', 'bd'])

    def _day0(self):
        return 738000  # 2021-07-22

    def mk(self, kind, x):
        """x years/ordinal -> time"""
        if kind == 'num':
            return x
        d = datetime.date.fromordinal(int(x))
        if kind == 'date':
            return d
        from businessdate import BusinessDate
        return BusinessDate(d.year, d.month, d.day) if False else \
            BusinessDate(d)

    def ord(self, t):
        if hasattr(t, 'to_date'):
            t = t.to_date()
        if hasattr(t, 'toordinal'):
            return t.toordinal()
        return t

    def clone(self, t):
        """an equal, not identical date"""
        if isinstance(t, (int, float)):
            return float(repr(float(t)))
        if hasattr(t, 'to_date'):
            return type(t)(t.to_date())
        return datetime.date.fromordinal(t.toordinal())

    def times(self, name, kind, n, first=None, gap=None, mingap=None):
        """strictly increasing times"""
        name = self.nm(name)
        r = self.rng
        style = r.choice(['grid', 'grid8', 'any', 'month', 'near'])
        out = []
        if kind == 'num':
            if first is not None:
                x = first
            elif '%s[0]' % name in self.given:
                x = float(self.given['%s[0]' % name])
            else:
                x = r.choice([0.0, 0.0, 1.0, -1.0, 0.25,
                              r.uniform(-3, 5), round(r.uniform(-3, 5), 2)])
            for i in range(n):
                k = '%s[%d]' % (name, i)
                if k in self.given and first is None:
                    x = float(self.given[k])
                    if out and not x > out[-1]:
                        raise Skip('order')
                out.append(x)
                if style == 'grid':
                    g = r.choice([1.0, .5, .25, 2.0])
                elif style == 'grid8':
                    g = r.randint(1, 16) / 8.0
                elif style == 'near':
                    g = r.choice([1 / 512., 1 / 128., 1.0])
                else:
                    g = r.uniform(0.05, 3.0)
                if mingap:
                    g = max(g, mingap)
                if gap:
                    g = gap
                x = x + g
        else:
            if first is not None:
                x = self.ord(first)
            elif '%s[0]' % name in self.given:
                x = int(float(self.given['%s[0]' % name])) % 2000 + 737500
            else:
                x = self._day0() + r.randint(-900, 900)
            if style == 'grid' and kind == 'bd' and first is None and \
                    r.random() < .5:
                d = datetime.date.fromordinal(x)
                x = d.replace(day=r.choice([1, 15, 28])).toordinal()
            for i in range(n):
                out.append(self.mk(kind, x))
                if style == 'near':
                    g = r.choice([1, 1, 2, 7, 30])
                elif style == 'month':
                    g = r.choice([28, 29, 30, 31, 91, 92, 365, 366])
                else:
                    g = r.randint(1, 700)
                if mingap:
                    g = max(g, int(mingap * 366))
                x += g
        self.rec(name, out)
        return out

    def time(self, name, kind, near=(), after=None, before=None, lo=None,
             hi=None):
        """some time: on, between, before or after the times in near"""
        name = self.nm(name)
        r = self.rng
        near = list(near)
        a = self.ord(after) if after is not None else None
        b = self.ord(before) if before is not None else None
        for _ in range(60):
            if name in self.given:
                x = float(self.given[name])
                x = x if kind == 'num' else int(x) % 2000 + 737500
            elif near and r.random() < 0.35:
                x = self.ord(r.choice(near))
                if r.random() < .5:
                    if kind == 'num':
                        x += r.choice([-1, 1]) * r.choice(
                            [1 / 512., .125, .25, 1.0])
                    else:
                        x += r.choice([-1, 1]) * r.choice([1, 2, 30, 365])
            else:
                if near:
                    l, h = self.ord(min(near)), self.ord(max(near))
                    s = (h - l) * .6 + (2.0 if kind == 'num' else 800)
                elif a is not None:
                    l = h = a
                    s = 3.0 if kind == 'num' else 1000
                elif b is not None:
                    l = h = b
                    s = 3.0 if kind == 'num' else 1000
                else:
                    l = h = 0.0 if kind == 'num' else self._day0()
                    s = 4.0 if kind == 'num' else 1000
                x = r.uniform(l - s, h + s)
                if kind == 'num':
                    if r.random() < .5:
                        x = round(x * 8) / 8.0
                else:
                    x = int(x)
            if (a is None or x > a) and (b is None or x < b) and \
                    (lo is None or x >= self.ord(lo)) and \
                    (hi is None or x <= self.ord(hi)):
                break
            if name in self.given:
                raise Skip(name)
        else:
            raise Skip(name)
        t = self.mk(kind, x)
        self.rec(name, t)
        return t

    def yf(self, a, b):
        """the default year fraction, as specified"""
        if isinstance(a, (int, float)):
            return b - a
        return (self.ord(b) - self.ord(a)) / 365.25

    def shuffle(self, name, *seqs):
        """the same sequences in an arbitrary common order"""
        n = len(seqs[0])
        idx = list(range(n))
        u = self.rng.random()
        if u < 0.25:
            pass
        elif u < 0.4:
            idx.reverse()
        else:
            self.rng.shuffle(idx)
        self.rec(self.nm(name), str(idx))
        out = tuple([s[i] for i in idx] for s in seqs)
        return out if len(out) > 1 else out[0]

    def func(self, name, lo=-5.0, hi=5.0):
        name = self.nm(name)
        return Func(self, name, lo, hi, '%s/%s' % (self.seed, name))

    def interp(self, name, positive=False, allow_rate=False):
        """some interpolation"""
        opts = [None, 'linear', 'constant', 'linear_scheme', 'nearest',
                ('constant', 'linear', 'constant')[1]]
        if positive:
            opts += ['log_linear_scheme', 'loglinear']
        if allow_rate:
            opts += ['log_linear_rate_scheme', None]
        return self.choice(name, opts)

    def daycount(self, name='dc'):
        """an additive day count function or None"""
        k = self.choice(name, [0, 0, 1])
        if not k:
            return None
        f = self.choice(name + 'f', [365.25 / 360., 365.25 / 365., 2.0])
        return lambda s, e: self.yf(s, e) * f

    def bounded(self, note):
        pass

    # -- spec helpers
    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def pow(self, a, b):
        return a ** b

    def If(self, c, a, b):
        return a if c else b

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def sum(self, n, f):
        return math.fsum(f(i) for i in range(n))

    def isnum(self, x):
        return isinstance(x, (int, float)) and not isinstance(x, bool)

    # -- pre/postconditions
    def assume(self, c):
        if not c:
            raise Skip('assume')

    def check(self, c, label):
        self.nchecks += 1
        if not c:
            raise Violated('%s does not hold' % label)

    def eq(self, a, b, label, tol=1e-9):
        self.nchecks += 1
        if not self._eq(a, b, tol):
            raise Violated('%s: got %r, required %r' % (label, a, b))

    def lemma(self, c):
        pass

    def le(self, a, b, label, tol=1e-12):
        self.nchecks += 1
        if not a <= b + tol * (1 + abs(a) + abs(b)):
            raise Violated('%s: %r <= %r does not hold' % (label, a, b))

    def _eq(self, a, b, tol):
        if a is b:
            return True
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(
                self._eq(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, bool) or isinstance(b, bool):
            return a == b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b:
                return True
            if math.isnan(a) or math.isnan(b) or math.isinf(a) or \
                    math.isinf(b):
                return False
            return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))
        return a == b

    def forall(self, n, body):
        for i in range(n):
            body(i)

    def index(self, name, n):
        return self.choice(name, range(n))

    def each(self, xs, fn):
        for x in xs:
            fn(x)

    def assume_all(self, xs, pred):
        for x in xs:
            self.assume(pred(x))

    def raises(self, exc, fn, label):
        self.nchecks += 1
        try:
            v = fn()
        except Skip:
            raise
        except exc:
            return
        raise Violated('%s: no %s raised, got %r' % (
            label, getattr(exc, '__name__', exc), v))

    def attempt(self, fn, exc=Exception):
        try:
            return True, fn()
        except (Skip, Violated):
            raise
        except exc as e:
            return False, e


def run_one(c, seed, given=None, maxlen=12):
    """-> (status, universe, message); status ok|skip|fail"""
    import traceback
    import warnings
    V = Universe(seed, given, maxlen)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(V)
        return 'ok', V, ''
    except Skip as e:
        return 'skip', V, str(e)
    except Violated as e:
        return 'fail', V, str(e)
    except RecursionError as e:
        return 'fail', V, 'RecursionError %s' % e
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'dcf' in f.filename and
                 '/verif/' not in f.filename]
        loc = ' at %s:%s in %s' % (os.path.basename(where[-1].filename),
                                   where[-1].lineno, where[-1].name) \
            if where else ' at %s:%s (contract)' % (
            os.path.basename(tb[-1].filename), tb[-1].lineno)
        return 'fail', V, 'unexpected %s: %s%s' % (
            type(e).__name__, str(e)[:300], loc)
    finally:
        V.close()
