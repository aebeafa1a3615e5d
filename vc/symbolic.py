"""Symbolic universe: every contract clause becomes a proof obligation."""
import time as _time

import z3

from . import engine as E
from . import ring as R
from .engine import (SReal, SInt, SBool, SNum, SDate, SDelta, SVal, Result,
                     rterm, bterm, sbool)


class Universe(object):
    symbolic = True

    def __init__(self, ctx, bound=2, opts=None):
        self.ctx = ctx
        self.bound = bound
        self.opts = opts or {}
        self.unbounded = ctx.unbounded
        import dcf
        self.dcf = dcf
        self._restore = []
        self.lemmas = []

    # -- modules
    def mod(self, name):
        import importlib
        return importlib.import_module('dcf.' + name)

    def patch(self, obj, attr, value):
        had = attr in vars(obj)
        self._restore.append((obj, attr, had, vars(obj).get(attr)))
        setattr(obj, attr, value)

    def close(self):
        for obj, attr, had, old in reversed(self._restore):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._restore = []

    # -- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, special=(),
             nonzero=False, log=False):
        """an arbitrary real; natural ranges of the concrete search (lo, hi)
        are no assumption, only gt / lt / nonzero are"""
        name = self.ctx.name(name)
        v = SReal(z3.Real(name))
        self.ctx.inputs.append((name, 'real', v.e))
        self._rng(v, gt, lt, nonzero)
        return v

    def _rng(self, v, gt, lt, nonzero):
        cs = []
        if gt is not None:
            cs.append(bterm(v > gt))
        if lt is not None:
            cs.append(bterm(v < lt))
        if nonzero:
            cs.append(bterm(v != 0))
        if cs:
            self.ctx.assume(z3.And(*cs))

    def integer(self, name, lo=0, hi=None):
        name = self.ctx.name(name)
        if not self.unbounded:
            self.ctx.bounded = True
            k = self.ctx.choose(self.bound + 1, name)
            self.ctx.inputs.append((name, 'int', z3.IntVal(lo + k)))
            return lo + k
        v = SInt(z3.Int(name))
        self.ctx.inputs.append((name, 'int', v.e))
        self.ctx.assume(v.e >= lo)
        return v

    def days(self, d, n):
        """n days after a business date"""
        return E.SDate(d.ord + n, d.bd)

    def length(self, name='n', lo=1, hi=None):
        name = self.ctx.name(name)
        if not self.unbounded:
            self.ctx.bounded = True
            top = max(lo, self.bound)
            n = lo + self.ctx.choose(top - lo + 1, name)
            self.ctx.inputs.append((name, 'int', z3.IntVal(n)))
            return n
        v = SInt(z3.Int(name))
        self.ctx.inputs.append((name, 'int', v.e))
        self.ctx.assume(v.e >= lo)
        return v

    def choice(self, name, options):
        name = self.ctx.name(name)
        options = list(options)
        k = self.ctx.choose(len(options), name)
        self.ctx.inputs.append((name, 'int', z3.IntVal(k)))
        return options[k]

    def boolean(self, name):
        return bool(self.choice(name, [False, True]))

    def subset(self, name, n):
        return [self.boolean('%s%d' % (name, i)) for i in range(n)]

    def reals(self, name, n, lo=None, hi=None, distinct=False, gt=None,
              lt=None, nonzero=False, **kw):
        if isinstance(n, SInt) and n.c is None:
            from . import seq
            return seq.base_reals(self, name, n, distinct, gt, lt, nonzero)
        out = [self.real('%s[%d]' % (name, i), gt=gt, lt=lt, nonzero=nonzero)
               for i in range(int(n))]
        if distinct and len(out) > 1:
            self.ctx.assume(z3.Distinct(*[x.e for x in out]))
        return out

    def const(self, x):
        return SReal(x)

    # -- time
    def kind(self, *kinds):
        kinds = list(kinds) or ['num', 'date', 'bd']
        return self.choice('kind', kinds)

    def _newtime(self, name, kind):
        if kind == 'num':
            v = SReal(z3.Real(name))
            self.ctx.inputs.append((name, 'real', v.e))
            return v
        v = SInt(z3.Int(name))
        self.ctx.inputs.append((name, 'int', v.e))
        return SDate(v, kind == 'bd')

    def times(self, name, kind, n, first=None, gap=None, mingap=None):
        if isinstance(n, SInt) and n.c is None:
            from . import seq
            return seq.base_times(self, name, kind, n, first)
        name = self.ctx.name(name)
        out = []
        for i in range(int(n)):
            if i == 0 and first is not None:
                out.append(first)
                continue
            t = self._newtime('%s[%d]' % (name, i), kind)
            if out:
                self.ctx.assume(bterm(out[-1] < t))
            out.append(t)
        return out

    def time(self, name, kind, near=(), after=None, before=None, lo=None,
             hi=None):
        t = self._newtime(self.ctx.name(name), kind)
        cs = []
        if after is not None:
            cs.append(bterm(after < t))
        if before is not None:
            cs.append(bterm(t < before))
        if lo is not None:
            cs.append(bterm(lo <= t))
        if hi is not None:
            cs.append(bterm(t <= hi))
        if cs:
            self.ctx.assume(z3.And(*cs))
        return t

    def clone(self, t):
        """equal, not identical"""
        if isinstance(t, SReal):
            return SReal(t.e)
        if isinstance(t, SDate):
            return SDate(t.ord, t.bd)
        return t

    def ord(self, t):
        return t.ord if isinstance(t, SDate) else t

    def yf(self, a, b):
        if isinstance(a, SDate):
            return SReal.lift(b.ord - a.ord) / SReal(365.25)
        return SReal.lift(E.tonum(b - a))

    def shuffle(self, name, *seqs):
        """given sequences in an arbitrary common order"""
        from . import seq as S
        if isinstance(seqs[0], S.SSeq):
            return S.shuffle(self, name, *seqs)
        n = len(seqs[0])
        if n <= 3:
            import itertools
            perms = list(itertools.permutations(range(n)))
        else:
            perms = [tuple(range(n)), tuple(reversed(range(n))),
                     tuple(range(1, n)) + (0,)]
        idx = self.choice(name, perms)
        out = tuple([s[i] for i in idx] for s in seqs)
        return out if len(out) > 1 else out[0]

    def func(self, name, lo=None, hi=None):
        """an arbitrary function of time: uninterpreted"""
        name = self.ctx.name(name)
        V = self

        def call(*ts):
            args = [V._targ(t) for t in ts]
            f = z3.Function('F_%s_%s' % (name, '_'.join(
                str(a.sort()) for a in args)),
                *([a.sort() for a in args] + [E.REAL]))
            return SReal(f(*args))
        return call

    def _targ(self, t):
        if isinstance(t, SDate):
            return E.iterm(t.ord)
        return rterm(E.tonum(t))

    def interp(self, name, positive=False, allow_rate=False):
        """an arbitrary interpolation: any function through the points"""
        V = self
        base = self.ctx.name('I_' + name)
        cnt = [0]
        calls = []

        def factory(domain, data):
            from . import seq as S0
            old = None
            if isinstance(domain, S0.SSeq):
                for dd, yy, g in calls:
                    if isinstance(dd, S0.SSeq) and \
                            S0.same_seq(V, dd, domain) and \
                            S0.same_seq(V, yy, data):
                        old = g
                        break
                domain, data = domain.copy(), data.copy()
            else:
                # a function of its arguments: equal points, equal result
                domain, data = list(domain), list(data)
                for dd, yy, g in calls:
                    if isinstance(dd, S0.SSeq):
                        continue
                    if len(dd) != len(domain) or len(yy) != len(data):
                        continue
                    eq = [rterm(E.tonum(a)) == rterm(E.tonum(b))
                          for a, b in zip(dd + yy, domain + data)]
                    e = z3.simplify(z3.And(*eq)) if eq else z3.BoolVal(True)
                    if z3.is_true(e) or V.ctx.sat(z3.Not(e)) is False:
                        old = g
                        break
            if old is not None:
                return old
            cnt[0] += 1
            fname = '%s_%d' % (base, cnt[0])
            f = z3.Function(fname, E.REAL, E.REAL)
            from . import seq as S
            if isinstance(domain, S.SSeq):
                S.nodes_fact(domain, data, f)
            else:
                for d, y in zip(domain, data):
                    V.ctx.assume_fact(f(rterm(E.tonum(d))) ==
                                      rterm(E.tonum(y)))
            def value(x):
                t = rterm(E.tonum(x))
                r = f(t)
                key = ('positive', r.get_id())
                if positive and key not in V.ctx.memo:
                    V.ctx.memo[key] = True
                    V.ctx.keep.append(r)
                    V.ctx.assume_fact(r > (0 if positive is True else
                                          rterm(E.tonum(positive))))
                return SReal(r)
            if not V.ctx.generic:
                calls.append((domain, data, value))
            return value
        factory.__name__ = 'arbitrary_interpolation'
        return factory

    def daycount(self, name='dc'):
        k = self.choice(name, [0, 1])
        if not k:
            return None
        f = self.real(name + 'f', gt=0)
        return lambda s, e: self.yf(s, e) * f

    def bounded(self, note):
        """the contract restricts sizes: bounded, not counted as proved"""
        self.ctx.bounded = True

    # -- spec helpers
    def exp(self, x):
        return E.sexp(E.tonum(x))

    def log(self, x):
        return E.slog(E.tonum(x))

    def sqrt(self, x):
        return E.ssqrt(E.tonum(x))

    def pow(self, a, b):
        return E.tonum(a) ** E.tonum(b)

    def If(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, SBool) and all(
                isinstance(x, (SNum, int, float)) for x in (a, b)):
            return SReal(z3.If(c.e, rterm(E.tonum(a)), rterm(E.tonum(b))))
        return a if bool(c) else b

    def And(self, *xs):
        return E.sand(*xs)

    def Or(self, *xs):
        return E.sor(*xs)

    def Not(self, x):
        return E.snot(x)

    def implies(self, a, b):
        return E.simplies(a, b)

    def max(self, a, b):
        return self.If(a >= b, a, b)

    def min(self, a, b):
        return self.If(a <= b, a, b)

    def sum(self, n, f):
        if isinstance(n, SInt) and n.c is None:
            from . import seq
            return seq.spec_sum(self, n, f)
        r = SReal(0)
        for i in range(int(n)):
            r = r + f(i)
        return r

    def isnum(self, x):
        return isinstance(x, (int, float, SNum)) and not isinstance(x, bool)

    # -- conditions
    def assume(self, c):
        if self.ctx.generic:
            raise E.Unsupported('assumption inside of a body')
        self.ctx.assume(bterm(c))

    def check(self, c, label):
        if not isinstance(c, SBool):
            c = bool(c)
            self._res(label, c, 'evaluation', 0.0)
            return
        self.prove(c.e, label)

    def _res(self, label, ok, backend, secs, detail='', model=None,
             status=None):
        st = status or ('proved' if ok else 'refuted')
        if st == 'refuted' and model is None:
            # reachable?
            r = self.ctx.sat()
            if r is False:
                st, backend = 'proved', 'z3'
            elif r is True:
                model = self._model(self.ctx.solver.model())
                if self._weak():
                    st = 'undecided' if not ok else st
            else:
                st = 'undecided'
        self.ctx.results.append(Result(label, st, backend, secs, detail,
                                       model))

    def _weak(self):
        return False

    def _model(self, m):
        out = {}
        for name, kind, t in self.ctx.inputs:
            try:
                v = m.eval(t, model_completion=True)
                if z3.is_int_value(v):
                    out[name] = v.as_long()
                elif z3.is_rational_value(v):
                    f = v.as_fraction()
                    out[name] = float(f)
                elif z3.is_algebraic_value(v):
                    out[name] = float(v.approx(12).as_fraction())
            except Exception:
                pass
        return out

    def prove(self, e, label, terms=None):
        t0 = _time.time()
        e = z3.simplify(e)
        if z3.is_true(e):
            return self._res(label, True, 'simplifier', 0.0)
        if self.lemmas:
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*self.lemmas)
            s.add(z3.Not(e))
            if s.check() == z3.unsat:
                return self._res(label, True, 'z3', _time.time() - t0)
        s = self.ctx.solver
        s.set('timeout', self.ctx.prove_timeout)
        try:
            if self.ctx.sums:
                from . import seq as S
                S.prepare(self, e)
            r = self.ctx.sat(z3.Not(e))
            if r is False:
                return self._res(label, True, 'z3', _time.time() - t0)
            if r is True:
                return self._res(label, False, 'z3', _time.time() - t0,
                                 str(e)[:400], self._model(s.model()))
            # second opinion
            s2 = z3.Solver()
            s2.add(*s.assertions())
            s2.add(z3.Not(e))
            c = E.cvc5_check(s2.to_smt2(), 6)
            if c == 'unsat':
                return self._res(label, True, 'cvc5', _time.time() - t0)
            return self._res(label, False, 'z3/cvc5 unknown',
                             _time.time() - t0, str(e)[:400],
                             status='undecided', model={})
        finally:
            s.set('timeout', self.ctx.feas_timeout)

    def eq(self, a, b, label, tol=None):
        if a is b:
            return self._res(label, True, 'evaluation', 0.0)
        from . import seq as S
        if isinstance(a, S.SSeq) or isinstance(b, S.SSeq):
            return S.prove_eq(self, a, b, label)
        if isinstance(a, S.LazyGen) or isinstance(b, S.LazyGen):
            raise E.Unsupported('comparison of generators')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self._res(label + ' (length)', False, 'evaluation', 0.)
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, '%s[%d]' % (label, i))
            return
        if isinstance(a, bool) and isinstance(b, bool):
            return self._res(label, a == b, 'evaluation', 0.0)
        if E.is_num(a) and E.is_num(b):
            return self._eqnum(a, b, label)
        r = (a == b)
        self.check(r, label)

    def _eqnum(self, a, b, label):
        t0 = _time.time()
        ta, tb = rterm(E.tonum(a)), rterm(E.tonum(b))
        if z3.is_true(z3.simplify(ta == tb)):
            return self._res(label, True, 'simplifier', _time.time() - t0)
        if self.ctx.sums:
            from . import seq as S
            ta, tb, ok = S.sum_equal(self, ta, tb)
            if ok:
                return self._res(label, True, 'summation',
                                 _time.time() - t0)
        rg = self.ring()
        if rg.equal(ta, tb):
            return self._res(label, True, 'ring', _time.time() - t0)
        if self.unbounded and self.ctx.spaces:
            from . import seq as S
            if S.eq_by_cases(self, ta, tb):
                return self._res(label, True, 'index cases',
                                 _time.time() - t0)
        # congruence hints: relate uninterpreted applications of equal
        # canonical argument
        return self.prove(ta == tb, label)

    def ring(self):
        if self.ctx.ring is None:
            self.ctx.ring = R.Ring(self.ctx)
            if self.ctx.ring_seed is not None:
                for k, a in self.ctx.ring_seed.atoms.items():
                    self.ctx.ring.atoms.setdefault(k, a)
        return self.ctx.ring

    def lemma(self, c):
        """intermediate step: used if it can be proved, else ignored"""
        if not isinstance(c, SBool):
            return
        s = self.ctx.solver
        s.set('timeout', self.ctx.prove_timeout)
        try:
            ok = self.ctx.sat(z3.Not(c.e)) is False
            if not ok and z3.is_eq(c.e):
                ok = self.ring().equal(c.e.arg(0), c.e.arg(1))
        finally:
            s.set('timeout', self.ctx.feas_timeout)
        if ok:
            self.ctx.assume_fact(c.e)
            self.lemmas.append(c.e)

    def le(self, a, b, label, tol=None):
        self.check(a <= b, label)

    def forall(self, n, body):
        if isinstance(n, SInt) and n.c is None:
            if self.ctx.decide(n.e > 0):
                body(self.index('i', n))
            return
        for i in range(int(n)):
            body(i)

    def index(self, name, n):
        """an arbitrary index 0 <= i < n"""
        if isinstance(n, SInt) and n.c is None:
            i = SInt(self.ctx.fresh('i', E.INT))
            self.ctx.assume(z3.And(i.e >= 0, i.e < n.e))
            return i
        return self.choice(name, range(int(n)))

    def each(self, xs, fn):
        """fn(x) for every element x"""
        from . import seq as S
        s = S.aslist(xs)
        if isinstance(s, S.SSeq):
            m = SInt(s.n)
            return self.forall(m, lambda i: fn(s[i]))
        for x in s:
            fn(x)

    def assume_all(self, xs, pred):
        """assume pred(x) for all elements"""
        from . import seq as S
        s = S.aslist(xs)
        if isinstance(s, S.SSeq):
            t = S.generic_sel(s.sel, lambda j: S.bool_term(pred(s.base(j))))
            if t is None:
                return
            e = bterm(t.val)
            if s.sel.cond is not None:
                e = z3.Implies(z3.substitute(s.sel.cond, (s.sel.K, t.K)), e)
            S.forall_fact(s.sel.space, s.sel.n, t.K, e, t.regs)
            if self.ctx.sat() is False:
                raise E.Infeasible()
            return
        for x in s:
            self.assume(pred(x))

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            return self._res(label, True, 'path', 0.0)
        return self._res(label + ' (must raise)', False, 'path', 0.0)

    def attempt(self, fn, exc=Exception):
        try:
            return True, fn()
        except exc as e:
            return False, e


def run_contract(c, bound=2, budget=40.0, unbounded=False, max_paths=3000,
                 shard=None):
    """verify one contract; returns summary dict"""
    import traceback
    t0 = _time.time()

    def body(ctx):
        ctx.tick_limit = c.opts.get('ticks', 6)
        V = Universe(ctx, bound, c.opts)
        try:
            c.fn(V)
        except E.EngineStop:
            raise
        except RecursionError:
            raise
        except Exception as exc:
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f for f in tb if '/dcf/' in f.filename and
                     '/verif/' not in f.filename]
            loc = '%s:%s in %s' % (where[-1].filename.split('/')[-1],
                                   where[-1].lineno, where[-1].name) \
                if where else 'contract %s' % tb[-1].lineno
            V._res('no unexpected exception', False, 'path', 0.0,
                   '%s: %s at %s' % (type(exc).__name__, str(exc)[:200], loc))
        else:
            V._res('no unexpected exception', True, 'path', 0.0)
        finally:
            V.close()
            ctx.final_sat = None
        return

    from . import shadow
    shadow.ENTERED.clear()
    runs = E.explore(body, budget=budget, max_paths=max_paths,
                     unbounded=unbounded, shard=shard)
    obl = {}
    paths = 0
    stops = {}
    partial = False
    bounded = False
    queries = 0
    stime = 0.0
    for ctx, outcome in runs:
        if ctx is None:
            stops[outcome] = stops.get(outcome, 0) + 1
            continue
        queries += ctx.n_queries
        stime += ctx.solver_time
        partial = partial or ctx.partial
        bounded = bounded or ctx.bounded
        if outcome == 'infeasible':
            continue
        if outcome != 'done':
            stops[outcome] = stops.get(outcome, 0) + 1
        else:
            paths += 1
        for r in ctx.results:
            o = obl.setdefault(r.name, {'n': 0, 'proved': 0, 'refuted': 0,
                                        'undecided': 0, 'backends': {},
                                        'secs': 0.0, 'models': [],
                                        'detail': ''})
            o['n'] += 1
            o[r.status] += 1
            o['backends'][r.backend] = o['backends'].get(r.backend, 0) + 1
            o['secs'] += r.secs
            if r.status != 'proved':
                o['detail'] = o['detail'] or r.detail
                if len(o['models']) < 4 and r.model:
                    o['models'].append(r.model)
    nob = sum(o['n'] for o in obl.values())
    npr = sum(o['proved'] for o in obl.values())
    nre = sum(o['refuted'] for o in obl.values())
    if nre and not partial:
        status = 'refuted'
    elif stops or nob == 0 or paths == 0 or npr < nob:
        status = 'undecided'
    else:
        status = 'proved'
    return {'contract': c.name, 'status': status, 'paths': paths,
            'obligations': nob, 'discharged': npr, 'refuted': nre,
            'stops': stops, 'detail': obl, 'queries': queries,
            'solver_s': round(stime, 3), 'wall_s': round(
                _time.time() - t0, 3),
            'mode': ('all inputs, bounded length %d' % bound) if bounded
            else 'all inputs',
            'functions': sorted(shadow.ENTERED)}
