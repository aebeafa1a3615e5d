"""Sequences of symbolic length.

A sequence is a template: a value built from terms over an index constant K,
valid for all K in [0, n) that satisfy `cond` (filters).  Element functions,
conditions and bodies of comprehensions of the real code are executed once for
an arbitrary K (`generic`: sub-exploration of all branches, merged to ite
terms); elements at a position are instances of the template.  Facts that hold
for all indices are kept per index space and instantiated at every index term
that occurs (dropping instances is sound, it only loses proofs).

Contracts of the builtins on such sequences: sorted (a bijection that orders
the keys), filter (a strictly increasing enumeration of the indices that
satisfy the condition), set / dict (distinct keys), in / index / min / max /
any / all (a witness or a universal fact), bisect (on provably sorted lists),
sum (an atom with its summand; see `sum_equal` for the proof rules).
"""
import builtins
import types

import z3

from . import engine as E
from .engine import (SReal, SInt, SBool, SNum, SDate, SDelta, SVal, STok,
                     Unsupported, Infeasible, rterm, bterm, sbool)

MAXTERMS = 24


def ctx():
    return E.CUR


# ------------------------------------------------------------ index spaces

class Space(object):
    def __init__(self, c, name='S'):
        self.name = name
        self.terms = []
        self.ids = {}
        self.hooks = []
        self.foralls = []
        self.depth = len(c.generic)
        c.spaces.append(self)

    def reg(self, t):
        c = ctx()
        t = z3.simplify(t) if z3.is_expr(t) else z3.IntVal(t)
        i = t.get_id()
        if i in self.ids:
            return
        if c.log is not None and not c.in_reg:
            c.log.append(('space', self, t))
        if len(self.terms) >= MAXTERMS:
            return
        self.ids[i] = t
        self.terms.append(t)
        c.in_reg += 1
        try:
            for h in list(self.hooks):
                h(t)
        finally:
            c.in_reg -= 1
        for f in list(self.foralls):
            f(t)

    def hook(self, h):
        """h(t) for all present and future index terms"""
        c = ctx()
        self.hooks.append(h)
        c.in_reg += 1
        try:
            for t in list(self.terms):
                h(t)
        finally:
            c.in_reg -= 1

    def forall(self, f):
        self.foralls.append(f)
        for t in list(self.terms):
            f(t)


def forall_fact(space, n, K, e, regs=()):
    """for all 0 <= K < n: e"""
    def inst(t):
        c = ctx()
        rng = z3.And(t >= 0, t < n)
        for r in regs:
            do_reg(r, [(K, t)])
        b = z3.simplify(z3.substitute(e, (K, t)))
        if z3.is_true(b):
            return
        if entails(c, rng):
            c.assume_fact(b)
        else:
            c.assume_fact(z3.Implies(rng, b))
    space.forall(inst)


def entails(c, e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return c.light.check(z3.Not(e)) == z3.unsat


def do_reg(r, pairs):
    c = ctx()
    kind = r[0]
    if kind == 'space':
        r[1].reg(z3.substitute(r[2], *pairs))
    elif kind == 'pool':
        c.register(r[1], z3.substitute(r[2], *pairs))
    elif kind == 'period':
        c.register_period(r[1], r[2], z3.substitute(r[3], *pairs))
    elif kind == 'fact':
        c.assume_fact(z3.substitute(r[1], *pairs))


# ------------------------------------------------------------ values

def _terms(v):
    if isinstance(v, SNum):
        return [v.e] if v.c is None else []
    if isinstance(v, SBool):
        return [v.e]
    if isinstance(v, SDate):
        return _terms(v.ord)
    if isinstance(v, SDelta):
        return _terms(v.days)
    return None


def occurs(t, K):
    todo, seen = [t], set()
    kid = K.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return False


ATOMS = (type(None), bool, int, float, str, bytes, type, types.ModuleType,
         types.BuiltinFunctionType, STok)


def mentions(v, K, seen=None, depth=0):
    if isinstance(v, ATOMS):
        return False
    seen = {} if seen is None else seen
    if id(v) in seen:
        return False
    seen[id(v)] = v
    ts = _terms(v)
    if ts is not None:
        return any(occurs(t, K) for t in ts)
    if isinstance(v, SSeq):
        return v._mentions(K)
    if isinstance(v, (builtins.tuple, builtins.list, builtins.set)):
        return any(mentions(x, K, seen, depth + 1) for x in v)
    if isinstance(v, builtins.dict):
        return any(mentions(x, K, seen, depth + 1) for x in v.values()) or \
            any(mentions(x, K, seen, depth + 1) for x in v.keys())
    if isinstance(v, types.MethodType):
        return mentions(v.__self__, K, seen, depth + 1)
    if isinstance(v, types.FunctionType):
        return any(mentions(c.cell_contents, K, seen, depth + 1)
                   for c in (v.__closure__ or ()) if _full(c)) or any(
                       mentions(d, K, seen) for d in (v.__defaults__ or ()))
    if isinstance(v, z3.ExprRef):
        return occurs(v, K)
    if isinstance(v, (E.Ctx, Space, Sel)) or \
            type(v).__module__.startswith(('z3', 'vc')):
        return False
    d = getattr(v, '__dict__', None)
    if d is not None:
        return mentions(d, K, seen, depth + 1)
    return False


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def vsub(v, pairs):
    """substitute index constants in a value"""
    if isinstance(v, ATOMS):
        return v
    if isinstance(v, SNum):
        return v if v.c is not None else type(v)(
            z3.simplify(z3.substitute(v.e, *pairs)))
    if isinstance(v, SBool):
        return sbool(z3.substitute(v.e, *pairs))
    if isinstance(v, SDate):
        return SDate(vsub(v.ord, pairs), v.bd)
    if isinstance(v, SDelta):
        return SDelta(vsub(v.days, pairs))
    if type(v) is builtins.tuple:
        return builtins.tuple(vsub(x, pairs) for x in v)
    if not any(mentions(v, k) for k, _ in pairs):
        return v
    if type(v) in (builtins.list, UList):
        return copied(type(v)([vsub(x, pairs) for x in v]))
    if type(v) is builtins.dict:
        return copied({k: vsub(x, pairs) for k, x in v.items()})
    if isinstance(v, SSeq):
        return v._vsub(pairs)
    if isinstance(v, types.MethodType):
        return types.MethodType(v.__func__, vsub(v.__self__, pairs))
    if isinstance(v, types.FunctionType):
        raise Unsupported('function depends on the index')
    d = getattr(v, '__dict__', None)
    if d is not None and type(v).__reduce_ex__ is object.__reduce_ex__:
        w = object.__new__(type(v))
        for k, x in d.items():
            w.__dict__[k] = vsub(x, pairs)
        return copied(w)
    raise Unsupported('template of type %s' % type(v).__name__)


def copied(w):
    ctx().copies[id(w)] = w
    return w


def vite(c, a, b):
    """if c then a else b (c: z3 Bool)"""
    if a is b:
        return a
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return sbool(z3.If(c, bterm(a), bterm(b)))
    if E.is_num(a) and E.is_num(b):
        a, b = E.tonum(a), E.tonum(b)
        if a.c is not None and b.c is not None and a.c == b.c and \
                type(a) is type(b):
            return a
        if isinstance(a, SInt) and isinstance(b, SInt):
            return SInt(z3.simplify(z3.If(c, a.e, b.e)))
        return SReal(z3.simplify(z3.If(c, rterm(a), rterm(b))))
    if isinstance(a, SDate) and isinstance(b, SDate) and a.bd == b.bd:
        return SDate(vite(c, a.ord, b.ord), a.bd)
    if isinstance(a, SDelta) and isinstance(b, SDelta):
        return SDelta(vite(c, a.days, b.days))
    if type(a) is type(b):
        if isinstance(a, (str, bytes, type(None), type)) and a == b:
            return a
        if type(a) in (builtins.tuple, builtins.list, UList) and \
                len(a) == len(b):
            r = type(a)(vite(c, x, y) for x, y in zip(a, b))
            return r if isinstance(r, builtins.tuple) else copied(r)
        da, db = getattr(a, '__dict__', None), getattr(b, '__dict__', None)
        if da is not None and not isinstance(a, (types.FunctionType, SSeq)) \
                and builtins.set(da) == builtins.set(db) and \
                not type(a).__module__.startswith('vc'):
            w = object.__new__(type(a))
            for k in da:
                w.__dict__[k] = vite(c, da[k], db[k])
            return copied(w)
    raise Unsupported('merge of %s and %s' % (type(a).__name__,
                                              type(b).__name__))


# ------------------------------------------------------------ generic runs

class Tmpl(object):
    __slots__ = ('K', 'val', 'regs')

    def __init__(self, K, val, regs=()):
        self.K, self.val, self.regs = K, val, builtins.list(regs)


def generic(n, fn, space):
    """run fn(K) for an arbitrary index; returns Tmpl or None (n is zero)"""
    c = ctx()
    n = E.iterm(n) if not z3.is_expr(n) else n
    K = z3.Int(c.name('!K'))
    c.generic.append(K)
    try:
        def run():
            space.reg(K)
            c.log = []
            return fn(SInt(K))
        brs = explore(run, [K >= 0, K < n])
    finally:
        c.generic.pop()
    good = [b for b in brs if b.exc is None]
    bad = [b for b in brs if b.exc is not None]
    if bad:
        j = c.choose(1 + len(bad))
        if j == 0:
            if not good:
                c.assume(n <= 0)
            e = z3.Not(z3.Or(*[b.cond for b in bad]))
            regs = [r for b in bad for r in b.regs if r[0] != 'fact']
            forall_fact(space, n, K, e, regs)
        else:
            b = bad[j - 1]
            w = c.fresh('w', E.INT)
            space.reg(w)
            for r in b.regs:
                do_reg(guard(r, b.cond), [(K, w)])
            c.assume(z3.And(w >= 0, w < n, z3.substitute(b.cond, (K, w))))
            raise b.exc
    if not brs or not good:
        c.assume(n <= 0)
        return None
    val = good[-1].val
    for b in reversed(good[:-1]):
        val = vite(b.cond, b.val, val)
    regs = []
    rng = z3.And(K >= 0, K < n)
    for b in good:
        for r in b.regs:
            regs.append(guard(r, z3.And(rng, b.cond)))
    return Tmpl(K, val, regs)


def guard(r, cond):
    if r[0] == 'fact':
        return ('fact', z3.Implies(cond, r[1]))
    return r


# ------------------------------------------------------------ selections

class NeedMap(Unsupported):
    """a body needs something (positions of a selection, an extreme) that
    does not depend on its index: made before the body"""

    def __init__(self, depth, make):
        Unsupported.__init__(self, 'position in selection inside of a body')
        self.depth, self.make = depth, make


def explore(fn, pre):
    """sub exploration; maps of outer selections are made before"""
    c = ctx()
    for _ in range(12):
        try:
            return c.sub(fn, pre)
        except NeedMap as e:
            if e.depth > len(c.generic) - 1:
                raise
            if e.depth < len(c.generic) - 1:
                raise
            g = c.generic.pop()
            try:
                e.make()
            finally:
                c.generic.append(g)
    raise Unsupported('too many selections')


class Sel(object):
    """which base indices, in which order"""

    def __init__(self, n, space, cond=None, perm=None, K=None):
        self.n, self.space, self.cond, self.perm = n, space, cond, perm
        self.K = K          # index constant of cond
        self._map = None
        self.sortedby = None
        self.condregs = []
        self.depth = len(ctx().generic)

    @property
    def plain(self):
        return self.cond is None and self.perm is None

    def condat(self, t):
        if self.cond is None:
            return z3.BoolVal(True)
        for r in self.condregs:
            do_reg(r, [(self.K, t)])
        return z3.substitute(self.cond, (self.K, t))

    def rng(self, t):
        return z3.And(t >= 0, t < self.n, self.condat(t))

    # positions
    def length(self):
        if self.cond is None:
            return self.n
        return self.map()[2]

    def map(self):
        """(phi, psi, m, position space)"""
        if self._map is None:
            c = ctx()
            if self.plain:
                idf = lambda t: t  # noqa
                self._map = (idf, idf, self.n, self.space)
                return self._map
            for o in c.memo.get('sels', ()):
                if o.same(self):
                    self._map = o._map
                    return self._map
            if c.generic:
                raise NeedMap(self.depth, self.map)
            c.memo['sels'] = c.memo.get('sels', ()) + (self,)
            self._map = self._newmap(c)
        return self._map

    def _newmap(self, c):
        tag = c.name('!sel')
        phi = z3.Function(tag + '_phi', E.INT, E.INT)
        psi = z3.Function(tag + '_psi', E.INT, E.INT)
        if self.cond is None:
            m = self.n
        else:
            m = z3.Int(tag + '_m')
            c.assume_fact(z3.And(m >= 0, m <= self.n))
        sp = Space(c, tag)
        ordered = self.perm is None

        def ap(f, t):
            # phi(psi(t)) = t, psi(phi(t)) = t
            g = psi if f.eq(phi) else phi
            if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(g):
                return t.arg(0)
            return f(t)

        def onpos(t):
            j = ap(phi, t)
            c = ctx()
            # phi and psi extend to bijections of the integers
            c.assume_fact(psi(j) == t)
            c.assume_fact(z3.Implies(
                z3.And(t >= 0, t < m),
                z3.And(self.rng(j), ap(psi, j) == t)))
            self.space.reg(j)
            if ordered:
                for o in sp.terms:
                    if o.eq(t):
                        continue
                    a, b = ap(phi, o), j
                    ok = z3.And(o >= 0, o < m, t >= 0, t < m)
                    c.assume_fact(z3.Implies(z3.And(ok, o < t), a < b))
                    c.assume_fact(z3.Implies(z3.And(ok, t < o), b < a))
            else:
                self.perm(sp, t, j, lambda o: ap(phi, o), m)

        def onbase(j):
            k = ap(psi, j)
            ctx().assume_fact(phi(k) == j)
            ctx().assume_fact(z3.Implies(
                self.rng(j), z3.And(k >= 0, k < m, ap(phi, k) == j)))
            sp.reg(k)
        sp.hook(onpos)
        self._map = (lambda t: ap(phi, t), lambda t: ap(psi, t), m, sp)
        self.space.hook(onbase)
        sp.reg(z3.IntVal(0))
        return self._map

    def same(self, o):
        if self is o:
            return True
        if self.perm is not o.perm or self.space is not o.space:
            return False
        if not (self.n.eq(o.n) or entails(ctx(), self.n == o.n)):
            return False
        if (self.cond is None) != (o.cond is None):
            return False
        if self.cond is None:
            return True
        a = z3.simplify(self.cond)
        b = z3.simplify(z3.substitute(o.cond, (o.K, self.K)))
        if a.eq(b):
            return True
        return prove_forall(self.n, lambda t: self.condat(t) == o.condat(t),
                            self.space)


def arbitrary_order(sp, t, j, phi, m):
    pass


def key_order(at_base, strict=False):
    """facts of a sorted order: keys do not decrease"""
    def facts(sp, t, j, phi, m):
        c = ctx()
        b = at_base(j)
        for o in builtins.list(sp.terms):
            if o.eq(t):
                continue
            a = at_base(phi(o))
            ok = z3.And(o >= 0, o < m, t >= 0, t < m)
            for p, q, x, y in ((o, t, a, b), (t, o, b, a)):
                le = bterm(lex_le(x, y))
                c.assume_fact(z3.Implies(z3.And(ok, p < q), le))
    return facts


def lex_le(x, y):
    if isinstance(x, builtins.tuple):
        a, b = x[0], y[0]
        if len(x) == 1:
            return a <= b
        try:
            rest = lex_le(x[1:], y[1:])
        except (TypeError, Unsupported):
            return a <= b
        return E.sor(a < b, E.sand(a == b, rest))
    return x <= y


def prove_forall(n, prop, space, pre=None):
    """try to prove prop(t) for an arbitrary index 0 <= t < n"""
    c = ctx()

    def run():
        t = SInt(c.fresh('j', E.INT)).e
        c.assume(z3.And(t >= 0, t < n))
        space.reg(t)
        if pre is not None:
            c.assume(pre(t))
        return c.sat(z3.Not(bterm(prop(t)))) is False
    return try_prove(run)


def try_prove(run):
    c = ctx()
    K = z3.Int(c.name('!K'))
    c.generic.append(K)
    try:
        brs = explore(run, [])
    except NeedMap:
        raise
    except Unsupported:
        return False
    finally:
        c.generic.pop()
    return all(b.exc is None and b.val is True for b in brs)


# ------------------------------------------------------------ sequences

def native(x):
    return not isinstance(x, (SSeq, LazyGen, SDict, SSet))


class UList(builtins.list):
    """list that may become one of symbolic length"""

    __hash__ = None

    def become(self, r):
        builtins.list.clear(self)
        if isinstance(r, SSeq):
            self.__class__ = SSeq
            self.sel, self.tmpl = r.sel, r.tmpl
            self.kind, self.used = 'list', False
            ctx().keep.append(self)
        else:
            self.__class__ = UList
            builtins.list.extend(self, r)

    def extend(self, xs):
        from . import shadow
        if not shadow.symseq(xs):
            return builtins.list.extend(self, xs)
        y = aslist(xs)
        if isinstance(y, SSeq):
            self.become(concat(builtins.list(self), y))
        else:
            builtins.list.extend(self, y)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, SSeq):
            return concat(builtins.list(self), o)
        r = builtins.list.__add__(self, o)
        return r if r is NotImplemented else UList(r)

    def __mul__(self, k):
        if isinstance(k, SNum):
            return repeat(builtins.list(self), k)
        r = builtins.list.__mul__(self, k)
        return r if r is NotImplemented else UList(r)

    __rmul__ = __mul__

    def copy(self):
        return UList(builtins.list(self))

    def __getitem__(self, i):
        if isinstance(i, SInt) and i.c is None:
            for k in range(len(self)):
                if i == k or i == k - len(self):
                    return builtins.list.__getitem__(self, k)
            raise IndexError('list index out of range')
        r = builtins.list.__getitem__(self, i)
        return UList(r) if isinstance(i, slice) else r

    def __eq__(self, o):
        if isinstance(o, SSeq):
            return SSeq.__eq__(o, self)
        return builtins.list.__eq__(self, o)

    def __ne__(self, o):
        return E.snot(self.__eq__(o))


class SSeq(UList):
    """sequence of symbolic length"""
    _vc_seq = True

    def __init__(self, sel, tmpl, kind='list'):
        builtins.list.__init__(self)
        self.sel, self.tmpl, self.kind = sel, tmpl, kind
        self.used = False
        ctx().keep.append(self)

    # -- elements
    def base(self, j):
        """element with base index j (z3 Int)"""
        c = ctx()
        j = z3.simplify(j)
        key = ('inst', id(self.tmpl), j.get_id())
        if key in c.memo:
            return c.memo[key]
        c.keep.append((self.tmpl, j))
        self.sel.space.reg(j)
        c.in_inst += 1
        try:
            for r in self.tmpl.regs:
                do_reg(r, [(self.tmpl.K, j)])
        finally:
            c.in_inst -= 1
        v = vsub(self.tmpl.val, [(self.tmpl.K, j)])
        c.memo[key] = v
        return v

    def at(self, t):
        """element at position t (z3 Int, in range)"""
        if isinstance(t, int):
            t = z3.IntVal(t)
        if self.sel.plain:
            return self.base(t)
        phi, _, _, sp = self.sel.map()
        sp.reg(z3.simplify(t))
        return self.base(phi(z3.simplify(t)))

    def _once(self):
        if self.kind == 'gen':
            if self.used:
                raise Unsupported('iterator consumed twice')
            self.used = True
        return self

    @property
    def n(self):
        return self.sel.length()

    def _vc_len(self):
        if self.kind == 'gen':
            raise TypeError('object of type generator has no len()')
        return SInt(self.n)

    def __len__(self):
        raise Unsupported('native len of a symbolic sequence')

    def __bool__(self):
        if self.kind == 'gen':
            return True
        if self.sel.cond is None:
            return ctx().decide(self.sel.n > 0)
        return exists(self.sel, lambda t: z3.BoolVal(True))

    def __hash__(self):
        return 0

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic sequence')

    def __reversed__(self):
        n = self.n
        return build(n, lambda k: self.at(n - 1 - k.e), 'gen')

    def _index(self, i):
        n = self.n
        if isinstance(i, SNum) and i.c is not None:
            i = int(i.c)
        if isinstance(i, bool) or not isinstance(i, (int, SInt)):
            raise TypeError('list indices must be integers')
        if isinstance(i, int):
            t = z3.IntVal(i) if i >= 0 else z3.simplify(n + i)
        else:
            t = i.e
            if not ctx().decide(t >= 0):
                t = z3.simplify(n + t)
        if not ctx().decide(z3.And(t >= 0, t < n)):
            raise IndexError('list index out of range')
        return t

    def _bounds(self, s):
        n = self.n
        if s.step is not None and s.step != 1:
            raise Unsupported('slice with step')

        def clamp(i, default):
            if i is None:
                return default
            if isinstance(i, SNum) and i.c is not None:
                i = int(i.c)
            t = z3.IntVal(i) if isinstance(i, int) else E.iterm(i)
            neg = i < 0 if isinstance(i, int) else ctx().decide(t < 0)
            if neg:
                t = z3.simplify(n + t)
                if not ctx().decide(t >= 0):
                    return z3.IntVal(0)
                return t
            if not ctx().decide(t <= n):
                return n
            return t
        return clamp(s.start, z3.IntVal(0)), clamp(s.stop, n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi = self._bounds(i)
            if not ctx().decide(lo < hi):
                return [] if self.kind == 'list' else ()
            if self.sel.plain and z3.is_int_value(lo) and \
                    lo.as_long() == 0 and hi.eq(self.n):
                return SSeq(self.sel, self.tmpl, self.kind)
            m = z3.simplify(hi - lo)
            if z3.is_int_value(m):
                r = [self.at(z3.simplify(lo + k))
                     for k in range(m.as_long())]
                return r if self.kind == 'list' else builtins.tuple(r)
            r = build(m, lambda k: self.at(k.e + lo), self.kind)
            sp = r.sel.space
            self.sel.map()[3].hook(lambda t: sp.reg(z3.simplify(t - lo)))
            return r
        return self.at(self._index(i))

    # -- list interface
    def _mut(self):
        if self.kind != 'list':
            raise AttributeError('object is no list')
        if ctx().generic:
            raise Unsupported('list changed inside of a body')

    def _set(self, o):
        self.become(o)

    def __mul__(self, k):
        raise Unsupported('repetition of a symbolic sequence')

    __rmul__ = __mul__

    def clear(self):
        self._mut()
        self.become([])

    def append(self, x):
        self._mut()
        self._set(concat(self, [x]))

    def extend(self, xs):
        self._mut()
        self._set(concat(self, aslist(xs)))

    def insert(self, i, x):
        self._mut()
        lo, _ = self._bounds(slice(i, None))
        n = self.n
        old = SSeq(self.sel, self.tmpl, 'list')
        self._set(build(n + 1, lambda k: old.at(k.e) if k < SInt(lo) else (
            x if k == SInt(lo) else old.at(k.e - 1)), 'list'))

    def pop(self, i=-1):
        self._mut()
        t = self._index(i)
        v = self.at(t)
        old = SSeq(self.sel, self.tmpl, 'list')
        n = self.n
        self._set(build(n - 1, lambda k: old.at(k.e) if k < SInt(t)
                        else old.at(k.e + 1), 'list'))
        return v

    def copy(self):
        return SSeq(self.sel, self.tmpl, self.kind)

    def sort(self, key=None, reverse=False):
        self._mut()
        self._set(s_sorted(self, key, reverse))

    def reverse(self):
        self._mut()
        old = SSeq(self.sel, self.tmpl, 'list')
        n = self.n
        self._set(build(n, lambda k: old.at(n - 1 - k.e), 'list'))

    def remove(self, x):
        self.pop(self.index(x))

    def __setitem__(self, i, v):
        self._mut()
        t = self._index(i)
        old = SSeq(self.sel, self.tmpl, 'list')
        if self.sel.plain:
            sp = self.sel.space
            sp.reg(t)
            tm = generic(self.sel.n, lambda k: v if k == SInt(t)
                         else old.at(k.e), sp)
            self.tmpl = tm
            return
        self._set(build(self.n, lambda k: v if k == SInt(t)
                        else old.at(k.e), 'list'))

    def __delitem__(self, i):
        self.pop(i)

    def __add__(self, o):
        if not isseq(o):
            return NotImplemented
        return concat(self, o)

    def __radd__(self, o):
        if not isseq(o):
            return NotImplemented
        return concat(o, self)

    def __iadd__(self, o):
        if self.kind == 'list':
            self.extend(o)
            return self
        return concat(self, o)

    def frozen(self):
        """the present contents (facts stay valid after changes)"""
        return SSeq(self.sel, self.tmpl, self.kind)

    def index(self, x):
        self = self.frozen()
        if self.sel.plain:
            r = find(self.sel, lambda t: bterm(veq(self.base(t), x)), True)
            if r is None:
                raise ValueError('not in list')
            return SInt(r)
        _, psi, m, sp = self.sel.map()
        s2 = Sel(m, sp)
        r = find(s2, lambda t: bterm(veq(self.at(t), x)), True)
        if r is None:
            raise ValueError('not in list')
        return SInt(r)

    def count(self, x):
        raise Unsupported('count')

    def _vc_in(self, x):
        self._once()
        s = self.frozen()
        return exists(s.sel, lambda t: bterm(veq(s.base(t), x)))

    def __contains__(self, x):
        return bool(self._vc_in(x))

    def __eq__(self, o):
        if o is self:
            return True
        if not isseq(o):
            return False
        return seq_eq(self, o)

    def __ne__(self, o):
        return E.snot(self.__eq__(o))

    def __repr__(self):
        return 'SSeq(%s)' % (self.tmpl.val,)

    # -- folds and comprehension
    def _vc_comp(self, kind, elt, cond, star):
        self._once()
        call = (lambda f, x: f(*unpack(x))) if star else (lambda f, x: f(x))
        s = self
        if cond is not None:
            s = s_filter(s, lambda x: call(cond, x))
            if not isinstance(s, SSeq):
                return fromnative(s, kind)
        r = s_map(s, lambda x: call(elt, x))
        return finish(r, kind)

    def _vc_sum(self, start=0):
        self._once()
        return start + s_sum(self)

    def _vc_bisect(self, x, lo, hi, side):
        n = self.n
        c = ctx()
        if not is_sorted(self):
            raise Unsupported('bisect on a list not known to be sorted')
        lo = z3.IntVal(lo) if isinstance(lo, int) else E.iterm(lo)
        hi = n if hi is None else (
            z3.IntVal(hi) if isinstance(hi, int) else E.iterm(hi))
        if not c.decide(lo < hi):
            return SInt(lo)
        if not c.decide(z3.And(lo >= 0, hi <= n)):
            raise Unsupported('bisect bounds')
        for o, y, l2, h2, sd, r in c.memo.get('bisects', ()):
            if sd == side and same_term(lo, l2) and same_term(hi, h2) and \
                    same_val(None, x, y) and same_seq(None, self, o):
                return r
        i = c.fresh('bisect', E.INT)
        c.assume_fact(z3.And(lo <= i, i <= hi))
        left = side == 'left'
        sp = self.sel.map()[3]

        def below(v):
            return bterm(v < x) if left else bterm(v <= x)
        p = self.at(i - 1)
        q = self.at(i)
        c.assume(z3.And(z3.Implies(i > lo, below(p)),
                        z3.Implies(i < hi, z3.Not(below(q)))))
        c.decide(i > lo)
        c.decide(i < hi)
        self_ = SSeq(self.sel, self.tmpl, self.kind)

        def inst(t):
            v = self_.at(t)
            b = below(v)
            ctx().assume_fact(z3.Implies(z3.And(lo <= t, t < i), b))
            ctx().assume_fact(z3.Implies(z3.And(i <= t, t < hi), z3.Not(b)))
        sp.forall(inst)
        c.memo['bisects'] = c.memo.get('bisects', ()) + (
            (self_, x, lo, hi, side, SInt(i)),)
        return SInt(i)

    # contracts
    def _vc_count(self, x, op):
        """number of elements <= x / < x of an increasing sequence"""
        return self._vc_bisect(x, 0, None, 'right' if op == 'le' else 'left')

    def _mentions(self, K):
        return occurs(self.sel.n, K) or (
            self.sel.cond is not None and occurs(self.sel.cond, K)) or \
            mentions(self.tmpl.val, K)

    def _vsub(self, pairs):
        raise Unsupported('nested symbolic sequence')


def isseq(x):
    return isinstance(x, (SSeq, builtins.list, builtins.tuple))


def unpack(x):
    if isinstance(x, (builtins.tuple, builtins.list)) and \
            not isinstance(x, SSeq):
        return x
    raise Unsupported('unpack of %s' % type(x).__name__)


def veq(a, b):
    if isinstance(a, builtins.tuple) and isinstance(b, builtins.tuple):
        if len(a) != len(b):
            return False
        return E.sand(*[veq(x, y) for x, y in zip(a, b)])
    return a == b


class LazyGen(object):
    """generator expression, evaluated when consumed"""
    _vc_seq = True

    def __init__(self, run):
        self.run = run
        self.used = False

    def force(self):
        if self.used:
            raise Unsupported('generator consumed twice')
        self.used = True
        return self.run()

    def __iter__(self):
        r = self.force()
        if isinstance(r, SSeq):
            raise Unsupported('native iteration over a symbolic sequence')
        return iter(r)

    def _vc_comp(self, kind, elt, cond, star):
        from . import shadow
        return shadow.comp(kind, self.force(), elt, cond, star)

    def _vc_sum(self, start=0):
        from . import shadow
        return shadow.b_sum(self.force(), start)

    def _vc_in(self, x):
        from . import shadow
        return shadow.in_(x, self.force())


def aslist(x):
    """list contents of an iterable: SSeq or python list"""
    while isinstance(x, LazyGen):
        x = x.force()
    if isinstance(x, SSeq):
        x._once()
        return SSeq(x.sel, x.tmpl, 'list')
    if isinstance(x, SDict):
        return SSeq(x.keys_.sel, x.keys_.tmpl, 'list')
    if isinstance(x, SSet):
        return SSeq(x.seq.sel, x.seq.tmpl, 'list')
    it = getattr(type(x), '__iter__', None)
    if it is not None and isinstance(it, types.FunctionType):
        y = it(x)
        if y is not x and (not native(y) or isseq(y)):
            return aslist(y)
        return builtins.list(y)
    return builtins.list(x)


def fromnative(x, kind):
    if kind == 'list':
        return UList(x)
    if kind == 'tuple':
        return builtins.tuple(x)
    if kind == 'set':
        return builtins.set(x)
    if kind == 'dict':
        return builtins.dict(x)
    return iter(x)


def finish(r, kind):
    if not isinstance(r, SSeq):
        return fromnative(r, kind)
    if kind in ('list', 'tuple', 'gen'):
        return SSeq(r.sel, r.tmpl, kind)
    if kind == 'set':
        return SSet(r)
    if kind == 'dict':
        return mkdict(r)
    raise Unsupported(kind)


def build(n, fn, kind='list'):
    """sequence of length n with elements fn(k)"""
    c = ctx()
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return fromnative([fn(SInt(k)) for k in range(n.as_long())], kind)
    sp = Space(c, 'B')
    t = generic(n, fn, sp)
    if t is None:
        return fromnative([], kind)
    return SSeq(Sel(n, sp), t, kind)


def const_seq(n, v, kind='list'):
    if not ctx().decide(n > 0):
        return fromnative([], kind)
    sp = Space(ctx(), 'C')
    return SSeq(Sel(n, sp), Tmpl(z3.Int(ctx().name('!K')), v), kind)


def repeat(xs, n):
    """list * n"""
    if isinstance(n, SInt) and n.c is not None:
        return xs * int(n.c)
    if not isinstance(n, SInt):
        raise TypeError("can't multiply sequence by non-int")
    kind = 'tuple' if isinstance(xs, builtins.tuple) else 'list'
    if len(xs) != 1:
        raise Unsupported('repetition of %d elements' % len(xs))
    return const_seq(n.e, xs[0], kind)


def concat(a, b):
    kind = a.kind if isinstance(a, SSeq) else (
        'list' if isinstance(a, builtins.list) else 'tuple')
    if not isinstance(a, SSeq) and not len(a):
        return SSeq(b.sel, b.tmpl, kind)
    if not isinstance(b, SSeq) and not len(b):
        return SSeq(a.sel, a.tmpl, kind)

    def parts(x):
        if isinstance(x, SSeq):
            y = SSeq(x.sel, x.tmpl, 'list')
            return y.n, y.at
        x = builtins.list(x)

        def at(t):
            for i, v in enumerate(x[:-1]):
                if SInt(t) == i:
                    return v
            return x[-1]
        return z3.IntVal(len(x)), at
    na, fa = parts(a)
    nb, fb = parts(b)
    n = z3.simplify(na + nb)
    r = build(n, lambda k: fa(k.e) if k < SInt(na) else
              fb(z3.simplify(k.e - na)), kind)
    sp = r.sel.space
    if isinstance(a, SSeq):
        a.sel.map()[3].hook(lambda t: sp.reg(t))
    if isinstance(b, SSeq):
        b.sel.map()[3].hook(lambda t: sp.reg(z3.simplify(t + na)))
    for x, o in ((a, z3.IntVal(0)), (b, na)):
        if not isinstance(x, SSeq):
            for i in range(len(x)):
                sp.reg(z3.simplify(o + i))
    return r


def s_map(s, f):
    t = generic_sel(s.sel, lambda j: f(s.base(j)))
    if t is None:
        return []
    return SSeq(s.sel, t, 'list')


def generic_sel(sel, fn):
    """run fn(base index) for an arbitrary selected base index"""
    c = ctx()
    if sel.cond is None:
        return generic(sel.n, lambda k: fn(k.e), sel.space)
    K0 = [None]

    def run(k):
        K0[0] = k.e
        cc = sel.condat(k.e)
        c.assume(cc)
        return fn(k.e)
    # exceptions and facts hold under the condition only
    return generic(sel.n, run, sel.space)


def s_filter(s, cond):
    t = generic_sel(s.sel, lambda j: bool_term(cond(s.base(j))))
    if t is None:
        return []
    cnd = bterm(t.val)
    sel = Sel(s.sel.n, s.sel.space, None, s.sel.perm, t.K)
    cnd = z3.simplify(cnd)
    if z3.is_true(cnd):
        return SSeq(s.sel, s.tmpl, s.kind)
    if z3.is_false(cnd):
        return []
    if s.sel.sortedby is not None:
        sel.sortedby = s.sel.sortedby
    old = s.sel.cond
    if old is not None:
        cnd = z3.And(z3.substitute(old, (s.sel.K, t.K)), cnd)
    sel.cond = cnd
    sel.condregs = [r for r in t.regs] + [
        subreg(r, s.sel.K, t.K) for r in s.sel.condregs]
    return SSeq(sel, s.tmpl, s.kind)


def subreg(r, a, b):
    if r[0] == 'fact':
        return ('fact', z3.substitute(r[1], (a, b)))
    if r[0] == 'space':
        return ('space', r[1], z3.substitute(r[2], (a, b)))
    if r[0] == 'pool':
        return ('pool', r[1], z3.substitute(r[2], (a, b)))
    return r[:3] + (z3.substitute(r[3], (a, b)),)


def bool_term(x):
    if isinstance(x, (bool, SBool)):
        return x
    return sbool(bterm(x)) if isinstance(x, SVal) else bool(x)


def find(sel, prop, first=False):
    """witness base index with prop, or None and a universal fact"""
    c = ctx()
    for t in builtins.list(sel.space.terms):
        if entails(c, sel.rng(t)):
            p = prop(t)
            if not first and entails(c, p):
                return t
    j = c.choose(2)
    if j == 0:
        w = c.fresh('w', E.INT)
        sel.space.reg(w)
        e = z3.And(sel.rng(w), prop(w))
        c.assume(e)
        if first:
            forall_pred(sel, lambda t: z3.Implies(t < w, z3.Not(prop(t))))
        return w
    forall_pred(sel, lambda t: z3.Not(prop(t)))
    if c.sat() is False:
        raise Infeasible()
    return None


def forall_pred(sel, pred):
    def inst(t):
        c = ctx()
        e = z3.simplify(z3.Implies(sel.rng(t), pred(t)))
        if z3.is_true(e):
            return
        c.assume_fact(e)
    sel.space.forall(inst)


def exists(sel, prop):
    return find(sel, prop) is not None


def s_any(s):
    s._once()
    s = s.frozen()
    return exists(s.sel, lambda t: bterm(s.base(t)))


def s_all(s):
    s._once()
    s = s.frozen()
    return not exists(s.sel, lambda t: z3.Not(bterm(s.base(t))))


def s_extreme(s, sign, key=None, default=E):
    """min (sign 1) / max (sign -1)"""
    s._once()
    c = ctx()
    w = None
    if key is None:
        for o, sg, v in c.memo.get('extremes', ()):
            if sg == sign and same_seq(None, s, o):
                w = v
                break
    if w is None:
        depth = level(s)
        if key is None and depth < len(c.generic):
            raise NeedMap(depth, lambda: extreme(s, sign, None))
        w = extreme(s, sign, key)
    if w is False:
        if default is not E:
            return default
        raise ValueError('arg is an empty sequence')
    return s.base(w)


def level(s):
    """number of enclosing bodies the sequence depends on"""
    c = ctx()
    for i in range(len(c.generic), 0, -1):
        if s._mentions(c.generic[i - 1]):
            return i
    return builtins.max(s.sel.space.depth,
                        0 if s.sel.plain else s.sel.depth)


def extreme(s, sign, key):
    c = ctx()
    k = s if key is None else s_map(s, key)
    s = SSeq(s.sel, s.tmpl, 'list')
    if not exists(s.sel, lambda t: z3.BoolVal(True)):
        w = False
    else:
        w = c.fresh('m', E.INT)
        s.sel.space.reg(w)
        c.assume(s.sel.rng(w))
        m = k.base(w)

        def le(t):
            v = k.base(t)
            return bterm(m <= v) if sign > 0 else bterm(v <= m)
        forall_pred(s.sel, le)
    if key is None:
        c.memo['extremes'] = c.memo.get('extremes', ()) + ((s, sign, w),)
    return w


def positions(s):
    """the sequence with base indices equal to positions"""
    if s.sel.plain:
        return s
    phi, psi, m, sp = s.sel.map()
    t = generic(m, lambda k: s.at(k.e), sp)
    if t is None:
        return []
    return SSeq(Sel(m, sp), t, s.kind)


def is_sorted(s, strict=False):
    c = ctx()
    key = ('sorted', id(s.tmpl), id(s.sel), strict)
    if key in c.memo:
        return c.memo[key]
    c.keep += [s.tmpl, s.sel]
    if s.sel.perm is None:
        # base indices ascend: any two selected indices
        def pair():
            i, j = c.fresh('i', E.INT), c.fresh('j', E.INT)
            s.sel.space.reg(i)
            s.sel.space.reg(j)
            c.assume(z3.And(s.sel.rng(i), s.sel.rng(j), i < j))
            a, b = s.base(i), s.base(j)
            if isinstance(a, builtins.tuple):
                e = bterm(a[0] < b[0])
            else:
                e = bterm(a < b if strict else a <= b)
            return c.sat(z3.Not(e)) is False
        r = try_prove(pair)
        if r or s.sel.cond is not None:
            c.memo[key] = r
            return r
    o = SSeq(s.sel, s.tmpl, 'list')
    m = s.n

    def run():
        t = c.fresh('j', E.INT)
        c.assume(z3.And(t >= 0, t + 1 < m))
        a, b = o.at(t), o.at(t + 1)
        if isinstance(a, builtins.tuple):
            e = bterm(a[0] < b[0])
        else:
            e = bterm(a < b if strict else a <= b)
        return c.sat(z3.Not(e)) is False
    if not strict and s.sel.perm is not None and s.sel.perm is not arbitrary_order:
        r = s.sel.sortedby is s.tmpl or try_prove(run)
    else:
        r = try_prove(run)
    c.memo[key] = r
    return r


def distinct(s):
    c = ctx()
    key = ('distinct', id(s.tmpl), id(s.sel))
    if key in c.memo:
        return c.memo[key]

    def run():
        i, j = c.fresh('i', E.INT), c.fresh('j', E.INT)
        s.sel.space.reg(i)
        s.sel.space.reg(j)
        c.assume(z3.And(s.sel.rng(i), s.sel.rng(j), i < j))
        return c.sat(bterm(veq(s.base(i), s.base(j)))) is False
    r = try_prove(run)
    c.memo[key] = r
    return r


def s_sorted(x, key=None, reverse=False):
    if isinstance(x, SSet):
        return x.sorted(key, reverse)
    s = aslist(x)
    if not isinstance(s, SSeq):
        return builtins.sorted(s, key=key, reverse=bool(reverse))
    if reverse:
        raise Unsupported('sorted(reverse)')
    ks = s if key is None else s_map(s, key)
    if not isinstance(ks, SSeq):
        return []
    if s.sel.perm is not None:
        # a permutation of a strictly increasing list: sorting restores it
        plain = Sel(s.sel.n, s.sel.space, s.sel.cond, None, s.sel.K)
        plain.condregs = s.sel.condregs
        if is_sorted(SSeq(plain, ks.tmpl), strict=True):
            return SSeq(plain, s.tmpl, 'list')
    elif is_sorted(ks):
        return SSeq(s.sel, s.tmpl, 'list')
    c = ctx()
    if s.sel.cond is None:
        # order by equal keys: the same permutation
        pk = SSeq(Sel(s.sel.n, s.sel.space), ks.tmpl)
        for o, sel in c.memo.get('orders', ()):
            if same_seq(None, o, pk):
                r = respace(SSeq(Sel(s.sel.n, s.sel.space), s.tmpl), o.sel)
                return SSeq(sel, r.tmpl, 'list')
    sel = Sel(s.sel.n, s.sel.space, s.sel.cond, None, s.sel.K)
    sel.condregs = s.sel.condregs
    sel.perm = key_order(ks.base)
    if isinstance(ks.tmpl.val, SVal):
        sel.sortedby = ks.tmpl
    if s.sel.cond is None and not c.generic:
        c.memo['orders'] = c.memo.get('orders', ()) + ((pk, sel),)
    return SSeq(sel, s.tmpl, 'list')


def link(a, b):
    """identify two index spaces"""
    key = ('link', id(a), id(b))
    if a is b or key in ctx().memo:
        return
    ctx().memo[key] = True
    ctx().keep += [a, b]
    a.hook(b.reg)


def s_zip(seqs):
    ss = [aslist(x) for x in seqs]
    if not any(isinstance(x, SSeq) for x in ss):
        return zip(*ss)
    if any(not isinstance(x, SSeq) and not len(x) for x in ss):
        return iter([])
    if all(isinstance(x, SSeq) for x in ss):
        f = ss[0]
        if f.sel.plain and all(x.sel.plain and (
                x.sel.n.eq(f.sel.n) or entails(ctx(), x.sel.n == f.sel.n))
                for x in ss[1:]) and not all(
                    x.sel.space is f.sel.space for x in ss[1:]):
            # common index: registered in all spaces
            ss = [f] + [respace(x, f.sel) for x in ss[1:]]
        if all(f.sel.same(x.sel) for x in ss[1:]):
            K = f.tmpl.K
            regs = builtins.list(f.tmpl.regs)
            vals = [f.tmpl.val]
            for x in ss[1:]:
                regs += [subreg(r, x.tmpl.K, K) for r in x.tmpl.regs]
                vals.append(vsub(x.tmpl.val, [(x.tmpl.K, K)]))
            return SSeq(f.sel, Tmpl(K, builtins.tuple(vals), regs), 'gen')
    ns, fs, sps = [], [], []
    c = ctx()
    for x in ss:
        if isinstance(x, SSeq):
            y = SSeq(x.sel, x.tmpl, 'list')
            ns.append(y.n)
            fs.append(y.at)
            sps.append(y.sel.map()[3])
        else:
            n = z3.IntVal(len(x))
            y = concat(x[:-1], []) if False else x
            ns.append(n)
            fs.append(_at_native(y))
    n = ns[0]
    for m in ns[1:]:
        if n.eq(m) or entails(c, n == m):
            continue
        n = n if c.decide(n <= m) else m
    n = z3.simplify(n)
    if not c.decide(n > 0):
        return iter([])
    if z3.is_int_value(n):
        return iter([builtins.tuple(f(z3.IntVal(k)) for f in fs)
                     for k in range(n.as_long())])
    sp = Space(c, 'Z')
    t = generic(n, lambda k: builtins.tuple(f(k.e) for f in fs), sp)
    if t is None:
        return iter([])
    for o in sps:
        o.hook(sp.reg)
    return SSeq(Sel(n, sp), t, 'gen')


def respace(x, sel):
    if x.sel.space is sel.space:
        return x
    link(x.sel.space, sel.space)
    t = x.tmpl
    return SSeq(sel, Tmpl(t.K, t.val, [('space', x.sel.space, t.K)] + t.regs),
                'list')


def _at_native(x):
    def at(t):
        for i, v in enumerate(x[:-1]):
            if SInt(t) == i:
                return v
        return x[-1]
    return at


def unzip(s):
    """zip(*s)"""
    s = aslist(s)
    v = s.tmpl.val
    if not isinstance(v, builtins.tuple):
        raise Unsupported('zip(*) of non tuples')
    if not ctx().decide(s.n > 0):
        return []
    return [SSeq(s.sel, Tmpl(s.tmpl.K, x, s.tmpl.regs), 'tuple') for x in v]


def s_enumerate(x, start=0):
    s = aslist(x)
    if not isinstance(s, SSeq):
        return enumerate(s, start)
    s = positions(s)
    t = generic(s.sel.n, lambda k: (k + start, s.base(k.e)), s.sel.space)
    return SSeq(s.sel, t, 'gen')


def srange(*a):
    lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
    if len(a) > 2:
        raise Unsupported('range with step')
    lo, hi = E.tonum(lo), E.tonum(hi)
    n = z3.simplify(hi.e - lo.e)
    c = ctx()
    if not c.decide(n > 0):
        return range(0)
    sp = Space(c, 'R')
    K = z3.Int(c.name('!K'))
    return SSeq(Sel(n, sp), Tmpl(K, SInt(z3.simplify(lo.e + K))), 'tuple')


# ------------------------------------------------------------ sets, dicts

class SSet(object):
    _vc_seq = True

    def __init__(self, seq):
        if not isinstance(seq, SSeq):
            raise Unsupported('set')
        self.seq = SSeq(seq.sel, seq.tmpl, 'list')
        self._m = None

    def __hash__(self):
        return 0

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic set')

    def _vc_in(self, x):
        return self.seq._vc_in(x)

    def __contains__(self, x):
        return self._vc_in(x)

    def __bool__(self):
        return bool(self.seq)

    def _vc_len(self):
        s = self.seq
        if distinct(s):
            return SInt(s.n)
        c = ctx()
        if self._m is None:
            n = s.n
            if c.choose(2) == 0:
                def hk(t):
                    for o in builtins.list(s.sel.space.terms):
                        if not o.eq(t):
                            ctx().assume_fact(z3.Implies(
                                z3.And(s.sel.rng(o), s.sel.rng(t), o != t),
                                z3.Not(bterm(veq(s.base(o), s.base(t))))))
                s.sel.space.forall(hk)
                self._m = n
            else:
                i, j = c.fresh('i', E.INT), c.fresh('j', E.INT)
                s.sel.space.reg(i)
                s.sel.space.reg(j)
                c.assume(z3.And(s.sel.rng(i), s.sel.rng(j), i < j,
                                bterm(veq(s.base(i), s.base(j)))))
                m = c.fresh('card', E.INT)
                c.assume_fact(z3.And(m >= 1, m < n))
                self._m = m
        return SInt(self._m)

    def _vc_comp(self, kind, elt, cond, star):
        if not distinct(self.seq):
            raise Unsupported('iteration over a set of repeated elements')
        return self.seq._vc_comp(kind, elt, cond, star)

    def sorted(self, key=None, reverse=False):
        if key is not None or reverse:
            raise Unsupported('sorted(set, key)')
        s = self.seq
        if distinct(s):
            return s_sorted(s)
        return union(s)


def union(s):
    """sorted(set(s)): strictly increasing enumeration of the elements"""
    c = ctx()
    if not c.decide(s.n > 0):
        return []
    s = positions(s)
    tag = c.name('!union')
    src = z3.Function(tag + '_src', E.INT, E.INT)
    pos = z3.Function(tag + '_pos', E.INT, E.INT)
    m = z3.Int(tag + '_m')
    c.assume_fact(z3.And(m >= 1, m <= s.n))
    sp = Space(c, tag)
    K = z3.Int(c.name('!K'))

    def sr(t):
        return src(t)

    def ps(j):
        if z3.is_app(j) and j.num_args() == 1 and j.decl().eq(src):
            return j.arg(0)
        return pos(j)

    def onpos(t):
        c = ctx()
        j = sr(t)
        ok = z3.And(t >= 0, t < m)
        c.assume_fact(z3.Implies(ok, z3.And(j >= 0, j < s.n)))
        s.sel.space.reg(j)
        v = s.base(j)
        for o in builtins.list(sp.terms):
            if o.eq(t):
                continue
            w = s.base(sr(o))
            both = z3.And(ok, o >= 0, o < m)
            c.assume_fact(z3.Implies(z3.And(both, o < t), bterm(w < v)))
            c.assume_fact(z3.Implies(z3.And(both, t < o), bterm(v < w)))

    def onbase(j):
        c = ctx()
        k = ps(j)
        ok = z3.And(j >= 0, j < s.n)
        if not k.eq(j) and not (z3.is_app(j) and j.num_args() == 1 and
                                j.decl().eq(src)):
            sp.reg(k)
            c.assume_fact(z3.Implies(ok, z3.And(
                k >= 0, k < m, bterm(veq(s.base(sr(k)), s.base(j))))))
    sp.hook(onpos)
    s.sel.space.hook(onbase)
    tm = generic(m, lambda k: s.base(sr(k.e)), sp)
    r = SSeq(Sel(m, sp), tm, 'list')
    for st in (True, False):
        c.memo[('sorted', id(r.tmpl), id(r.sel), st)] = True
    c.memo[('distinct', id(r.tmpl), id(r.sel))] = True
    return r


class SDict(object):
    """dict with pairwise different keys"""
    _vc_seq = True

    def __init__(self, keys, vals):
        self.keys_, self.vals = keys, vals

    def __hash__(self):
        return 0

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic dict')

    def _vc_len(self):
        return SInt(self.keys_.n)

    def __bool__(self):
        return bool(self.keys_)

    def _find(self, x):
        ks = self.keys_.frozen()
        return find(ks.sel, lambda t: bterm(veq(ks.base(t), x)))

    def __getitem__(self, x):
        w = self._find(x)
        if w is None:
            raise KeyError(x)
        return self.vals.base(w)

    def get(self, x, default=None):
        w = self._find(x)
        return default if w is None else self.vals.base(w)

    def _vc_in(self, x):
        return self._find(x) is not None

    def __contains__(self, x):
        return self._vc_in(x)

    def keys(self):
        return SSeq(self.keys_.sel, self.keys_.tmpl, 'tuple')

    def values(self):
        return SSeq(self.vals.sel, self.vals.tmpl, 'tuple')

    def items(self):
        r = s_zip([self.keys(), self.values()])
        r.kind = 'tuple'
        return r

    def copy(self):
        return SDict(self.keys_, self.vals)

    def _vc_comp(self, kind, elt, cond, star):
        return self.keys()._vc_comp(kind, elt, cond, star)

    def __setitem__(self, k, v):
        if ctx().generic:
            raise Unsupported('dict changed inside of a body')
        w = self._find(k)
        if w is not None:
            old = self.vals
            tm = generic_sel(old.sel, lambda j: v if SInt(j) == SInt(w)
                             else old.base(j))
            self.vals = SSeq(old.sel, tm, 'list')
            return
        ks, vs = self.keys_, self.vals
        it = concat(s_list(s_zip([ks, vs])), [(k, v)])
        a, b = unzip(it)
        self.keys_, self.vals = a, b


def s_list(x):
    return aslist(x)


def mkdict(s):
    """dict of a sequence of pairs"""
    a = aslist(s)
    if not isinstance(a, SSeq):
        return builtins.dict(a)
    v = a.tmpl.val
    if not (isinstance(v, (builtins.tuple, builtins.list)) and len(v) == 2):
        raise Unsupported('dict of non pairs')
    ks = SSeq(a.sel, Tmpl(a.tmpl.K, v[0], a.tmpl.regs), 'list')
    vs = SSeq(a.sel, Tmpl(a.tmpl.K, v[1], a.tmpl.regs), 'list')
    if not distinct(ks):
        raise Unsupported('dict with keys not known to be different')
    return SDict(ks, vs)


# ------------------------------------------------------------ sums

class SumRec(object):
    """prefix sums P(g.., h) = sum of T(k) for k < h"""

    def __init__(self, decl, gens, K, T, regs, space):
        self.decl, self.gens, self.K, self.T = decl, gens, K, T
        self.regs, self.space = regs, space


def s_sum(s):
    if not isinstance(s, SSeq):
        r = SReal(0)
        for x in s:
            r = r + x
        return r
    sel = s.sel
    v = s.tmpl.val
    if not (E.is_num(v) or isinstance(v, SBool)):
        raise Unsupported('sum of %s' % type(v).__name__)
    isint = isinstance(v, (int, SInt, SBool))
    T = rterm(E.tonum(v))
    regs = builtins.list(s.tmpl.regs)
    if sel.cond is not None:
        cnd = z3.substitute(sel.cond, (sel.K, s.tmpl.K))
        T = z3.If(cnd, T, rval0())
        regs += [subreg(r, sel.K, s.tmpl.K) for r in sel.condregs]
    regs = [('space', sel.space, s.tmpl.K)] + regs
    return mksum(sel.n, s.tmpl.K, T, regs, sel.space)


def rval0():
    return z3.RealVal(0)


def mksum(n, K, T, regs, space):
    c = ctx()
    name = c.name('!sum')
    gens = builtins.list(c.generic)
    f = z3.Function(name, *([E.INT] * (len(gens) + 1)), E.REAL)
    c.sums[name] = SumRec(f, gens, K, T, regs, space)
    t = f(*gens, n)
    if not z3.is_int_value(n):
        c.assume_fact(z3.Implies(n <= 0, t == 0))
    return SReal(t)


def spec_sum(V, n, f):
    sp = Space(ctx(), 'P')
    t = generic(n, f, sp)
    if t is None:
        return SReal(0)
    return mksum(E.iterm(n), t.K, rterm(E.tonum(t.val)), t.regs, sp)


def sum_atoms(*ts):
    c = ctx()
    out, seen, todo = [], set(), builtins.list(ts)
    if not c.sums:
        return out
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                x.decl().name() in c.sums:
            out.append(x)
        todo.extend(x.children())
    return out


def summand(atom, k):
    """T(k) of a sum atom, registrations done"""
    r = ctx().sums[atom.decl().name()]
    args = atom.children()
    pairs = [(g, a) for g, a in zip(r.gens, args[:-1])] + [(r.K, k)]
    for q in r.regs:
        do_reg(q, pairs)
    return z3.substitute(r.T, *pairs)


def ites(t):
    """conditions of ite subterms, outermost first"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            out.append(x.arg(0))
        todo.extend(x.children())
    return out


def resolve(t):
    """decide all ite conditions of t on this (sub) path"""
    c = ctx()
    for _ in range(60):
        cs = ites(t)
        if not cs:
            return t
        cond = cs[-1]
        v = c.decide(cond)
        t = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(v))))
    return t


def pointwise(V, hi, fn):
    """fn(k) (proved zero term or Bool) for all 0 <= k < hi, case split"""
    c = ctx()

    def run():
        k = c.fresh('k', E.INT)
        c.assume(z3.And(k >= 0, k < hi))
        return fn(k)
    return try_prove(run)


def close(V, a, b):
    """a == b on this sub path"""
    a, b = resolve(a), resolve(b)
    if z3.is_true(z3.simplify(a == b)):
        return True
    if V is not None and V.ring().equal(a, b):
        return True
    return ctx().sat(z3.Not(a == b)) is False


def index_terms(*ts):
    """integer arguments of uninterpreted functions"""
    out, seen, todo = [], set(), builtins.list(ts)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.num_args() and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                x.decl().name() not in ctx().sums and \
                (x.sort() != E.INT or x.decl().name().startswith('X_')):
            for a in x.children():
                if a.sort() == E.INT and not any(a.eq(o) for o in out):
                    out.append(a)
        todo.extend(x.children())
    return out


def eq_by_cases(V, ta, tb):
    """split on the equality of index terms"""
    c = ctx()
    if len(index_terms(ta, tb)) > 8:
        return False

    def run():
        a, b = resolve(ta), resolve(tb)
        done = set()
        for _ in range(30):
            ix = index_terms(a, b)
            ix.sort(key=lambda t: (len(t.sexpr()), t.sexpr()))
            for i, p in enumerate(ix):
                for q in ix[i + 1:]:
                    k = (p.get_id(), q.get_id())
                    if k not in done:
                        break
                else:
                    continue
                break
            else:
                break
            done.add(k)
            c.keep += [p, q]
            if c.decide(p == q):
                a = z3.simplify(z3.substitute(a, (q, p)))
                b = z3.simplify(z3.substitute(b, (q, p)))
        return close(V, a, b) or V.ring().equal(a, b, True)
    return try_prove(run)


def unify_sums(V, atoms):
    """facts S1 == S2 for sums with equal summands; returns substitution"""
    c = ctx()
    rep, subs = [], []
    for a in atoms:
        ha = a.arg(a.num_args() - 1)
        for b in rep:
            if a.eq(b):
                break
            key = ('sumeq', a.get_id(), b.get_id())
            if key not in c.memo:
                hb = b.arg(b.num_args() - 1)
                ok = ha.eq(hb) or c.sat(z3.Not(ha == hb)) is False
                if ok:
                    ok = pointwise(V, ha, lambda k: close(
                        V, summand(a, k), summand(b, k)))
                c.memo[key] = ok
                c.keep += [a, b]
                if ok:
                    c.assume_fact(a == b)
            if c.memo[key]:
                subs.append((a, b))
                break
        else:
            rep.append(a)
    return rep, subs


def unfold(atoms):
    """P(h) = P(h-1) + T(h-1) where the neighbour occurs as well"""
    c = ctx()
    done = 0
    for a in atoms:
        ha = a.arg(a.num_args() - 1)
        for b in atoms:
            if a.eq(b) or not a.decl().eq(b.decl()):
                continue
            d = z3.simplify(ha - b.arg(b.num_args() - 1))
            if z3.is_int_value(d) and 0 < d.as_long() <= 3:
                h = ha
                for _ in range(d.as_long()):
                    done += unfold1(a.decl(), a.children()[:-1], h)
                    h = z3.simplify(h - 1)
    return done


def gap(x, y):
    """x - y if it is a small number on this path (None: unknown)"""
    c = ctx()
    d = z3.simplify(x - y)
    if z3.is_int_value(d):
        return d.as_long()
    key = ('gap', x.get_id(), y.get_id())
    if key not in c.memo:
        c.keep += [x, y]
        out = None
        for k in (0, 1, -1, 2, -2):
            if c.sat(z3.Not(d == k)) is False:
                out = k
                break
        c.memo[key] = out
    return c.memo[key]


def pins(*ts):
    """whole number inputs with just one value on this path"""
    out, seen, todo = [], set(), builtins.list(ts)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.sort() == E.INT and \
                x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            g = gap(x, z3.IntVal(0))
            if g is not None:
                out.append((x, z3.IntVal(g)))
        todo.extend(x.children())
    return out


def align(V, atoms):
    """splits of sums: ranges that differ by one or two elements, sums over
    the end of the range of another one"""
    c = ctx()
    done = 0
    for a in atoms:
        ha = a.arg(a.num_args() - 1)
        g = gap(ha, z3.IntVal(0))
        if g is not None:
            key = ('short', a.get_id())
            if key not in c.memo:
                c.memo[key] = True
                c.keep.append(a)
                v = rval0()
                for i in range(max(g, 0)):
                    v = v + summand(a, z3.IntVal(i))
                c.assume_fact(a == v)
                c.sumdefs.append((a, v))
                c.ring = None
                done += 1
            continue
        for b in atoms:
            if a.eq(b):
                continue
            hb = b.arg(b.num_args() - 1)
            g = gap(ha, hb)
            if g is not None and g not in (1, 2):
                continue
            key = ('align', a.get_id(), b.get_id())
            if key in c.memo:
                continue
            c.memo[key] = True
            c.keep += [a, b]
            gens = a.children()[:-1]
            s = z3.simplify(ha - hb) if g is None else z3.IntVal(g)
            if c.sat(z3.Not(s >= 0)) is not False or \
                    c.sat(z3.Not(hb >= 0)) is not False:
                continue
            if pointwise(V, hb, lambda k: close(
                    V, summand(a, z3.simplify(k + s)), summand(b, k))):
                # b sums the tail of a
                v = a.decl()(*gens, s) + b
            elif g is not None:
                v = a.decl()(*gens, hb)
                for i in range(g):
                    v = v + summand(a, z3.simplify(hb + i))
            else:
                continue
            c.assume_fact(a == v)
            c.sumdefs.append((a, v))
            c.ring = None
            done += 1
            break
    return done


def unfold1(decl, gens, h):
    c = ctx()
    p = decl(*gens, h)
    q = decl(*gens, z3.simplify(h - 1))
    key = ('unfold', p.get_id())
    if key in c.memo:
        return 0
    c.memo[key] = True
    c.keep.append(p)
    T = summand(p, z3.simplify(h - 1))
    c.assume_fact(z3.Implies(h > 0, p == q + T))
    if entails(c, h > 0) or c.sat(z3.Not(h > 0)) is False:
        c.sumdefs.append((p, q + T))
        c.ring = None
    return 1


def sign_facts(V, atoms):
    c = ctx()
    for a in atoms:
        key = ('sign', a.get_id())
        if key in c.memo:
            continue
        c.memo[key] = True
        c.keep.append(a)
        hi = a.arg(a.num_args() - 1)

        def test(op):
            def one(k):
                t = resolve(summand(a, k))
                return c.sat(z3.Not(op(t))) is False
            return pointwise(V, hi, one)
        pos = test(lambda t: t >= 0)
        if pos:
            c.assume_fact(a >= 0)
            if test(lambda t: t > 0):
                c.assume_fact(z3.Implies(hi > 0, a > 0))
        elif test(lambda t: t <= 0):
            c.assume_fact(a <= 0)
            if test(lambda t: t < 0):
                c.assume_fact(z3.Implies(hi > 0, a < 0))


def compare_facts(V, atoms):
    """S1 <= S2 for sums over the same range with ordered summands"""
    c = ctx()
    if len(atoms) > 6:
        return
    for a in atoms:
        for b in atoms:
            if a.eq(b):
                continue
            key = ('sumle', a.get_id(), b.get_id())
            if key in c.memo:
                continue
            c.memo[key] = True
            c.keep += [a, b]
            ha, hb = a.arg(a.num_args() - 1), b.arg(b.num_args() - 1)
            if not ha.eq(hb) and c.sat(z3.Not(ha == hb)) is not False:
                continue

            def test(op):
                def one(k):
                    x = resolve(summand(a, k))
                    y = resolve(summand(b, k))
                    return c.sat(z3.Not(op(x, y))) is False
                return pointwise(V, ha, one)
            if test(lambda x, y: x <= y):
                c.assume_fact(a <= b)
                if test(lambda x, y: x < y):
                    c.assume_fact(z3.Implies(ha > 0, a < b))


def prepare(V, e):
    """facts on the sums of a goal"""
    atoms = sum_atoms(e)
    if atoms:
        unfold(atoms)
        reps, _ = unify_sums(V, atoms)
        sign_facts(V, reps)
        compare_facts(V, reps)


def on_decide(cond):
    atoms = sum_atoms(cond)
    if atoms:
        sign_facts(None, atoms)


def sum_equal(V, ta, tb):
    """equality of terms with sums: linear rule, splits"""
    c = ctx()
    for _ in range(4):
        ta, tb, ok = sum_equal1(V, ta, tb)
        if ok:
            break
        n = len(c.sumdefs)
        atoms = sum_atoms(ta, tb)
        if not atoms or len(atoms) > 8:
            break
        p = pins(ta, tb)
        if p:
            ta = z3.simplify(z3.substitute(ta, *p))
            tb = z3.simplify(z3.substitute(tb, *p))
            continue
        if not align(V, atoms):
            break
        defs = c.sumdefs[n:]
        ta, tb = z3.substitute(ta, *defs), z3.substitute(tb, *defs)
    return ta, tb, ok


def sum_equal1(V, ta, tb):
    from . import ring as R
    c = ctx()
    atoms = sum_atoms(ta, tb)
    if not atoms:
        return ta, tb, False
    unfold(atoms)
    reps, subs = unify_sums(V, atoms)
    if subs:
        ta, tb = z3.substitute(ta, *subs), z3.substitute(tb, *subs)
    atoms = sum_atoms(ta, tb)
    if not atoms:
        return ta, tb, False
    rg = V.ring()
    if rg.equal(ta, tb):
        return ta, tb, True
    # linear combination
    try:
        d = R.radd(rg.norm(ta), rg.norm(tb), -1)
        keys = {}
        for a in atoms:
            r = rg.norm(a)
            if len(r.num) == 1 and r.den == {(): 1}:
                (m, cf), = r.num.items()
                if cf == 1 and len(m) == 1 and m[0][1] == 1:
                    keys[m[0][0]] = a
        coef = {}
        rest = {}
        num = rg._roots(rg._unify(d.num))
        for m, cf in num.items():
            hit = [(k, e) for k, e in m if k in keys]
            if not hit:
                rest[m] = cf
                continue
            if len(hit) > 1 or hit[0][1] != 1:
                return ta, tb, False
            mm = builtins.tuple(x for x in m if x[0] != hit[0][0])
            coef.setdefault(hit[0][0], {})[mm] = cf
    except R.Fail:
        return ta, tb, False
    groups = []
    for k, p in coef.items():
        a = keys[k]
        h = a.arg(a.num_args() - 1)
        for g in groups:
            if g[0].eq(h) or c.sat(z3.Not(g[0] == h)) is False:
                g[1].append((a, p))
                break
        else:
            groups.append((h, [(a, p)]))
    if rest or any(len(g[1]) < 2 for g in groups):
        return ta, tb, False
    for h, items in groups:
        def one(k):
            ts = [resolve(summand(a, k)) for a, _ in items]
            rg2 = V.ring()
            tot = R.rconst(0)
            for (a, p), t in zip(items, ts):
                tot = R.radd(tot, R.rmul(rg2.resub(R.Rat(p)), rg2.norm(t)))
            return rg2.iszero(tot)
        if not pointwise_ring(V, h, one, rg):
            return ta, tb, False
    return ta, tb, True


def pointwise_ring(V, hi, fn, rg):
    """as pointwise, the ring of the sub path inherits the atoms of rg"""
    c = ctx()

    def run():
        k = c.fresh('k', E.INT)
        c.assume(z3.And(k >= 0, k < hi))
        c.ring_seed = rg
        return fn(k)
    try:
        return try_prove(run)
    except Exception:
        raise
    finally:
        c.ring_seed = None


# ------------------------------------------------------------ equality

def seq_eq(a, b):
    """a == b as SBool-less decision: proof or case split"""
    c = ctx()
    a = a.frozen() if isinstance(a, SSeq) else builtins.list(a)
    b = b.frozen() if isinstance(b, SSeq) else builtins.list(b)
    na = a.n if isinstance(a, SSeq) else z3.IntVal(len(a))
    nb = b.n if isinstance(b, SSeq) else z3.IntVal(len(b))
    if not c.decide(na == nb):
        return False
    fa = a.at if isinstance(a, SSeq) else _at_native(builtins.list(a))
    fb = b.at if isinstance(b, SSeq) else _at_native(builtins.list(b))
    if not c.decide(na > 0):
        return True
    if not isinstance(a, SSeq) or not isinstance(b, SSeq):
        s = a if isinstance(a, SSeq) else b
    else:
        s = a
    sp = s.sel.map()[3]
    return not exists(Sel(na, sp), lambda t: z3.Not(bterm(veq(fa(t), fb(t)))))


def same_seq(V, a, b):
    """provably equal"""
    c = ctx()
    if not isinstance(a, SSeq) or not isinstance(b, SSeq):
        return False
    if a.sel is b.sel and a.tmpl is b.tmpl:
        return True
    key = ('same', id(a.sel), id(a.tmpl), id(b.sel), id(b.tmpl))
    if key in c.memo:
        return c.memo[key]
    c.keep += [a.sel, a.tmpl, b.sel, b.tmpl]
    r = c.memo[key] = _same_seq(V, a, b)
    return r


def same_term(a, b):
    return a.eq(b) or ctx().sat(z3.Not(a == b)) is False


def _same_seq(V, a, b):
    c = ctx()
    if a.sel.plain and b.sel.plain and a.sel.n.eq(b.sel.n):
        K = z3.Int('!K')
        try:
            x = vsub(a.tmpl.val, [(a.tmpl.K, K)])
            y = vsub(b.tmpl.val, [(b.tmpl.K, K)])
            if all(ident(p, q) for p, q in flat(x, y)):
                return True
        except Unsupported:
            pass
    if not a.sel.plain and a.sel.same(b.sel):
        def base(k):
            c.assume(a.sel.condat(k))
            return all(ident(p, q) or same_val(V, p, q)
                       for p, q in flat(a.base(k), b.base(k)))
        if pointwise(V, a.sel.n, base):
            return True
    na, nb = a.n, b.n
    if not na.eq(nb) and c.sat(z3.Not(na == nb)) is not False:
        return False

    def one(k):
        x, y = a.at(k), b.at(k)
        return all(same_val(V, p, q) for p, q in flat(x, y))
    return pointwise(V, na, one)


def ident(x, y):
    if isinstance(x, SDate) and isinstance(y, SDate):
        x, y = x.ord, y.ord
    if isinstance(x, SNum) and isinstance(y, SNum):
        return type(x) is type(y) and z3.simplify(x.e).eq(z3.simplify(y.e))
    return x is y


def flat(x, y):
    if isinstance(x, builtins.tuple) and isinstance(y, builtins.tuple) and \
            len(x) == len(y):
        return [p for u, v in zip(x, y) for p in flat(u, v)]
    return [(x, y)]


def same_val(V, x, y):
    if x is y:
        return True
    if isinstance(x, SDate) and isinstance(y, SDate):
        x, y = x.ord, y.ord
    if E.is_num(x) and E.is_num(y):
        return close(V, rterm(E.tonum(x)), rterm(E.tonum(y)))
    r = (x == y)
    return r is True or (isinstance(r, SBool) and
                         ctx().sat(z3.Not(r.e)) is False)


def prove_eq(V, a, b, label):
    c = ctx()
    na = SInt(a.n) if isinstance(a, SSeq) else SInt(len(a))
    nb = SInt(b.n) if isinstance(b, SSeq) else SInt(len(b))
    V.eq(na, nb, label + ' (length)')
    fa = a.at if isinstance(a, SSeq) else _at_native(builtins.list(a))
    fb = b.at if isinstance(b, SSeq) else _at_native(builtins.list(b))
    k = c.fresh('i', E.INT)
    try:
        c.assume(z3.And(k >= 0, k < na.e, k < nb.e))
    except Infeasible:
        return
    V.eq(fa(k), fb(k), label + '[i]')


def nodes_fact(domain, data, f):
    """interpolation through all points"""
    d, y = SSeq(domain.sel, domain.tmpl, 'list'), data
    if isinstance(y, SSeq):
        y = y.frozen()
    if not isinstance(d, SSeq) or not isinstance(y, SSeq):
        raise Unsupported('points')
    z = aslist(s_zip([d, y]))
    sp = z.sel.map()[3]
    m = z.n

    def inst(t):
        c = ctx()
        a, b = z.at(t)
        e = f(rterm(E.tonum(a))) == rterm(E.tonum(b))
        rng = z3.And(t >= 0, t < m)
        if entails(c, rng):
            c.assume_fact(e)
        else:
            c.condnodes.append((rng, e))
            c.ring = None
            c.assume_fact(z3.Implies(rng, e))
    sp.forall(inst)


# ------------------------------------------------------------ inputs

def base_reals(V, name, n, distinct_=False, gt=None, lt=None, nonzero=False):
    c = ctx()
    name = c.name(name)
    f = z3.Function('X_' + name, E.INT, E.REAL)
    sp = Space(c, name)
    K = z3.Int(c.name('!K'))
    s = SSeq(Sel(n.e, sp), Tmpl(K, SReal(f(K))), 'list')
    cs = []
    x = SReal(f(K))
    if gt is not None:
        cs.append(bterm(x > gt))
    if lt is not None:
        cs.append(bterm(x < lt))
    if nonzero:
        cs.append(bterm(x != 0))
    if cs:
        forall_fact(sp, n.e, K, z3.And(*cs))
    if distinct_:
        def hk(t):
            for o in sp.terms:
                if not o.eq(t):
                    ctx().assume_fact(z3.Implies(o != t, f(o) != f(t)))
        sp.hook(hk)
    sp.reg(z3.IntVal(0))
    return s


def base_times(V, name, kind, n, first=None):
    c = ctx()
    name = c.name(name)
    num = kind == 'num'
    f = z3.Function('X_' + name, E.INT, E.REAL if num else E.INT)
    sp = Space(c, name)
    K = z3.Int(c.name('!K'))

    def mk(t):
        return SReal(f(t)) if num else SDate(SInt(f(t)), kind == 'bd')
    s = SSeq(Sel(n.e, sp), Tmpl(K, mk(K)), 'list')

    def hk(t):
        c = ctx()
        for o in sp.terms:
            if o.eq(t):
                continue
            ok = z3.And(o >= 0, o < n.e, t >= 0, t < n.e)
            c.assume_fact(z3.Implies(z3.And(ok, o < t), f(o) < f(t)))
            c.assume_fact(z3.Implies(z3.And(ok, t < o), f(t) < f(o)))
    sp.hook(hk)
    sp.reg(z3.IntVal(0))
    sp.reg(z3.simplify(n.e - 1))
    if first is not None:
        c.assume(bterm(mk(z3.IntVal(0)) == first))
    return s


def shuffle(V, name, *seqs):
    z = aslist(s_zip(builtins.list(seqs))) if len(seqs) > 1 else seqs[0]
    sel = Sel(z.sel.n, z.sel.space, z.sel.cond, arbitrary_order, z.sel.K)
    sel.perm = lambda *a: None
    if len(seqs) == 1:
        return SSeq(sel, z.tmpl, 'list')
    return builtins.tuple(SSeq(sel, Tmpl(z.tmpl.K, v, z.tmpl.regs), 'list')
                          for v in z.tmpl.val)


# ------------------------------------------------------------ for loops

class Loop(object):
    def __init__(self, depth):
        self.depth = depth
        self.log = []


class PoisonList(UList):
    """list a loop appends to, during an arbitrary round of the loop"""

    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported('list read in the loop that fills it')

    for _n in ('__len__', '__iter__', '__getitem__', '__setitem__',
               '__contains__', '__add__', '__radd__', '__iadd__', '__mul__',
               '__eq__', '__ne__', '__bool__', '_vc_len', '_vc_in',
               '_vc_comp', '_vc_sum', '_vc_bisect', 'append', 'extend',
               'insert', 'pop', 'copy', 'index', 'count', 'sort', 'reverse',
               'remove', 'clear', '__reversed__', '__delitem__', '__rmul__'):
        locals()[_n] = _no
    del _n


MISSING = E.Ctx


def noccurs(v, As):
    """no opaque value of a carried variable occurs"""
    ts = [] if v is MISSING else None
    if ts is None:
        return not any(mentions(v, a) for a in As)
    return True


def opaque(v):
    """arbitrary value of the same kind, its term"""
    c = ctx()
    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
        t = c.fresh('A', E.INT)
        return SInt(t), t
    if E.is_num(v) and not isinstance(v, bool):
        t = c.fresh('A', E.REAL)
        return SReal(t), t
    if isinstance(v, SDate):
        t = c.fresh('A', E.INT)
        return SDate(SInt(t), v.bd), t
    return v, None


def loopterm(v):
    if isinstance(v, SDate):
        v = v.ord
    v = E.tonum(v)
    return v.e


def forloop(it, body, get, put, names, carried, live, early, intry):
    c = ctx()
    s = aslist(it)
    if not isinstance(s, SSeq):
        for x in s:
            body(x)
        return
    if isinstance(it, UList):
        watch = it
    else:
        watch = None
    s = positions(s)
    if not isinstance(s, SSeq) or not c.decide(s.sel.n > 0):
        return
    for peel in (2, 1, 0):
        try:
            return Round(s, body, get, put, names, carried, live, early,
                         intry, watch).run()
        except Peel:
            if not peel:
                raise Unsupported('value carried by a loop')
        # the first round as written
        body(s.base(z3.IntVal(0)))
        n = s.sel.n
        if not c.decide(n > 1):
            return
        old = s
        s = build(z3.simplify(n - 1), lambda k: old.base(k.e + 1))
        if not isinstance(s, SSeq):
            for x in s:
                body(x)
            return
        old.sel.space.hook(lambda t, s=s: s.sel.space.reg(
            z3.simplify(t - 1)))


def whileloop(test, body, get, put, names, carried, live, early, intry):
    c = ctx()
    limit = getattr(c, 'tick_limit', 60)
    rounds = 0
    while True:
        v = test()
        if not isinstance(v, SBool):
            # decided by concrete values
            if not v:
                return
            rounds += 1
            if rounds > limit:
                raise Unsupported('while loop: more than %d rounds' % limit)
            body(None)
            continue
        break
    for peel in (2, 1, 0):
        if not test():
            return
        n = c.fresh('rounds', E.INT)
        c.assume(n >= 1)
        sp = Space(c, 'W')
        s = build(n, lambda k: k)

        def again(el, first=False):
            t = test()
            c.assume(bterm(t) if isinstance(t, SBool) else
                     z3.BoolVal(bool(t)))
            body(el)
        try:
            r = Round(s, again, get, put, names, carried, live, early, intry,
                      None)
            r.test = test
            return r.run()
        except Peel:
            if not peel:
                raise Unsupported('value carried by a loop')
        body(None)


class Peel(Exception):
    pass


class Round(object):
    """summary of a loop over s (all positions)"""

    def __init__(self, s, body, get, put, names, carried, live, early, intry,
                 watch):
        self.s, self.body, self.get, self.put = s, body, get, put
        self.names, self.carried, self.live = names, carried, live
        self.early, self.intry, self.watch = early, intry, watch
        self.n, self.space = s.sel.n, s.sel.space
        self.test = None

    def once(self, vals, poison=()):
        """branches of the body at an arbitrary index"""
        c = ctx()
        K = z3.Int(c.name('!K'))
        lp = Loop(len(c.generic) + 1)
        c.generic.append(K)
        c.loops.append(lp)
        classes = [(l, l.__class__) for l in poison]
        for l in poison:
            l.__class__ = PoisonList

        def run():
            self.space.reg(K)
            c.log = []
            lp.log = []
            self.put(vals(K) if callable(vals) else vals)
            self.body(self.s.base(K))
            return self.get(), builtins.list(lp.log)
        try:
            brs = explore(run, [K >= 0, K < self.n])
        finally:
            for l, k in classes:
                l.__class__ = k
            c.loops.pop()
            c.generic.pop()
        return K, brs

    def run(self):
        c = ctx()
        start = {k: v for k, v in self.get().items() if k in self.carried}
        for k in self.carried:
            if k not in start and k in self.early:
                raise Unsupported('variable %s unbound before a loop' % k)
        try:
            self.summarise(start)
        except Retype:
            for k, v in start.items():
                if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                    start[k] = SReal.lift(E.tonum(v))
            self.summarise(start)

    def summarise(self, start):
        c = ctx()
        As, vals = {}, dict(start)
        for k in self.carried:
            if k in start:
                v, t = opaque(start[k])
                if t is not None:
                    As[k] = t
                    vals[k] = v
        snapshot = dict(self.get())
        try:
            K, brs = self.once(vals)
            value = self.classify(K, brs, start, vals, As)
            if self.test is not None:
                self.rounds(value)
            lists = []
            for b in brs:
                if b.exc is None:
                    for l, _ in b.val[1]:
                        if not any(l is o for o in lists):
                            lists.append(l)
            if self.watch is not None and any(l is self.watch
                                              for l in lists):
                raise Unsupported('list changed while it is read')
            if lists or As:
                K, brs = self.once(lambda K: value(K), lists)
        except BaseException:
            self.put(snapshot)
            raise
        self.finish(K, brs, value, lists, start, snapshot)

    # -- carried variables
    def classify(self, K, brs, start, vals, As):
        """function K -> values of the carried variables before round K"""
        c = ctx()
        good = [b for b in brs if b.exc is None]
        allA = builtins.list(As.values())
        todo, const, acc, prev, dead = {}, {}, {}, {}, []
        for k in self.carried:
            fin = [(b.cond, b.val[0].get(k, MISSING)) for b in good]
            v0 = vals.get(k, MISSING)
            if all(v is v0 or (v is not MISSING and v0 is not MISSING and
                               ident(v, v0)) for _, v in fin):
                const[k] = start.get(k, MISSING)
                continue
            if k not in self.early and k not in self.live:
                dead.append(k)
                continue
            if k not in As:
                raise Peel()
            todo[k] = fin
        # sums
        order = []
        while todo:
            for k in builtins.list(todo):
                a = As[k]
                fin = todo[k]
                others = [As[j] for j in As if j in todo]
                for how in ('sum', 'iter', 'product'):
                    d = getattr(self, 'delta_' + how)(fin, a)
                    if d is not None and not any(
                            occurs(d, o) for o in others if not (
                                how == 'iter' and o.eq(a))):
                        acc[k] = (d, fin, how)
                        order.append(k)
                        del todo[k]
                        break
                else:
                    continue
                break
            else:
                break
        for k in builtins.list(todo):
            fin = todo[k]
            if any(v is MISSING or not noccurs(v, allA) or
                   any(occurs(cd, o) for o in allA) for cd, v in fin):
                raise Unsupported('variable %s carried by a loop' % k)
            val = fin[-1][1]
            for cd, v in reversed(fin[:-1]):
                val = vite(cd, v, val)
            if type(val) is not type(start[k]) and not (
                    E.is_num(val) and E.is_num(start[k])):
                raise Peel()
            prev[k] = val
        self.const, self.acc, self.prev, self.dead = const, acc, prev, dead
        self.K1, self.regs1 = K, [
            guard(r, z3.And(K >= 0, K < self.n, b.cond))
            for b in good for r in b.regs]
        self.sumat = {}
        pairs = []
        for k in order:
            d = acc[k][0]
            d = z3.simplify(z3.substitute(d, *pairs)) if pairs else d
            regs = [('space', self.space, K)] + [
                sub2(r, pairs) for r in self.regs1]
            if acc[k][2] == 'product' and len(good) == len(brs):
                # one of the branches is taken in every round
                regs.append(('fact', z3.Implies(
                    z3.And(K >= 0, K < self.n), z3.substitute(
                        z3.Or(*[b.cond for b in good]), *pairs))))
            at = getattr(self, 'closed_' + acc[k][2])(
                start[k], d, K, regs, As[k])
            self.sumat[k] = at
            pairs.append((As[k], loopterm(at(K))))
        self.pairs = pairs
        # instances of what was registered in the first pass
        self.regs1 = [sub2(r, pairs) for r in self.regs1]

        def value(K2):
            out = {}
            for k in self.carried:
                if k in self.sumat:
                    out[k] = self.sumat[k](K2)
                elif k in self.prev:
                    out[k] = self.before(k, start[k], K2)
                elif k in const and const[k] is not MISSING:
                    out[k] = const[k]
                elif k in start:
                    out[k] = start[k]
            return out
        return value

    def delta_sum(self, fin, a):
        """what a round adds to the variable (z3 term), or None"""
        out = None
        for cd, v in reversed(fin):
            if v is MISSING or not (E.is_num(v) or isinstance(v, SDate)) or \
                    isinstance(v, bool):
                return None
            t = loopterm(v)
            real = a.sort() == E.REAL
            if real and t.sort() == E.INT:
                t = z3.ToReal(t)
            if not real and t.sort() == E.REAL:
                raise Retype()
            zero = z3.RealVal(0) if real else z3.IntVal(0)
            d = z3.simplify(z3.substitute(t, (a, zero)), som=True)
            if not z3.is_true(z3.simplify(t - a - d == zero, som=True)) and \
                    ctx().sat(z3.Not(t == a + d)) is not False:
                return None
            out = d if out is None else z3.If(cd, d, out)
        return z3.simplify(out)

    def delta_iter(self, fin, a):
        """next value as a function of the value alone, or None"""
        out = None
        for _, v in fin:
            if not isinstance(v, (SDate, SInt)):
                return None
            t = z3.simplify(loopterm(v))
            if out is not None and not t.eq(out):
                return None
            out = t
        if self.test is None or out is None or not occurs(out, a):
            return None
        todo, seen = [out], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == \
                    z3.Z3_OP_UNINTERPRETED and not x.eq(a):
                return None
            todo.extend(x.children())
        return out

    def delta_product(self, fin, a):
        """factor of a round, or None"""
        out = None
        if a.sort() != E.REAL:
            raise Retype()
        for cd, v in reversed(fin):
            if v is MISSING or not E.is_num(v) or isinstance(v, bool):
                return None
            t = loopterm(v)
            if t.sort() == E.INT:
                t = z3.ToReal(t)
            q = z3.simplify(z3.substitute(t, (a, z3.RealVal(1))), som=True)
            if not z3.is_true(z3.simplify(t - a * q == 0, som=True)) and \
                    ctx().sat(z3.Not(t == a * q)) is not False:
                return None
            out = q if out is None else z3.If(cd, q, out)
        return None if out is None else z3.simplify(out)

    def closed_iter(self, v0, d, K, regs, a):
        """function h -> value after h steps of d from v0"""
        c = ctx()
        z = loopterm(v0)
        key = ('iter', z3.substitute(d, (a, z3.Int('!iter'))).sexpr(),
               z.sexpr())
        if key not in c.memo:
            gens = builtins.list(c.generic)
            c.memo[key] = (z3.Function(c.name('!iter'), *(
                [E.INT] * (len(gens) + 2))), gens)
        f, gens = c.memo[key]
        wrap = (lambda t: SDate(SInt(t), v0.bd)) if isinstance(v0, SDate) \
            else SInt
        mine = [r for r in self.regs1 if r[0] == 'period']
        x = c.fresh('x', E.INT)
        for r in mine:
            do_reg(r, [(a, x)])
        up = ctx().sat(z3.Not(z3.substitute(d, (a, x)) >= x + 1)) is False

        def at(h):
            if z3.is_int_value(h) and h.as_long() == 0:
                return wrap(z)
            c = ctx()
            t = f(*gens, h)
            n = f(*gens, z3.simplify(h + 1))
            p = f(*gens, z3.simplify(h - 1))
            for u in (t, p):
                for r in mine:
                    do_reg(r, [(a, u)])
            c.assume_fact(z3.Implies(h == 0, t == z))
            c.assume_fact(z3.Implies(h >= 0, n == z3.substitute(
                d, (a, t))))
            c.assume_fact(z3.Implies(h == 1, t == z3.substitute(d, (a, z))))
            c.assume_fact(z3.Implies(h >= 1, t == z3.substitute(
                d, (a, p))))
            if up:
                c.assume_fact(z3.Implies(h >= 0, t >= z + h))
            return wrap(t)
        return at

    def closed_product(self, v0, d, K, regs, a):
        """function h -> product before round h, positive factors"""
        c = ctx()
        z = rterm(E.tonum(v0))
        name = c.name('!factor')
        gens = builtins.list(c.generic)
        f = z3.Function(name, *([E.INT] * (len(gens) + 1)), E.REAL)
        rec = SumRec(f, gens, K, d, regs, self.space)
        c.sums[name] = rec
        probe = f(*gens, self.n)

        def one(k):
            q = resolve(summand(probe, k))
            return c.sat(z3.Not(q > 0)) is False
        if not pointwise(None, self.n, one):
            raise Unsupported('product in a loop with a factor of zero')
        rec.T = E.LOG(d)
        rec.regs = regs + [('pool', 'LOG', d)]

        def at(h):
            if z3.is_int_value(h) and h.as_long() <= 0:
                return SReal(z)
            t = f(*gens, h)
            ctx().assume_fact(z3.Implies(h <= 0, t == 0))
            return SReal(z) * E.sexp(SReal(t))
        return at

    def closed_sum(self, v0, d, K, regs, a=None):
        """function h -> value before round h"""
        c = ctx()
        z = loopterm(v0)
        wrap = (lambda t: SDate(SInt(t), v0.bd)) if isinstance(v0, SDate) \
            else (SInt if d.sort() == E.INT else SReal)
        if not occurs(d, K):
            if d.sort() == E.INT:
                return lambda h: wrap(z3.simplify(z + d * h))
            zz = rterm(E.tonum(v0))
            return lambda h: wrap(z3.simplify(zz + d * z3.ToReal(h)))
        if d.sort() == E.INT:
            raise Retype()
        if isinstance(v0, SDate):
            raise Unsupported('date sum in a loop')
        z = rterm(E.tonum(v0))
        name = c.name('!sum')
        gens = builtins.list(c.generic)
        f = z3.Function(name, *([E.INT] * (len(gens) + 1)), E.REAL)
        c.sums[name] = SumRec(f, gens, K, d, regs, self.space)

        def at(h):
            t = f(*gens, h)
            if not z3.is_int_value(h):
                ctx().assume_fact(z3.Implies(h <= 0, t == 0))
            else:
                if h.as_long() <= 0:
                    return SReal(z)
            return SReal(z3.simplify(z + t))
        return at

    def before(self, k, v0, K2):
        val = self.prev[k]
        for r in self.regs1:
            do_reg(r, [(self.K1, z3.simplify(K2 - 1))])
        p = vsub(val, [(self.K1, z3.simplify(K2 - 1))])
        return vite(K2 == 0, v0, p)

    # -- after the loop
    def finish(self, K, brs, value, lists, start, snapshot):
        c = ctx()
        good = [b for b in brs if b.exc is None]
        bad = [b for b in brs if b.exc is not None]
        n = self.n
        if bad:
            if self.intry:
                raise Unsupported('exception in a loop inside of try')
            j = c.choose(1 + len(bad))
            if j == 0:
                if not good:
                    raise Infeasible()
                e = z3.Not(z3.Or(*[b.cond for b in bad]))
                regs = [r for b in bad for r in b.regs if r[0] != 'fact']
                forall_fact(self.space, n, K, e, regs)
            else:
                b = bad[j - 1]
                w = c.fresh('w', E.INT)
                self.space.reg(w)
                for r in b.regs:
                    do_reg(guard(r, b.cond), [(K, w)])
                c.assume(z3.And(w >= 0, w < n,
                                z3.substitute(b.cond, (K, w))))
                for l in lists:
                    l.__class__ = PoisonList
                raise b.exc
        if not good:
            raise Infeasible()
        rng = z3.And(K >= 0, K < n)
        regs = [guard(r, z3.And(rng, b.cond)) for b in good for r in b.regs]
        conds = [b.cond for b in good]
        sel = Sel(n, self.space)

        def merged(vs):
            val = vs[-1]
            for cd, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                val = vite(cd, v, val)
            return val
        final = {}
        last = z3.simplify(n - 1)
        for k in self.names:
            if k in self.sumat:
                final[k] = self.sumat[k](n)
            elif k in self.const:
                if self.const[k] is not MISSING:
                    final[k] = self.const[k]
            elif k in self.dead:
                pass
            elif k in self.live or k in self.prev:
                vs = [b.val[0][k] for b in good]
                s = SSeq(sel, Tmpl(K, merged(vs), regs), 'list')
                final[k] = s.base(last)
        if self.test is not None:
            self.ends(K, conds, regs, value, final)
        # lists
        ext = []
        for l in lists:
            adds = [[v for o, v in b.val[1] if o is l] for b in good]
            cnt = {len(a) for a in adds}
            if not cnt <= {0, 1}:
                raise Unsupported('several elements appended in a round')
            if cnt == {0}:
                continue
            if cnt == {1}:
                t = Tmpl(K, merged([a[0] for a in adds]), regs)
                ext.append((l, SSeq(sel, t, 'list')))
                continue
            have = [(cd, a[0]) for cd, a in zip(conds, adds) if a]
            val = have[-1][1]
            for cd, v in reversed(have[:-1]):
                val = vite(cd, v, val)
            cnd = z3.simplify(z3.Or(*[cd for cd, _ in have]))
            fs = Sel(n, self.space, cnd, None, K)
            fs.condregs = regs
            ext.append((l, SSeq(fs, Tmpl(K, val, regs), 'list')))
        from . import shadow
        self.put(final)
        for l, s in ext:
            shadow.mcall(l, 'extend', (s,), {})


    def rounds(self, value):
        """number of rounds in closed form: whole numbers, steps of one"""
        c = ctx()
        keep = builtins.dict(self.get())
        k = c.fresh('round', E.INT)
        c.assume(z3.And(k >= 0, k < self.n))
        self.put(dict(keep, **value(k)))
        t = self.test()
        self.put(keep)
        if not isinstance(t, SBool):
            return
        # the same test for the same values: as often as before
        key = ('rounds', z3.substitute(
            z3.simplify(bterm(t)), (k, z3.Int('!round'))).sexpr())
        if key in c.memo:
            c.assume(self.n == c.memo[key])
            self.n = c.memo[key]
            return
        c.memo[key] = self.n
        g, strict = self.gap(bterm(t))
        if g is None or g.sort() != E.INT:
            return
        d = z3.simplify(z3.substitute(g, (k, k + 1)) - g, som=True)
        if not z3.is_int_value(d) or d.as_long() != 1:
            return
        g0 = z3.substitute(g, (k, z3.IntVal(0)))
        n = z3.simplify(-g0 if strict else 1 - g0, som=True)
        if occurs(n, k):
            return
        c.assume(self.n == n)
        self.n = c.memo[key] = n

    def gap(self, t):
        """t is gap < 0 (strict) or gap <= 0"""
        t = z3.simplify(t)
        neg = False
        while z3.is_not(t):
            t, neg = t.arg(0), not neg
        kd = t.decl().kind()
        if kd in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            x, y = t.arg(0), t.arg(1)
        elif kd in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            y, x = t.arg(0), t.arg(1)
        else:
            return None, None
        strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        return ((y - x), not strict) if neg else ((x - y), strict)

    def ends(self, K, conds, regs, value, final):
        """a while loop: the test holds in each round, fails after the last,
        and there is a last round"""
        c = ctx()
        keep = builtins.dict(self.get())
        # termination: the test compares a quantity which moves, from each
        # round to the next, by at least a fixed positive amount
        k = c.fresh('round', E.INT)
        c.assume(k >= 0)
        ts = []
        for h in (k, z3.simplify(k + 1)):
            self.put(dict(keep, **value(h)))
            t = self.test()
            if not isinstance(t, SBool):
                raise Unsupported('test of a while loop')
            ts.append(bterm(t))
        if not self.moves(k, *ts):
            raise Unsupported('termination of a while loop')
        forall_fact(self.space, self.n, K, z3.Or(*conds), [
            r for r in regs if r[0] != 'fact'])
        self.space.reg(z3.IntVal(0))
        self.space.reg(z3.simplify(self.n - 1))
        self.put(dict(keep, **final))
        t = self.test()
        c.assume(z3.Not(bterm(t)))

    def moves(self, k, a, b):
        x, y = self.gap(a)[0], self.gap(b)[0]
        if x is None or y is None or x.sort() != y.sort():
            return False
        d = z3.simplify(y - x, som=True)
        if d.sort() == E.INT:
            return entails(ctx(), d >= 1) or \
                ctx().sat(z3.Not(d >= 1)) is False
        return not occurs(d, k) and ctx().sat(z3.Not(d > 0)) is False


class Retype(Exception):
    pass


def sub2(r, pairs):
    if not pairs:
        return r
    f = lambda t: z3.substitute(t, *pairs)  # noqa
    if r[0] == 'fact':
        return ('fact', f(r[1]))
    if r[0] == 'space':
        return ('space', r[1], f(r[2]))
    if r[0] == 'pool':
        return ('pool', r[1], f(r[2]))
    return r[:3] + (f(r[3]),)
