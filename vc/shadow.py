"""contracts of the python builtins the verified code uses"""
import builtins
import operator
import types
from fractions import Fraction

from . import engine as E
from .engine import (SVal, SNum, SReal, SInt, SBool, SDate, SDelta, Unsupported)

ENTERED = builtins.set()


def F(x):
    return SReal(x)


def enter(q):
    ENTERED.add(q)


TICK_LIMIT = 12


def tick(key):
    ctx = E.CUR
    if ctx is None:
        return
    n = ctx.counter.get('tick:' + key, 0) + 1
    ctx.counter['tick:' + key] = n
    if n > getattr(ctx, 'tick_limit', 60):
        raise E.Unsupported('loop %s: more than %d iterations' % (key, n - 1))


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, SVal) and isinstance(b, SVal) and E.CUR is not None and \
            isinstance(a, (SNum, SDate)) and isinstance(b, (SNum, SDate)):
        # identity implies equality, but equal values need not be identical
        eq = (a == b)
        if eq is False:
            return False
        if isinstance(a, SNum) and a.c is not None and b.c is not None:
            return False
        ident = E.CUR.fresh('identical', E.z3.BoolSort())
        E.CUR.assume_fact(E.z3.Implies(ident, E.bterm(eq)))
        if SBool(ident):
            E.CUR.assume(E.bterm(eq))
            return True
        return False
    return False


def isnot_(a, b):
    return not is_(a, b)


def in_(a, b):
    f = getattr(type(b), '_vc_in', None)
    if f is not None:
        return f(b, a)
    f = getattr(type(b), '__contains__', None)
    if isinstance(f, types.FunctionType):
        return f(b, a)
    return a in b


def notin_(a, b):
    return E.snot(in_(a, b))


def _unb():
    return E.CUR is not None and E.CUR.unbounded


def newlist(x):
    """a list made by the verified code"""
    if not _unb():
        return x
    S = _seq()
    if not isinstance(x, S.UList):
        x = S.UList(x)
    return _bear(x)


def _bear(x):
    if E.CUR is not None and E.CUR.born is not None:
        E.CUR.born[id(x)] = x
        E.CUR.keep.append(x)
    return x


newset = newdict = _bear


def displ(parts):
    """list display with starred parts"""
    out = _seq().UList() if _unb() else []
    for st, v in parts:
        if st:
            if _sym(v):
                out.extend(_seq().aslist(v))
            else:
                out.extend(v)
        else:
            out.append(v)
    return newlist(out)


def mcall(obj, name, args, kwargs):
    """obj.append(..) and other changes of containers"""
    ctx = E.CUR
    guard(obj)
    if ctx is not None and ctx.born is not None and isinstance(
            obj, (builtins.list, builtins.dict, builtins.set)) and \
            id(obj) not in ctx.born:
        if name == 'append' and ctx.loops and isinstance(
                obj, _seq().UList) and not kwargs and len(args) == 1 and \
                ctx.loops[-1].depth == len(ctx.generic):
            ctx.loops[-1].log.append((obj, args[0]))
            return None
        raise E.Unsupported('%s of an outer object in a body' % name)
    if _unb() and args and not kwargs and _sym(args[0]) and \
            name in ('update', 'extend', 'union'):
        a = _seq().aslist(args[0])
        if isinstance(a, _seq().SSeq) and not isinstance(obj, _seq().UList):
            raise E.Unsupported('%s with symbolic sequence' % name)
    return getattr(obj, name)(*args, **kwargs)


def guard(obj):
    """elements of a template are not changed one by one"""
    if E.CUR is not None and id(obj) in E.CUR.copies:
        raise E.Unsupported('element of a symbolic sequence changed')


def forloop(*args):
    _seq().forloop(*args)


def setitem_(obj, key, value):
    ctx = E.CUR
    guard(obj)
    if ctx is not None and ctx.born is not None and isinstance(
            obj, (builtins.list, builtins.dict)) and id(obj) not in ctx.born:
        raise E.Unsupported('item of an outer object changed in a body')
    obj[key] = value


_OPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul,
        'Pow': operator.ipow, 'FloorDiv': operator.ifloordiv,
        'Mod': operator.imod, 'BitOr': operator.ior, 'BitAnd': operator.iand}


def aug(a, b, op):
    if op == 'Div':
        return div(a, b)
    return _OPS[op](a, b)


def augitem(obj, key, value, op):
    setitem_(obj, key, aug(obj[key], value, op))


def setattr_(obj, name, value):
    """attribute assignment; inside of an element function only objects
    made there may change"""
    ctx = E.CUR
    guard(obj)
    if ctx is not None and ctx.born is not None:
        d = getattr(obj, '__dict__', None)
        if d is None or id(obj) not in ctx.born:
            if d is None or name in d:
                raise E.Unsupported('attribute %s changed in a body' % name)
            if d:
                raise E.Unsupported('attribute %s set in a body' % name)
            ctx.born[id(obj)] = obj
    setattr(obj, name, value)


def symwhile():
    """rounds of a while loop without a bound?"""
    return E.CUR is not None and E.CUR.unbounded


def whileloop(*args):
    _seq().whileloop(*args)


def symseq(it):
    """loop over a sequence of symbolic length?"""
    if getattr(type(it), '_vc_seq', False):
        return True
    f = getattr(type(it), '__iter__', None)
    if isinstance(f, types.FunctionType) and E.CUR is not None and \
            E.CUR.unbounded:
        return getattr(type(f(it)), '_vc_seq', False)
    return False


def starcall(f, args, kwargs):
    """f(*args) with a symbolic sequence unpacked"""
    from . import seq
    if len(args) == 1 and f is b_zip:
        x = args[0][1]
        r = seq.aslist(x)
        if isinstance(r, seq.SSeq):
            u = seq.unzip(r)
            return iter(u)
        return builtins.zip(*r)
    raise E.Unsupported('call with symbolic argument list')


def star(f, args, kwargs):
    """call with starred arguments: args is a list of (starred, value)"""
    out = []
    for st, v in args:
        if st:
            if getattr(type(v), '_vc_seq', False):
                return starcall(f, args, kwargs)
            out.extend(v)
        else:
            out.append(v)
    return f(*out, **kwargs)


def div(a, b):
    if isinstance(a, builtins.int) and isinstance(b, builtins.int) and \
            not isinstance(a, builtins.bool):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return SReal(Fraction(a, b))
    if isinstance(a, (builtins.int, builtins.float)) and \
            isinstance(b, (builtins.int, builtins.float)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return SReal(E.frac(a) / E.frac(b))
    return a / b


def fmt(s, args):
    xs = args if isinstance(args, builtins.tuple) else (args,)
    if all(type(x) in (builtins.int, builtins.str) for x in xs):
        return s % args
    return s            # messages with symbolic values


class _VMeta(type):
    def __call__(cls, *args, **kwargs):
        return cls.conv(*args, **kwargs)

    def __instancecheck__(cls, x):
        return b_isinstance(x, cls)


class b_float(metaclass=_VMeta):
    @staticmethod
    def conv(x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, SInt):
            return SReal.lift(x)
        if isinstance(x, SBool):
            return SReal.lift(x._num())
        if isinstance(x, (builtins.int, builtins.float, Fraction)):
            if isinstance(x, builtins.float) and x in (
                    builtins.float('inf'), builtins.float('-inf')):
                return x
            return SReal(E.frac(x))
        if isinstance(x, SVal):
            raise TypeError('float() argument')
        if isinstance(x, builtins.str):
            return builtins.float(x)
        f = getattr(type(x), '__float__', None)
        if f is None:
            raise TypeError('float() argument must be a number')
        return f(x)


class b_int(metaclass=_VMeta):
    @staticmethod
    def conv(x=0, *a):
        if isinstance(x, SNum):
            r = E.sint(x)
            return builtins.int(r.c) if r.c is not None else r
        if isinstance(x, SBool):
            return x._num()
        return builtins.int(x, *a)


class b_bool(metaclass=_VMeta):
    @staticmethod
    def conv(x=False):
        return builtins.bool(x)


_MAP = {}


def _expand(t):
    if isinstance(t, builtins.tuple):
        out = ()
        for x in t:
            out += _expand(x)
        return out
    if t is b_list:
        return (builtins.list,)
    if t is b_tuple:
        return (builtins.tuple,)
    if t is b_dict:
        return (builtins.dict, _seq().SDict)
    if t is b_set:
        return (builtins.set, _seq().SSet)
    if t is b_float:
        return (builtins.float, SReal)
    if t is b_int:
        return (builtins.int, SInt, SBool)
    if t is b_bool:
        return (builtins.bool, SBool)
    if t in _MAP:
        return _MAP[t]
    import numbers
    if t in (numbers.Number, numbers.Real):
        return (numbers.Number, SNum, SBool)
    if t is builtins.float:
        return (builtins.float, SReal)
    if t is builtins.int:
        return (builtins.int, SInt, SBool)
    return (t,)


def b_isinstance(x, t):
    ts = _expand(t)
    if type(x).__name__ == 'SSeq':
        return {'list': builtins.list, 'tuple': builtins.tuple}.get(
            x.kind) in ts or object in ts
    if isinstance(x, builtins.tuple(c for c in ts)):
        return True
    return False


def b_issubclass(c, t):
    return issubclass(c, _expand(t))


def b_len(x):
    f = getattr(type(x), '_vc_len', None)
    if f is not None:
        return f(x)
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.len(x)


def _seq():
    from . import seq
    return seq


def _sym(x):
    """is x (or what it iterates over) of symbolic length"""
    return symseq(x)


class b_list(metaclass=_VMeta):
    @staticmethod
    def conv(x=()):
        if _sym(x):
            return newlist(_seq().aslist(x))
        return newlist(builtins.list(x))


class b_tuple(metaclass=_VMeta):
    @staticmethod
    def conv(x=()):
        if _sym(x):
            r = _seq().aslist(x)
            if not isinstance(r, _seq().SSeq):
                return builtins.tuple(r)
            r.kind = 'tuple'
            return r
        return builtins.tuple(x)


class b_set(metaclass=_VMeta):
    @staticmethod
    def conv(x=()):
        if _sym(x):
            r = _seq().aslist(x)
            return newset(builtins.set(r)) if not isinstance(r, _seq().SSeq) else \
                _seq().SSet(r)
        return newset(builtins.set(x))


class b_dict(metaclass=_VMeta):
    fromkeys = builtins.dict.fromkeys

    @staticmethod
    def conv(*a, **k):
        if a and _sym(a[0]) and not k:
            if isinstance(a[0], _seq().SDict):
                return a[0].copy()
            return _seq().mkdict(a[0])
        return newdict(builtins.dict(*a, **k))


def b_sorted(x, key=None, reverse=False):
    if _sym(x):
        return _seq().s_sorted(x if isinstance(x, _seq().SSet) else
                               _seq().aslist(x), key, reverse)
    return newlist(builtins.sorted(x, key=key, reverse=reverse))


def b_zip(*xs, **kw):
    if any(_sym(x) for x in xs):
        return _seq().s_zip(xs)
    return builtins.zip(*xs, **kw)


def b_map(f, *xs):
    if any(_sym(x) for x in xs):
        s = _seq()
        if len(xs) == 1:
            return s.LazyGen(lambda: comp('gen', s.aslist(xs[0]), f, None,
                                          False))
        return s.LazyGen(lambda: comp('gen', s.s_zip(xs), f, None, True))
    return builtins.map(f, *xs)


def b_filter(f, x):
    if _sym(x):
        return comp('gen', x, lambda v: v, f, False)
    return builtins.filter(f, x)


def b_enumerate(x, start=0):
    if _sym(x):
        return _seq().s_enumerate(x, start)
    return builtins.enumerate(x, start)


def b_reversed(x):
    if _sym(x):
        return x.__reversed__()
    return builtins.reversed(x)


def b_any(x):
    if _sym(x):
        r = _seq().aslist(x)
        return _seq().s_any(r) if isinstance(r, _seq().SSeq) else \
            builtins.any(r)
    return builtins.any(x)


def b_all(x):
    if _sym(x):
        r = _seq().aslist(x)
        return _seq().s_all(r) if isinstance(r, _seq().SSeq) else \
            builtins.all(r)
    return builtins.all(x)


def _extreme(native, sign):
    def f(*xs, **kw):
        if len(xs) == 1 and _sym(xs[0]):
            r = _seq().aslist(xs[0])
            if isinstance(r, _seq().SSeq):
                return _seq().s_extreme(r, sign, **kw)
            return native(r, **kw)
        return native(*xs, **kw)
    return f


b_min = _extreme(builtins.min, 1)
b_max = _extreme(builtins.max, -1)


def b_iter(x, *a):
    if not a and _sym(x):
        r = _seq().aslist(x)
        if not isinstance(r, _seq().SSeq):
            return builtins.iter(r)
        r.kind = 'gen'
        return r
    return builtins.iter(x, *a)


def b_sum(it, start=0):
    if _sym(it):
        r = _seq().aslist(it)
        if isinstance(r, _seq().SSeq):
            return r._vc_sum(start)
        it = r
    r = start
    for x in it:
        r = r + x
    return r


def b_round(x, n=None):
    if isinstance(x, SNum):
        return E.sround(x, n)
    return builtins.round(x, n)


def b_abs(x):
    return builtins.abs(x)


def b_pow(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        return E.spow(E.tonum(a), E.tonum(b))
    return builtins.pow(a, b)


def b_range(*a):
    a = [builtins.int(x.c) if isinstance(x, SInt) and x.c is not None else x
         for x in a]
    if any(isinstance(x, SVal) for x in a):
        from . import seq
        return seq.srange(*a)
    return builtins.range(*a)


def comp(kind, it, elt, cond, star):
    if symseq(it):
        s = _seq()
        if kind == 'gen':
            return s.LazyGen(lambda: _scomp(s, kind, it, elt, cond, star))
        return _scomp(s, kind, it, elt, cond, star)
    call = (lambda f, x: f(*x)) if star else (lambda f, x: f(x))

    def gen():
        for x in it:
            if cond is None or call(cond, x):
                yield call(elt, x)
    if kind == 'gen':
        return gen()
    if kind == 'list':
        return newlist(builtins.list(gen()))
    if kind == 'set':
        return newset(builtins.set(gen()))
    return newdict(builtins.dict(gen()))


def _scomp(s, kind, it, elt, cond, star):
    r = s.aslist(it)
    if not isinstance(r, _seq().SSeq):
        return comp(kind, r, elt, cond, star)
    if isinstance(it, s.SSet):
        return it._vc_comp(kind, elt, cond, star)
    return r._vc_comp(kind, elt, cond, star)
