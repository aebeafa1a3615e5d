"""Equality back end: normal form of real terms as rational functions over
canonical atoms, exponentials merged into monomials (exp(a)exp(b)=exp(a+b)),
logarithms of products of positive factors expanded, path condition equalities
substituted.  `zero(t)` is True only if t normalises to 0 (denominators are
non-zero by the division obligations of the path).
"""
from fractions import Fraction
from math import lcm

import z3
from sympy import QQ
from sympy.polys.fields import field
from sympy.polys.rings import ring as mkring

from . import engine as E


class Fail(Exception):
    pass


class Atom(object):
    __slots__ = ('key', 'kind', 'expr', 'args', 'name')

    def __init__(self, key, kind, args=()):
        self.key, self.kind, self.args = key, kind, args


# polynomials: dict monomial->Fraction, monomial: tuple of (atomkey, exponent)
# rational functions are kept in sympy fields built per query; to obtain
# canonical arguments we use own sparse rational functions here.

class Rat(object):
    """num/den with num, den sparse polys (dict) - cancelled via sympy"""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else {(): Fraction(1)}
        self._key = None

    def key(self):
        if self._key is None:
            self._key = '(%s)/(%s)' % (pkey(self.num), pkey(self.den))
        return self._key

    def const(self):
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and () in self.num and self.den == {
                (): Fraction(1)}:
            return self.num[()]
        return None


def pkey(p):
    return '+'.join('%s*%s' % (c, '.'.join('%s^%d' % m for m in mon))
                    for mon, c in sorted(p.items()))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            del d[k]
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 40000:
        raise Fail('poly too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def cancel(num, den):
    """cancel common factors with sympy's sparse polynomials"""
    if not num:
        return Rat({}, {(): Fraction(1)})
    if not den:
        raise Fail('zero denominator')
    if len(den) == 1:
        (dm, dc), = den.items()
        inv = tuple((k, -e) for k, e in dm)
        # only divide fully if every monomial divisible, else keep
        num2 = {mmul(m, inv): c / dc for m, c in num.items()}
        neg = {}
        for m in num2:
            for k, e in m:
                if e < 0 and e < neg.get(k, 0):
                    neg[k] = e
        if not neg:
            return Rat(num2, {(): Fraction(1)})
        shift = tuple(sorted((k, -e) for k, e in neg.items()))
        return Rat({mmul(m, shift): c for m, c in num2.items()},
                   {shift: Fraction(1)})
    names = sorted({k for p in (num, den) for m in p for k, _ in m})
    R = mkring(['g%d' % i for i in range(len(names))], QQ)
    R0 = R[0]
    idx = {k: i for i, k in enumerate(names)}

    def conv(p):
        d = {}
        for m, c in p.items():
            v = [0] * len(names)
            for k, e in m:
                v[idx[k]] = e
            d[tuple(v)] = QQ(c.numerator, c.denominator)
        return R0.from_dict(d)

    a, b = conv(num), conv(den)
    g = a.gcd(b)
    if g != 1:
        a, b = a.quo(g), b.quo(g)
    lc = b.LC
    a, b = a.quo_ground(lc), b.quo_ground(lc)

    def back(p):
        r = {}
        for mon, c in p.terms():
            r[tuple((names[i], int(e)) for i, e in enumerate(mon) if e)] = \
                Fraction(int(c.numerator), int(c.denominator))
        return {tuple(sorted(m)): c for m, c in r.items()}

    return Rat(back(a), back(b))


def divide(num, den):
    """num = q * den + r, no monomial of r divisible by the leading one"""
    names = sorted({k for p in (num, den) for m in p for k, _ in m})
    R0 = mkring(['g%d' % i for i in range(len(names))], QQ)[0]
    idx = {k: i for i, k in enumerate(names)}

    def conv(p):
        d = {}
        for m, c in p.items():
            v = [0] * len(names)
            for k, e in m:
                v[idx[k]] = e
            d[tuple(v)] = QQ(c.numerator, c.denominator)
        return R0.from_dict(d)

    def back(p):
        r = {}
        for mon, c in p.terms():
            r[tuple(sorted((names[i], int(e)) for i, e in enumerate(mon)
                           if e))] = Fraction(int(c.numerator),
                                              int(c.denominator))
        return {m: c for m, c in r.items() if c}
    q, r = conv(num).div(conv(den))
    return back(q), back(r)


def rconst(c):
    c = Fraction(c)
    return Rat({(): c} if c else {})


def radd(a, b, s=1):
    if a.den == b.den:
        n = padd(a.num, b.num, s)
        if len(a.den) == 1 and () in a.den:
            return Rat(n, a.den)
        return cancel(n, a.den)
    return cancel(padd(pmul(a.num, b.den), pmul(b.num, a.den), s),
                  pmul(a.den, b.den))


def rmul(a, b):
    return cancel(pmul(a.num, b.num), pmul(a.den, b.den)) \
        if len(a.den) + len(b.den) > 2 or () not in a.den or () not in b.den \
        else Rat(pmul(a.num, b.num), a.den)


def rdiv(a, b):
    if not b.num:
        raise Fail('division by zero')
    return cancel(pmul(a.num, b.den), pmul(a.den, b.num))


class Ring(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.atoms = {}    # key -> Atom
        self.subst = {}    # atom key -> Rat
        self.cache = {}
        self.keep = []
        self.poscache = {}
        eqs = []
        for e in ctx.pc:
            self._collect(e, eqs)
        for _ in range(2):
            for l, r in eqs:
                try:
                    self._orient(l, r)
                except Fail:
                    pass
        for l, r in [(e.arg(0), e.arg(1)) for e in
                     ctx.nodes + list(ctx.known_nodes())] + \
                ctx.sumdefs:
            try:
                self._node(l, r)
            except Fail:
                pass

    def _node(self, l, r):
        """f(argument) == value: replace the application"""
        p = self.norm(l)
        if len(p.num) != 1 or p.den != {(): Fraction(1)}:
            return
        (m, c), = p.num.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return
        k = m[0][0]
        if self.atoms[k].kind != 'uf':
            return
        v = self.norm(r)
        for q in (v.num, v.den):
            for mm in q:
                for kk, _ in mm:
                    if k in self._deps(kk):
                        return
        if v.key() == p.key():
            return
        self.subst[k] = v
        self.cache = {}

    def _collect(self, e, eqs):
        if z3.is_and(e):
            for c in e.children():
                self._collect(c, eqs)
        elif z3.is_eq(e) and z3.is_arith(e.arg(0)):
            eqs.append((e.arg(0), e.arg(1)))
        elif z3.is_not(e) and z3.is_or(e.arg(0)):
            for c in e.arg(0).children():
                self._collect(z3.simplify(z3.Not(c)), eqs)

    def _orient(self, l, r):
        p = radd(self.norm(l), self.norm(r), -1)
        if not p.num:
            return
        # an atom occurring linearly with constant coefficient
        best = None
        deg = {}
        for m in p.num:
            for k, e in m:
                deg.setdefault(k, []).append((m, e))
        for k, occ in deg.items():
            if len(occ) == 1 and occ[0][1] == 1 and len(occ[0][0]) == 1:
                at = self.atoms[k]
                others = [o for o in deg if o != k]
                if any(k in self._deps(o) for o in others):
                    continue
                score = (at.kind not in ('var',), -len(k), k)
                if at.kind in ('exp', 'root'):
                    continue
                if best is None or score < best[0]:
                    best = (score, k, occ[0][0])
        if best is None:
            return
        _, k, m = best
        c = p.num[m]
        rest = {n: -d / c for n, d in p.num.items() if n != m}
        self.subst[k] = Rat(rest)
        self.cache = {}

    def _deps(self, k, seen=None):
        seen = set() if seen is None else seen
        if k in seen:
            return seen
        seen.add(k)
        at = self.atoms.get(k)
        if at is not None:
            for a in at.args:
                for p in (a.num, a.den):
                    for m in p:
                        for kk, _ in m:
                            self._deps(kk, seen)
        return seen

    # -- atoms -------------------------------------------------------------
    def atom(self, key, kind, args=()):
        if key not in self.atoms:
            self.atoms[key] = Atom(key, kind, args)
        if key in self.subst:
            return self.resub(self.subst[key])
        return Rat({((key, 1),): Fraction(1)})

    def resub(self, r):
        if not any(k in self.subst for p in (r.num, r.den) for m in p
                   for k, _ in m):
            return r
        num = self._psub(r.num)
        den = self._psub(r.den)
        return rdiv(num, den)

    def _psub(self, p):
        out = rconst(0)
        for m, c in p.items():
            t = rconst(c)
            for k, e in m:
                base = self.resub(self.subst[k]) if k in self.subst else \
                    Rat({((k, 1),): Fraction(1)})
                for _ in range(e):
                    t = rmul(t, base)
            out = radd(out, t)
        return out

    # -- positivity --------------------------------------------------------
    def positive(self, term):
        key = term.get_id()
        if key not in self.poscache:
            self.keep.append(term)
            r = self.ctx.sat(z3.Not(term > 0))
            self.poscache[key] = r is False
        return self.poscache[key]

    # -- exp / log on normal forms -----------------------------------------
    def rexp(self, arg):
        """exp of a Rat: product of generators"""
        if not arg.num:
            return rconst(1)
        out = rconst(1)
        if len(arg.den) > 1:
            q, r = divide(arg.num, arg.den)
            if q:
                return rmul(self.rexp(Rat(q)), self.rexp(
                    Rat(r, arg.den) if r else Rat({})))
        unit = len(arg.den) == 1 and () in arg.den
        for m, c in arg.num.items():
            if unit and len(m) == 1 and m[0][1] == 1 and \
                    self.atoms[m[0][0]].kind == 'log':
                inner = self.atoms[m[0][0]].args[0]
                n = c.numerator // c.denominator if c.denominator == 1 else \
                    (c.numerator // c.denominator)
                fr = c - n
                out = rmul(out, self._ipow(inner, n))
                if fr:
                    out = rmul(out, self._root(inner, fr))
                continue
            mm = Rat({m: Fraction(1)}, arg.den)
            if not unit:
                mm = cancel({m: Fraction(1)}, arg.den)
            out = rmul(out, self._egen(mm, c))
        return out

    def _ipow(self, r, n):
        out = rconst(1)
        for _ in range(abs(n)):
            out = rmul(out, r) if n > 0 else rdiv(out, r)
        return out

    DEN = 27720 * 2

    def _egen(self, mm, c):
        """exp(c*mm); generator exp(mm/DEN')"""
        # use generator per (mm) with fixed denominator resolution
        d = c.denominator
        L = 12 if 12 % d == 0 else d * 12
        # keep one resolution per base: 1/12 unless finer is needed
        key = 'exp<%s|%d>' % (mm.key(), L)
        at = Rat({((key, 1),): Fraction(1)})
        if key not in self.atoms:
            self.atoms[key] = Atom(key, 'exp', (mm,))
        n = c * L
        assert n.denominator == 1
        n = n.numerator
        if n >= 0:
            return Rat({((key, n),): Fraction(1)})
        return Rat({(): Fraction(1)}, {((key, -n),): Fraction(1)})

    def _root(self, inner, fr):
        d = fr.denominator
        key = 'root<%s|%d>' % (inner.key(), d)
        if key not in self.atoms:
            self.atoms[key] = Atom(key, 'root', (inner,))
        return Rat({((key, fr.numerator),): Fraction(1)})

    def rlog(self, arg, term):
        c = arg.const()
        if c == 1:
            return rconst(0)
        if len(arg.num) == 1 and len(arg.den) == 1:
            (nm, nc), = arg.num.items()
            (dm, dc), = arg.den.items()
            gens = [(k, e) for k, e in nm] + [(k, -e) for k, e in dm]
            coef = nc / dc
            if coef > 0 and (len(gens) > 1 or coef != 1 or any(
                    self.atoms[k].kind == 'exp' or e != 1 for k, e in gens)):
                parts = []
                ok = True
                for k, e in gens:
                    at = self.atoms[k]
                    if at.kind == 'exp':
                        L = int(k.rsplit('|', 1)[1][:-1])
                        parts.append(rmul(at.args[0], rconst(Fraction(e, L))))
                    elif at.kind == 'root':
                        L = int(k.rsplit('|', 1)[1][:-1])
                        parts.append(rmul(self._logatom(at.args[0]),
                                          rconst(Fraction(e, L))))
                    elif self.posatom(k):
                        parts.append(rmul(self._logatom(
                            Rat({((k, 1),): Fraction(1)})), rconst(e)))
                    else:
                        ok = False
                        break
                if ok:
                    out = rconst(0)
                    for p in parts:
                        out = radd(out, p)
                    if coef != 1:
                        out = radd(out, self._logatom(rconst(coef)))
                    return out
        # orientation: log(a/b) with compound: canonical sign
        if len(arg.num) == 1 and () in arg.num and len(arg.den) > 1 and \
                arg.num[()] > 0:
            inv = rdiv(rconst(1), arg)
            return rmul(rconst(-1), self._logatom(inv))
        return self._logatom(arg)

    def _logatom(self, r):
        c = r.const()
        if c is not None:
            if c == 1:
                return rconst(0)
            if c > 0 and c.numerator == 1:
                return rmul(rconst(-1), self._logatom(rconst(1 / c)))
        return self.atom('log<%s>' % r.key(), 'log', (r,))

    def posatom(self, k):
        at = self.atoms[k]
        if at.kind in ('exp', 'root'):
            return True
        t = self.terms.get(k)
        return t is not None and self.positive(t)

    terms = None

    # -- normalisation -----------------------------------------------------
    def norm(self, t):
        if self.terms is None:
            self.terms = {}
        key = t.get_id()
        if key in self.cache:
            return self.cache[key]
        r = self._norm(t)
        self.keep.append(t)
        self.cache[key] = r
        return r

    def _norm(self, t):
        if z3.is_rational_value(t):
            return rconst(Fraction(t.as_fraction()))
        if z3.is_int_value(t):
            return rconst(t.as_long())
        if z3.is_algebraic_value(t):
            raise Fail('algebraic')
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            out = self.norm(ch[0])
            for c in ch[1:]:
                out = radd(out, self.norm(c))
            return out
        if k == z3.Z3_OP_SUB:
            out = self.norm(ch[0])
            for c in ch[1:]:
                out = radd(out, self.norm(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return rmul(rconst(-1), self.norm(ch[0]))
        if k == z3.Z3_OP_MUL:
            out = self.norm(ch[0])
            for c in ch[1:]:
                out = rmul(out, self.norm(c))
            return out
        if k == z3.Z3_OP_DIV:
            return rdiv(self.norm(ch[0]), self.norm(ch[1]))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or \
                k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = Fraction(ch[1].as_fraction()) if z3.is_rational_value(
                ch[1]) else Fraction(ch[1].as_long())
            if e.denominator == 1 and abs(e) < 20:
                return self._ipow(self.norm(ch[0]), int(e))
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if k == z3.Z3_OP_ITE:
            c = z3.simplify(ch[0])
            if z3.is_true(c) or self.ctx.sat(z3.Not(c)) is False:
                return self.norm(ch[1])
            if z3.is_false(c) or self.ctx.sat(c) is False:
                return self.norm(ch[2])
            a, b = self.norm(ch[1]), self.norm(ch[2])
            if a.key() == b.key():
                return a
            kk = 'ite<%s|%s|%s>' % (c.sexpr(), a.key(), b.key())
            self.terms.setdefault(kk, t)
            return self.atom(kk, 'ite', (a, b))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if nm == 'EXP':
                return self.rexp(self.norm(ch[0]))
            if nm == 'LOG':
                return self.rlog(self.norm(ch[0]), ch[0])
            if nm == 'SQRT':
                a = self.norm(ch[0])
                l = self.rlog(a, ch[0])
                return self.rexp(rmul(rconst(Fraction(1, 2)), l))
            if not ch:
                kk = 'v:' + nm
                self.terms.setdefault(kk, t)
                return self.atom(kk, 'var')
            args = []
            keys = []
            for c in ch:
                if z3.is_arith(c):
                    a = self.norm(c)
                    args.append(a)
                    keys.append(a.key())
                else:
                    keys.append(z3.simplify(c).sexpr())
            kk = 'u:%s<%s>' % (nm, ','.join(keys))
            self.terms.setdefault(kk, t)
            return self.atom(kk, 'uf', tuple(args))
        # anything else: opaque
        kk = 'o:' + z3.simplify(t).sexpr()
        self.terms.setdefault(kk, t)
        return self.atom(kk, 'opaque')

    # -- decision ----------------------------------------------------------
    def iszero(self, r):
        if not r.num:
            return True
        num = r.num
        # unify generators of differing resolution & reduce roots
        num = self._unify(num)
        num = self._roots(num)
        return not num

    def _unify(self, num):
        base = {}
        for m in num:
            for k, _ in m:
                if k.startswith('exp<'):
                    b, L = k[4:-1].rsplit('|', 1)
                    base.setdefault(b, set()).add(int(L))
        fix = {b: lcm(*ls) for b, ls in base.items() if len(ls) > 1}
        if not fix:
            return num
        out = {}
        for m, c in num.items():
            d = {}
            for k, e in m:
                if k.startswith('exp<'):
                    b, L = k[4:-1].rsplit('|', 1)
                    if b in fix:
                        kk = 'exp<%s|%d>' % (b, fix[b])
                        d[kk] = d.get(kk, 0) + e * (fix[b] // int(L))
                        continue
                d[k] = d.get(k, 0) + e
            mm = tuple(sorted((k, e) for k, e in d.items() if e))
            v = out.get(mm, 0) + c
            if v:
                out[mm] = v
            else:
                out.pop(mm, None)
        return out

    def _roots(self, num):
        for _ in range(40):
            hit = None
            for m in num:
                for k, e in m:
                    if k.startswith('root<'):
                        L = int(k[5:-1].rsplit('|', 1)[1])
                        if e >= L:
                            hit = (k, L)
            if hit is None:
                return num
            k, L = hit
            inner = self.atoms[k].args[0]
            # multiply everything by den^q to stay polynomial
            q = max((dict(m).get(k, 0) // L) for m in num)
            out = {}
            for m, c in num.items():
                d = dict(m)
                e = d.get(k, 0)
                n = e // L
                if e - n * L:
                    d[k] = e - n * L
                else:
                    d.pop(k, None)
                t = {tuple(sorted(d.items())): c}
                for _i in range(n):
                    t = pmul(t, inner.num)
                for _i in range(q - n):
                    t = pmul(t, inner.den)
                out = padd(out, t)
            num = out
        return num

    def equal(self, a, b, settle=False):
        try:
            r = radd(self.norm(a), self.norm(b), -1)
            if self.iszero(r):
                return True
        except (Fail, RecursionError):
            return False
        if not settle:
            return False
        names = set(k[2:].split('<')[0] for m in r.num for k, _ in m
                    if k.startswith('u:I_'))
        if names and self.ctx.settle_nodes(names):
            return Ring(self.ctx).equal(a, b)
        return False
