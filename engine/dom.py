"""Abstract value domain.

Integers are Laurent polynomials with rational coefficients over interned
atoms.  An atom is an input, or the value number of an operation that leaves
the polynomial ring: gcd, truncated quotient, power of two, truncation to a
width, an opaque bit operation.  Constructors put operations in a canonical
form, so that equal canonical forms denote equal integers.

A context (Ctx) is one element of the disjunctive domain: an interval with
holes per atom, a sign set per canonical polynomial, and solved equalities.
Entailment of a sign is decided from these by sign rules, intervals and a
linear (Farkas) combination of known inequalities over monomials.
"""
from fractions import Fraction as Fr
from math import gcd as igcd
import itertools

INF = float('inf')


class NeedSplit(Exception):
    """the sign of this canonical polynomial has to be known"""

    def __init__(self, poly):
        self.poly = poly


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


def fr(x):
    if isinstance(x, Fr) and x.denominator == 1:
        return x.numerator
    return x


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v == 0:
                del t[m]
            else:
                t[m] = fr(v)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) > 400 or len(o.t) > 400 or len(self.t) * len(o.t) > 4000:
            raise Unsupported('polynomial too large')
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mmul(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = fr(v)
        return Poly(t)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: fr(c * k) for m, c in self.t.items()})

    def mul_mono(self, mono, k=1):
        return Poly({mmul(m, mono): fr(c * k) for m, c in self.t.items()})

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def minv(m):
    return tuple((a, -e) for a, e in m)


ZERO = Poly({})
ONE = Poly({(): 1})


def C(n):
    return Poly({(): fr(n)}) if n else ZERO


def V(atom_id, e=1):
    return Poly({((atom_id, e),): 1})


class Atoms:
    """interned atoms of one analysis"""

    def __init__(self):
        self.kind, self.args, self.index, self.deps = [], [], {}, []
        self.lo, self.hi = [], []

    def get(self, kind, *args):
        k = (kind,) + args
        i = self.index.get(k)
        if i is None:
            i = len(self.kind)
            self.index[k] = i
            self.kind.append(kind)
            self.args.append(args)
            d = set()
            if kind == 'in':
                d.add(i)
            for a in args:
                if isinstance(a, Poly):
                    for b in a.atoms():
                        d |= self.deps[b]
            d.add(i)
            self.deps.append(frozenset(d))
            lo, hi = -INF, INF
            if kind == 'in':
                lo, hi = args[1], args[2]
            elif kind == 'G':
                lo = 0
            elif kind == 'P2':
                lo = 1
            elif kind == 'TR':
                lo, hi = 0, 2 ** args[0] - 1
            elif kind == 'OP':
                lo, hi = 0, 2 ** args[1] - 1
            elif kind == 'EXT':
                lo, hi = args[2], args[3]
            self.lo.append(lo)
            self.hi.append(hi)
        return i

    def var(self, name, lo, hi):
        return V(self.get('in', name, lo, hi))


A = Atoms()      # replaced per analysis by reset()


def reset():
    global A, _lp_cache
    A = Atoms()
    _lp_cache = {}


def show_atom(a):
    k, args = A.kind[a], A.args[a]
    if k == 'in':
        return args[0]
    if k == 'G':
        return 'gcd(%s,%s)' % (show(args[0]), show(args[1]))
    if k == 'Q':
        return 'trunc((%s)/(%s))' % (show(args[0]), show(args[1]))
    if k == 'P2':
        return '2^(%s)' % show(args[0])
    if k == 'TR':
        return '(%s mod 2^%d)' % (show(args[1]), args[0])
    if k == 'RD':
        return 'round%d(%s)' % (args[0], show(args[1]))
    if k == 'OP':
        return '(%s %s %s)' % (show(args[2]), args[0], show(args[3]))
    return '%s%r' % (k, args)


def show(p):
    if not isinstance(p, Poly):
        return repr(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        num = [show_atom(a) + ('' if e == 1 else '^%d' % e) for a, e in m if e > 0]
        den = [show_atom(a) + ('' if e == -1 else '^%d' % -e) for a, e in m if e < 0]
        s = '*'.join(num)
        if c != 1 or not s:
            s = str(c) + ('*' + s if s else '')
        if den:
            s += '/' + '/'.join(den)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def content(p):
    """(coefficient, monomial, rest) with p = coefficient*monomial*rest; rest is
    a primitive polynomial with non-negative exponents, no common atom and a
    positive leading coefficient"""
    if not p.t:
        return 0, (), ZERO
    monos = list(p.t)
    if len(monos) == 1:
        return p.t[monos[0]], monos[0], ONE
    exps = {}
    for a in p.atoms():
        e = min(dict(m).get(a, 0) for m in monos)
        if e:
            exps[a] = e
    mono = tuple(sorted(exps.items()))
    cn, cd = 0, 1
    for c in p.t.values():
        f = Fr(c)
        cn = igcd(cn, f.numerator)
        cd = cd * f.denominator // igcd(cd, f.denominator)
    k = Fr(cn, cd)
    inv = minv(mono)
    rest = {mmul(m, inv): fr(c / k) for m, c in p.t.items()}
    lead = max(rest)
    if rest[lead] < 0:
        k = -k
        rest = {m: -c for m, c in rest.items()}
    return fr(k), mono, Poly(rest)


def joint_content(p, q):
    """largest Laurent monomial and positive rational dividing both"""
    monos = list(p.t) + list(q.t)
    exps = {}
    ats = p.atoms() | q.atoms()
    for a in ats:
        e = min(dict(m).get(a, 0) for m in monos)
        if e:
            exps[a] = e
    mono = tuple(sorted(exps.items()))
    cn, cd = 0, 1
    for c in list(p.t.values()) + list(q.t.values()):
        f = Fr(c)
        cn = igcd(cn, f.numerator)
        cd = cd * f.denominator // igcd(cd, f.denominator)
    return fr(Fr(cn, cd)), mono


def lead_negative(p):
    return p.t[max(p.t)] < 0


FULL = frozenset((-1, 0, 1))


def sgn(x):
    return (x > 0) - (x < 0)


def sprod(a, b):
    return frozenset(x * y for x in a for y in b)


_depth = 0
MAXDEPTH = 1


class Ctx:
    """one disjunct: facts about atoms and polynomials"""
    __slots__ = ('iv', 'pf', 'sub', 'wrapped', '_key', '_cache', 'qd')

    def __init__(self, iv=None, pf=None, sub=None, qd=frozenset()):
        self.qd = qd
        self.iv = iv or {}
        self.pf = pf or {}
        self.sub = sub or {}
        self._key = None
        self._cache = {}

    def copy(self):
        return Ctx(dict(self.iv), dict(self.pf), dict(self.sub), self.qd)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.iv.items()), frozenset(self.pf.items()),
                         frozenset(self.sub.items()))
        return self._key

    # -- intervals ---------------------------------------------------------
    def interval(self, a):
        r = self.iv.get(a)
        if r is not None:
            return r
        return (A.lo[a], A.hi[a], frozenset())

    def atom_signs(self, a):
        lo, hi, ex = self.interval(a)
        s = set()
        if lo < 0:
            s.add(-1)
        if hi > 0:
            s.add(1)
        if lo <= 0 <= hi and 0 not in ex:
            s.add(0)
        k = A.kind[a]
        if len(s) > 1:
            if k == 'G' and 0 in s:
                p, q = A.args[a]
                if 0 not in self.signs(p) or 0 not in self.signs(q):
                    s.discard(0)
            elif k == 'Q':
                p, q = A.args[a]
                sp = sprod(self.signs(p), self.signs(q)) | {0}
                s &= sp
        return frozenset(s)

    # -- normalisation -----------------------------------------------------
    def norm(self, p):
        if not self.sub:
            return p
        r = self._cache.get(('n', p))
        if r is None:
            r = self._norm(p)
            self._cache[('n', p)] = r
        return r

    def _norm(self, p):
        subbed = self.sub.keys()
        hit = [a for a in p.atoms() if not A.deps[a].isdisjoint(subbed)]
        if not hit:
            return p
        for a in hit:
            p = self.replace(p, a, self.rebuild(a))
        return p

    def replace(self, p, a, val):
        if val == V(a):
            return p
        out = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            if e == 0:
                out = out + Poly({m: c})
                continue
            rest = tuple(x for x in m if x[0] != a)
            if e > 0:
                term = Poly({rest: c})
                for _ in range(e):
                    term = term * val
            else:
                if len(val.t) != 1:
                    if not val.t:
                        raise Infeasible()
                    raise Unsupported('inverse of a sum')
                (vm, vc), = val.t.items()
                term = Poly({rest: c})
                for _ in range(-e):
                    term = term.mul_mono(minv(vm), Fr(1) / vc)
            out = out + term
        return out

    def rebuild(self, a):
        if a in self.sub:
            return self.norm(self.sub[a])
        k, args = A.kind[a], A.args[a]
        if k == 'in':
            return V(a)
        n = [self.norm(x) if isinstance(x, Poly) else x for x in args]
        if all(x is y or x == y for x, y in zip(n, args)):
            return V(a)
        if k == 'G':
            return mk_gcd(self, n[0], n[1])
        if k == 'Q':
            return mk_quot(self, n[0], n[1])
        if k == 'P2':
            return mk_pow2(self, n[0])
        if k == 'TR':
            return mk_trunc(self, n[1], n[0])
        if k == 'OP':
            return mk_op(self, *n)
        if k == 'RD':
            return mk_round(self, n[1], n[0])
        return V(A.get(k, *n))

    # -- signs -------------------------------------------------------------
    def signs(self, p):
        p = self.norm(p)
        if not p.t:
            return frozenset((0,))
        r = self._cache.get((_depth, p))
        if r is not None:
            return r
        k, mono, rest = content(p)
        s = frozenset((sgn(k),))
        for a, e in mono:
            sa = self.atom_signs(a)
            if e % 2 == 0:
                sa = frozenset(x * x for x in sa)
            s = sprod(s, sa)
        if rest != ONE and s != {0}:
            s = sprod(s, self.rest_signs(rest))
        self._cache[(_depth, p)] = s
        return s

    def rest_signs(self, r):
        global _depth
        if r.is_const():
            return frozenset((sgn(r.const()),))
        known = self.pf.get(r, FULL)
        if len(known) == 1:
            return known
        lo, hi = self.poly_interval(r)
        s = set(known)
        if lo >= 0:
            s.discard(-1)
        if lo > 0:
            s.discard(0)
        if hi <= 0:
            s.discard(1)
        if hi < 0:
            s.discard(0)
        ats = r.atoms()
        if 0 in s and len(ats) == 1 and len(r.t) == 2 and () in r.t:
            (a,) = ats
            ma = [m for m in r.t if m][0]
            if ma == ((a, 1),):
                v = Fr(-r.t[()], 1) / r.t[ma]
                if v.denominator != 1 or v in self.interval(a)[2]:
                    s.discard(0)
        if len(s) > 1 and _depth < MAXDEPTH:
            # a query for the sign of a constraint's factor nests one level
            # deeper; the depth limit cuts cyclic queries
            ck = ('lp', _depth, r)
            if ck not in self._cache:
                _depth += 1
                try:
                    got = lp_signs(self, r, frozenset(s))
                finally:
                    _depth -= 1
                self._cache[ck] = got
            s = s & self._cache[ck]
        return frozenset(s)

    def mono_interval(self, m):
        lo, hi = 1, 1
        for a, e in m:
            al, ah, _ = self.interval(a)
            if al == -INF or ah == INF or e < 0:
                sa = self.atom_signs(a)
                if e < 0:
                    if sa == {1}:
                        al, ah, e = 0, 1, 1
                    elif sa == {-1}:
                        al, ah, e = -1, 0, 1
                    else:
                        al, ah, e = -1, 1, 1
                else:
                    if -1 not in sa:
                        al = max(al, 0 if 0 in sa else 1)
                    if 1 not in sa:
                        ah = min(ah, 0 if 0 in sa else -1)
            for _ in range(e):
                c = [x * y if (x and y) else 0 for x in (lo, hi) for y in (al, ah)]
                lo, hi = min(c), max(c)
            if e and e % 2 == 0:
                lo = max(lo, 0)
        return lo, hi

    def poly_interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            l, h = self.mono_interval(m)
            if c < 0:
                l, h = h, l
            lo += l * c if l else 0
            hi += h * c if h else 0
        return lo, hi

    def sign(self, p):
        """the sign of p, or NeedSplit"""
        s = self.signs(p)
        if len(s) == 1:
            return next(iter(s))
        if not s:
            raise Infeasible()
        p = self.norm(p)
        k, mono, rest = content(p)
        if rest != ONE:
            rs = self.rest_signs(rest)
            if len(rs) > 1:
                raise NeedSplit(rest)
            if not rs:
                raise Infeasible()
        for a, e in mono:
            if len(self.atom_signs(a)) > 1:
                raise NeedSplit(V(a))
        if not s:
            raise Infeasible()
        raise Unsupported('sign of ' + show(p))

    def nonzero(self, p):
        """decide p != 0, splitting as coarsely as possible"""
        s = self.signs(p)
        if 0 not in s:
            if not s:
                raise Infeasible()
            return True
        if s == {0}:
            return False
        return self.sign(p) != 0

    def split(self, q):
        """contexts for each possible sign of the canonical polynomial q"""
        out = []
        if len(q.t) == 1:
            (m, c), = q.t.items()
            a = m[0][0]
            cand = self.atom_signs(a)
        else:
            cand = self.rest_signs(q)
        for s in sorted(cand):
            n = self.copy()
            try:
                n.assume(q, s)
            except Infeasible:
                continue
            out.append(n)
        return out

    def refine(self, a, lo=None, hi=None, excl=None):
        l, h, ex = self.interval(a)
        if lo is not None:
            l = max(l, lo)
        if hi is not None:
            h = min(h, hi)
        if excl is not None:
            ex = ex | {excl}
        while l in ex:
            l += 1
        while h in ex:
            h -= 1
        if l > h:
            raise Infeasible()
        ex = frozenset(x for x in ex if l < x < h)
        if self.iv.get(a) == (l, h, ex):
            return
        self.iv[a] = (l, h, ex)
        self._cache = {}
        if l == h:
            self.solve(a, C(l))
        for q in [x for x in self.iv if A.kind[x] == 'Q' and x not in self.qd and
                  (x == a or a in A.deps[x])]:
            self._quotient_facts(q)

    def _quotient_facts(self, x):
        """what the sign of a truncated quotient says about its operands"""
        if x in self.qd:
            return
        lo, hi, ex = self.interval(x)
        s = 1 if lo > 0 else -1 if hi < 0 else 0 if lo == hi == 0 else None
        if s is None:
            return
        p, q = (self.norm(y) for y in A.args[x])
        self._cache = {}
        sq = self.signs(q)
        if len(sq) != 1 or 0 in sq:
            return
        (sq,) = sq
        self.qd = self.qd | {x}
        if s:
            self.add_fact(p, frozenset((s * sq,)))
            aq = q.scale(sq)
            self.add_fact(self.norm(p.scale(s * sq) - aq), frozenset((0, 1)))
            self.add_fact(self.norm(p - q * V(x)), frozenset((0, s * sq)))
        else:
            aq = q.scale(sq)
            self.add_fact(aq - p, frozenset((1,)))
            self.add_fact(self.norm(aq + p), frozenset((1,)))

    def solve(self, a, val):
        val = self.norm(val)
        if a in val.atoms():
            return
        for b in val.atoms():
            if a in A.deps[b]:
                return
        self.sub[a] = val
        self._cache = {}
        # re-normalise the remaining facts
        pf, self.pf = self.pf, {}
        for f, s in pf.items():
            self.add_fact(self.norm(f), s)

    def empty(self):
        """whether some fact contradicts the others"""
        for f, s in list(self.pf.items()):
            n = self.copy()
            del n.pf[f]
            try:
                if not (n.signs(f) & s):
                    return True
            except Infeasible:
                return True
            except (NeedSplit, Unsupported):
                pass
        return False

    def add_fact(self, p, s):
        """p has a sign in s"""
        self._cache = {}
        if not p.t:
            if 0 not in s:
                raise Infeasible()
            return
        k, mono, rest = content(p)
        if mono:
            # only keep what can be said about the rest
            ms = frozenset((sgn(k),))
            for a, e in mono:
                sa = self.atom_signs(a)
                if e % 2 == 0:
                    sa = frozenset(x * x for x in sa)
                ms = sprod(ms, sa)
            if rest == ONE:
                if not (ms & s):
                    raise Infeasible()
                if len(mono) == 1 and mono[0][1] % 2:
                    a = mono[0][0]
                    self._refine_signs(a, frozenset(x for x in FULL if x * sgn(k) in s))
                else:
                    un = [(a, e) for a, e in mono if len(self.atom_signs(a)) > 1]
                    if len(un) == 1 and un[0][1] % 2:
                        base = frozenset((sgn(k),))
                        for a, e in mono:
                            if a != un[0][0]:
                                sa = self.atom_signs(a)
                                if e % 2 == 0:
                                    sa = frozenset(x * x for x in sa)
                                base = sprod(base, sa)
                        (b,) = base
                        if b:
                            self._refine_signs(un[0][0], frozenset(x for x in FULL if x * b in s))
                    elif un:
                        self.pf[p if k > 0 else -p] = s if k > 0 else frozenset(-x for x in s)
                return
            if len(ms) == 1 and 0 not in ms:
                (m,) = ms
                s = frozenset(x for x in FULL if x * m in s)
                k = 1
            else:
                self.pf[p] = s      # not canonical: kept for evaluation only
                return
        else:
            if k < 0:
                s = frozenset(-x for x in s)
        if rest == ONE:
            if not (frozenset((1,)) & s):
                raise Infeasible()
            return
        cur = self.rest_signs(rest)
        s = s & cur
        if not s:
            raise Infeasible()
        # a*x + c : an interval
        ats = rest.atoms()
        if len(ats) == 1 and all(len(m) <= 1 and (not m or m[0][1] == 1) for m in rest.t):
            (a,) = ats
            ca = rest.t[((a, 1),)]
            c0 = rest.t.get((), 0)
            v = Fr(-c0) / ca            # root; ca > 0 or < 0
            up = 1 if ca > 0 else -1
            fl = v.numerator // v.denominator
            if s == {0}:
                if v.denominator != 1:
                    raise Infeasible()
                self.refine(a, lo=fl, hi=fl)
            else:
                gt, lt = (1 in s, -1 in s) if up > 0 else (-1 in s, 1 in s)
                eq = 0 in s
                isint = v.denominator == 1
                if gt and not lt:
                    self.refine(a, lo=fl if (eq and isint) else fl + 1)
                elif lt and not gt:
                    self.refine(a, hi=fl if (eq or not isint) else fl - 1)
                elif gt and lt and not eq and isint:
                    self.refine(a, excl=fl)
            return
        if s == {0}:
            self._solve_zero(rest)
            return
        if s != FULL:
            self.pf[rest] = s
        self._cache = {}

    def _refine_signs(self, a, s):
        if not s:
            raise Infeasible()
        lo = hi = None
        if -1 not in s:
            lo = 0 if 0 in s else 1
        if 1 not in s:
            hi = 0 if 0 in s else -1
        self.refine(a, lo, hi, 0 if 0 not in s and lo is None and hi is None else None)
        self._cache = {}

    def _solve_zero(self, r):
        # prefer the youngest solvable atom
        for a in sorted(r.atoms(), reverse=True):
            if A.kind[a] not in ('in', 'EXT', 'Q'):
                continue
            ms = [m for m in r.t if any(x[0] == a for x in m)]
            if len(ms) != 1 or ms[0] != ((a, 1),):
                continue
            c = r.t[ms[0]]
            if c not in (1, -1):
                continue
            val = Poly({m: x for m, x in r.t.items() if m != ms[0]}).scale(-Fr(1) / c)
            if any(a in A.deps[b] for b in val.atoms()):
                continue
            if A.kind[a] == 'Q':
                continue
            lo, hi, ex = self.interval(a)
            self.iv.pop(a, None)
            self.sub[a] = val
            self._cache = {}
            pf, self.pf = self.pf, {}
            for f, s in pf.items():
                self.add_fact(self.norm(f), s)
            if lo > -INF:
                self._bound(val - C(lo), frozenset((0, 1)))
            if hi < INF:
                self._bound(C(hi) - val, frozenset((0, 1)))
            for x in ex:
                self._bound(val - C(x), frozenset((-1, 1)))
            return
        self.pf[r] = frozenset((0,))
        self._cache = {}

    def _bound(self, p, s):
        try:
            if not self.signs(p) <= s:
                self.add_fact(p, s)
        except NeedSplit:
            pass

    def assume(self, q, s):
        """sign(q) = s, where q is an atom or a canonical polynomial"""
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                a = m[0][0]
                if a in self.sub:
                    self.add_fact(self.norm(q), frozenset((s,)))
                    return
                if s == 0:
                    self.refine(a, lo=0, hi=0)
                elif s > 0:
                    self.refine(a, lo=1)
                else:
                    self.refine(a, hi=-1)
                self._cache = {}
                return
        self.add_fact(self.norm(q), frozenset((s,)))

    # -- exact join ----------------------------------------------------------
    def exact_join(self, o):
        """the union of the two contexts, if it is representable exactly"""
        if self.sub != o.sub:
            # a solved constant against an interval that it extends
            return None
        if self.pf == o.pf:
            ks = set(self.iv) | set(o.iv)
            diff = [k for k in ks if self.iv.get(k) != o.iv.get(k)]
            if not diff:
                return self
            if len(diff) > 1:
                return None
            a = diff[0]
            u = iv_union(self.interval(a), o.interval(a))
            if u is None:
                return None
            n = self.copy()
            n.iv[a] = u
            return n
        if self.iv == o.iv:
            ks = set(self.pf) | set(o.pf)
            diff = [k for k in ks if self.pf.get(k, FULL) != o.pf.get(k, FULL)]
            if len(diff) != 1:
                return None
            f = diff[0]
            n = self.copy()
            u = self.pf.get(f, FULL) | o.pf.get(f, FULL)
            if u == FULL:
                n.pf.pop(f, None)
            else:
                n.pf[f] = u
            return n
        return None


def iv_union(x, y):
    if x[0] > y[0] or (x[0] == y[0] and x[1] > y[1]):
        x, y = y, x
    (l1, h1, e1), (l2, h2, e2) = x, y
    gap = []
    if l2 > h1 + 1:
        if l2 - h1 - 1 > 2:
            return None
        gap = list(range(h1 + 1, l2))
    ins = lambda v, i: i[0] <= v <= i[1] and v not in i[2]
    ex = set(gap)
    for v in e1 | e2:
        if not ins(v, x) and not ins(v, y):
            ex.add(v)
    lo, hi = l1, max(h1, h2)
    return (lo, hi, frozenset(v for v in ex if lo < v < hi))


# ---- linear entailment -------------------------------------------------
_lp_cache = {}


def is_int_poly(p):
    for m, c in p.t.items():
        if Fr(c).denominator != 1:
            return False
        for a, e in m:
            if e < 0:
                return False
    return True


def lp_constraints(ctx, r):
    """[(poly >= 0, strict?)] relevant to r"""
    ats = set(r.atoms())
    cons = []

    def add(p, strict):
        if p.t:
            if strict and is_int_poly(p):
                p = p - ONE
                strict = False
                if not p.t:
                    return
            cons.append((p, strict))
    # facts, closed under shared atoms once
    facts = []
    for f, s in ctx.pf.items():
        if len(s) == 1 or s in (frozenset((0, 1)), frozenset((-1, 0))):
            facts.append((f, s))
    rel = set(ats)
    for a in list(ats):
        if A.kind[a] == 'Q':
            rel |= set(A.args[a][0].atoms()) | set(A.args[a][1].atoms())
    chosen = []
    for f, s in facts:
        fa = f.atoms()
        if fa & rel:
            chosen.append((f, s))
            ats |= fa
    for f, s in chosen[:12]:
        if s == {1}:
            add(f, True)
        elif s == {-1}:
            add(-f, True)
        elif s == {0}:
            add(f, False)
            add(-f, False)
        elif s == {0, 1}:
            add(f, False)
        else:
            add(-f, False)
    for a in sorted(ats):
        k = A.kind[a]
        if k == 'Q':
            p, q = A.args[a]
            p, q = ctx.norm(p), ctx.norm(q)
            rem = p - q * V(a)
            sp, sq = ctx.signs(p), ctx.signs(q)
            if -1 not in sp:
                add(rem, False)
            if 1 not in sp:
                add(-rem, False)
            if len(sq) == 1 and 0 not in sq:
                aq = q if 1 in sq else -q
                add(aq - rem, True)
                add(aq + rem, True)
        elif k == 'G':
            p, q = A.args[a]
            add(V(a) - ONE, False) if 0 not in ctx.atom_signs(a) else None
            for x in (p, q):
                sx = ctx.signs(x)
                if sx == {1}:
                    add(x - V(a), False)
                elif sx == {-1}:
                    add(-x - V(a), False)
    base = list(cons)
    # products of a constraint with a monomial of known sign
    rm = list(r.t)
    extra = []
    for p, st in base:
        for mf in list(p.t)[:4]:
            for m in rm[:6]:
                k = mmul(m, minv(mf))
                if not k or any(e < 0 for _, e in k) or sum(e for _, e in k) > 3:
                    continue
                s = ctx.signs(Poly({k: 1}))
                if s == {1}:
                    extra.append((p.mul_mono(k), st))
                elif s == {-1}:
                    extra.append((p.mul_mono(k, -1), st))
                elif s == {0, 1}:
                    extra.append((p.mul_mono(k), False))
                elif s == {0, -1}:
                    extra.append((p.mul_mono(k, -1), False))
    seen = set()
    out = []
    for p, st in base:
        if (p, st) not in seen:
            seen.add((p, st))
            out.append((p, st))
    nb = len(out)
    # products, those that bring the fewest new monomials first
    monos = set(r.t) | {()}
    for p, st in out:
        monos |= set(p.t)
    rest = []
    for p, st in extra:
        if (p, st) not in seen:
            seen.add((p, st))
            rest.append((len(set(p.t) - monos), len(rest), p, st))
    for _, _, p, st in sorted(rest, key=lambda x: x[:2]):
        new = monos | set(p.t)
        if len(out) < 40 and len(new) <= 30:
            monos = new
            out.append((p, st))
    return out[:nb], out[nb:]


def lp_signs(ctx, r, cand):
    if len(r.t) > 14:
        return cand
    base, extra = lp_constraints(ctx, r)
    s = set(cand)
    for cons in (base, base + extra) if extra else (base,):
        if len(s) > 1 and (-1 in s or 0 in s):
            res = entails(ctx, r, cons)
            if res >= 1:
                s.discard(-1)
            if res == 2:
                s.discard(0)
        if len(s) > 1 and 1 in s:
            res = entails(ctx, -r, cons)
            if res >= 1:
                s.discard(1)
            if res == 2:
                s.discard(0)
    return frozenset(s)


def entails(ctx, p, cons):
    """0 unknown, 1: p >= 0, 2: p > 0.  p is a non-negative combination of the
    constraints and of monomials of known sign (exact rational simplex)."""
    cols = []          # (coeffs dict, strict)
    monos = set(p.t)
    for c, st in cons:
        monos |= set(c.t)
    monos.add(())
    for c, st in cons:
        cols.append((c.t, st))
    for m in monos:
        if m == ():
            cols.append(({(): 1}, True))
            continue
        s = ctx.signs(Poly({m: 1}))
        if s <= {0, 1}:
            lo = ctx.mono_interval(m)[0]
            if lo >= 1 and lo < 10 ** 6:
                cols.append(({m: 1, (): -lo}, False))
            else:
                cols.append(({m: 1}, s == {1}))
        elif s <= {0, -1}:
            hi = ctx.mono_interval(m)[1]
            if hi <= -1 and hi > -10 ** 6:
                cols.append(({m: -1, (): hi}, False))
            else:
                cols.append(({m: -1}, s == {-1}))
    for a in p.atoms():     # finite upper bounds that were refined
        if a in ctx.iv and ((a, 1),) in monos:
            lo, hi, _ = ctx.iv[a]
            if abs(hi) < 10 ** 6:
                cols.append(({((a, 1),): -1, (): hi}, False))
            if abs(lo) < 10 ** 6 and lo < 0:
                cols.append(({((a, 1),): 1, (): -lo}, False))
    rows = sorted(monos)
    if len(rows) > 30 or len(cols) > 90:
        return 0
    # quick reject: every negative coefficient needs a column that is negative there
    b = [p.t.get(m, 0) for m in rows]
    at = {m: i for i, m in enumerate(rows)}
    M = [[0] * len(cols) for _ in rows]
    for j, (c, _) in enumerate(cols):
        for m, x in c.items():
            M[at[m]][j] = x
    for i in range(len(rows)):
        if b[i] < 0:
            if not any(x < 0 for x in M[i]):
                return 0
            M[i] = [-x for x in M[i]]
            b[i] = -b[i]
        elif b[i] > 0:
            if not any(x > 0 for x in M[i]):
                return 0
    obj = [1 if st else 0 for _, st in cols]
    ok, val = simplex(M, b, obj)
    if not ok:
        return 0
    return 2 if val > 0 else 1


def simplex(M, b, obj):
    """feasibility of M x = b, x >= 0 and whether obj.x can be made positive.
    Integer tableau; every row, and the cost row, is kept up to a positive factor.
    b >= 0; artificial variables are implicit (they never re-enter)."""
    m, n = len(M), len(M[0])
    T = []
    for i, row in enumerate(M):
        row = row + [b[i]]
        d = 1
        for x in row:
            if x.__class__ is Fr:
                d = d * x.denominator // igcd(d, x.denominator)
        # artificial of row i: its cost counts 1 in units of this row's scale
        T.append([int(x * d) for x in row])
    basis = [n + i for i in range(m)]
    z = [-sum(col) for col in zip(*T)]

    def eliminate(Ti, pr, c, pv):
        f = Ti[c]
        g = igcd(pv, f)
        u, v = pv // g, f // g
        if u == 1:
            out = [x - v * y if y else x for x, y in zip(Ti, pr)]
        else:
            out = [u * x - v * y if y else u * x for x, y in zip(Ti, pr)]
        g = igcd(*out)
        return [x // g for x in out] if g > 1 else out

    def pivot(r, c, zz):
        pr = T[r]
        pv = pr[c]
        if pv < 0:
            T[r] = pr = [-x for x in pr]
            pv = -pv
        for i in range(m):
            if i != r and T[i][c]:
                T[i] = eliminate(T[i], pr, c, pv)
        basis[r] = c
        return eliminate(zz, pr, c, pv) if zz[c] else zz

    def leaving(c):
        r = None
        for i in range(m):
            a = T[i][c]
            if a > 0:
                if r is None:
                    r, num, den = i, T[i][-1], a
                    continue
                x, y = T[i][-1] * den, num * a
                if x < y or (x == y and basis[i] < basis[r]):
                    r, num, den = i, T[i][-1], a
        return r

    it = 0
    while True:
        it += 1
        if it > 300:
            return False, 0
        c = next((j for j in range(n) if z[j] < 0), None)
        if c is None:
            break
        r = leaving(c)
        if r is None:
            break
        z = pivot(r, c, z)
    if z[-1] != 0:
        return False, 0
    for i in range(m):      # drive artificials out
        if basis[i] >= n:
            c = next((j for j in range(n) if T[i][j] != 0), None)
            if c is not None:
                z = pivot(i, c, z)
    # phase 2: maximise obj
    w = [-int(x) for x in obj] + [0]
    for i in range(m):
        bi = basis[i]
        if bi < n and w[bi]:
            w = eliminate(w, T[i], bi, T[i][bi])
    while True:
        it += 1
        if w[-1] > 0:
            return True, 1
        if it > 600:
            return True, 0
        c = next((j for j in range(n) if w[j] < 0), None)
        if c is None:
            return True, 0
        r = leaving(c)
        if r is None:
            return True, 1
        w = pivot(r, c, w)


# ---- integrality and the smart constructors ----------------------------
def mono_divides(p, m, k):
    """m*k / p for a single-term p"""
    (pm, pc), = p.t.items()
    return mmul(m, minv(pm)), Fr(k) / pc


def integral(ctx, p, depth=0):
    """p takes integer values wherever its inverses are defined (sufficient)"""
    if all(Fr(c).denominator == 1 for c in p.t.values()) and \
            all(e > 0 for m in p.t for _, e in m):
        return True
    if depth > 6:
        return False
    if len(p.t) > 1:
        if all(integral(ctx, Poly({m: c}), depth) for m, c in p.t.items()):
            return True
        # p * G = s * argument or a combination of the arguments
        negs = {a for m in p.t for a, e in m if e < 0 and A.kind[a] == 'G'}
        for a in sorted(negs, reverse=True):
            R = p.mul_mono(((a, 1),))
            for x in A.args[a]:
                x = ctx.norm(x)
                q = poly_ratio(R, x)
                if q is not None and integral(ctx, q, depth + 1):
                    return True
        return False
    (m, c), = p.t.items()
    negs = [a for a, e in m if e < 0]
    if any(A.kind[a] not in ('G', 'P2') for a in negs):
        return False
    for a in sorted(negs, reverse=True):
        if A.kind[a] == 'P2':
            continue
        for x in A.args[a]:
            x = ctx.norm(x)
            if len(x.t) != 1:
                continue
            mm, cc = mono_divides(x, mmul(m, ((a, 1),)), c)
            q = Poly({mm: fr(cc)})
            if integral(ctx, q, depth + 1):
                return True
    return False


def poly_ratio(a, b):
    """Laurent monomial k with a = k*b, or None"""
    if not b.t:
        return None
    if not a.t:
        return ZERO
    if len(a.t) != len(b.t):
        return None
    ka, ma, ra = content(a)
    kb, mb, rb = content(b)
    if ra != rb:
        return None
    return Poly({mmul(ma, minv(mb)): fr(Fr(ka) / kb)})


def mk_abs(ctx, p):
    p = ctx.norm(p)
    s = ctx.signs(p)
    if -1 not in s:
        return p
    if 1 not in s:
        return -p
    return p if ctx.sign(p) >= 0 else -p


def mk_gcd(ctx, p, q):
    p, q = ctx.norm(p), ctx.norm(q)
    if not p.t:
        return mk_abs(ctx, q)
    if not q.t:
        return mk_abs(ctx, p)
    if p.is_const() and q.is_const():
        return C(igcd(abs(p.const()), abs(q.const())))
    if p.is_const() and abs(p.const()) == 1 or q.is_const() and abs(q.const()) == 1:
        return ONE
    # one divides the other
    for a, b in ((p, q), (q, p)):
        r = poly_ratio(a, b)
        if r is not None and integral(ctx, r):
            return mk_abs(ctx, b)
    k, mono = joint_content(p, q)
    inv = minv(mono)
    p1 = p.mul_mono(inv, Fr(1) / k)
    q1 = q.mul_mono(inv, Fr(1) / k)
    m = Poly({mono: k})
    if lead_negative(p1):
        p1 = -p1
    if lead_negative(q1):
        q1 = -q1
    if p1 == q1:
        return mk_abs(ctx, p)
    if p1 == ONE or q1 == ONE:
        g = ONE
    else:
        a, b = (p1, q1) if sortkey(p1) <= sortkey(q1) else (q1, p1)
        g = V(A.get('G', a, b))
    if mono == () and k == 1:
        return g
    return mk_abs(ctx, m) * g


def sortkey(p):
    return sorted((m, Fr(c)) for m, c in p.t.items())


def mk_lcm(ctx, p, q):
    p, q = ctx.norm(p), ctx.norm(q)
    if not ctx.nonzero(p) or not ctx.nonzero(q):
        return ZERO
    g = mk_gcd(ctx, p, q)
    (gm, gc), = g.t.items() if len(g.t) == 1 else (((), None),)
    if gc is None:
        raise Unsupported('gcd is a sum')
    return mk_abs(ctx, (p * q).mul_mono(minv(gm), Fr(1) / gc))


def mk_quot(ctx, a, b):
    """truncated quotient, b known nonzero"""
    a, b = ctx.norm(a), ctx.norm(b)
    if not a.t:
        return ZERO
    if a.is_const() and b.is_const():
        x, y = a.const(), b.const()
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q)
    r = poly_ratio(a, b)
    if r is not None and integral(ctx, r):
        return r
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        r = a.mul_mono(minv(bm), Fr(1) / bc)
        if integral(ctx, r):
            return r
    k, mono = joint_content(a, b)
    inv = minv(mono)
    a1 = a.mul_mono(inv, Fr(1) / k)
    b1 = b.mul_mono(inv, Fr(1) / k)
    neg = False
    if lead_negative(a1):
        a1, neg = -a1, not neg
    if lead_negative(b1):
        b1, neg = -b1, not neg
    # |a| < |b| gives zero
    lo, hi = ctx.poly_interval(a1)
    blo, bhi = ctx.poly_interval(b1)
    if blo > 0 and -blo < lo and hi < blo:
        return ZERO
    if blo == bhi and -INF < lo and hi < INF and blo > 0:
        ql = abs(lo) // blo * (-1 if lo < 0 else 1)
        qh = abs(hi) // blo * (-1 if hi < 0 else 1)
        if ql == qh:
            return C(-ql if neg else ql)
    q = V(A.get('Q', a1, b1))
    return -q if neg else q


def mk_rem(ctx, a, b):
    a, b = ctx.norm(a), ctx.norm(b)
    return a - b * mk_quot(ctx, a, b)


def mk_floor_div_pow2(ctx, p, k):
    """floor(p / 2^k)"""
    p = ctx.norm(p)
    if k == 0:
        return p
    D = 1 << k
    if p.is_const():
        return C(p.const() // D)
    hi, lo = {}, {}
    for m, c in p.t.items():
        if Fr(c).denominator == 1 and c % D == 0 and all(e > 0 for _, e in m):
            hi[m] = c // D
        else:
            lo[m] = c
    lo = Poly(lo)
    l, h = ctx.poly_interval(lo)
    if l >= 0 and h < D:
        return Poly(hi)
    if not integral(ctx, lo):
        lo, hi = p, {}
    s = ctx.sign(lo)
    if s >= 0:
        return Poly(hi) + mk_quot(ctx, lo, C(D))
    return Poly(hi) - mk_quot(ctx, C(D - 1) - lo, C(D))


def mk_pow2(ctx, e):
    e = ctx.norm(e)
    if e.is_const():
        v = e.const()
        if v < 0 or v > 4096:
            raise Unsupported('2^%s' % v)
        return C(1 << v)
    return V(A.get('P2', e))


def mk_trunc(ctx, p, bits):
    """the representative in [0, 2^bits) of p modulo 2^bits"""
    p = ctx.norm(p)
    if p.is_const():
        return C(p.const() % (1 << bits))
    lo, hi = ctx.poly_interval(p)
    if lo >= 0 and hi < (1 << bits):
        return p
    M = 1 << bits
    # drop multiples of 2^bits
    if is_int_poly(p):
        p = Poly({m: c for m, c in p.t.items() if c % M})
        if p.is_const():
            return C(p.const() % M)
        lo, hi = ctx.poly_interval(p)
        if lo >= 0 and hi < M:
            return p
    return V(A.get('TR', bits, p))


def mk_op(ctx, op, bits, p, q):
    p, q = ctx.norm(p), ctx.norm(q)
    M = (1 << bits) - 1
    if p.is_const() and q.is_const():
        x, y = p.const() & M, q.const() & M
        return C({'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
    if op in ('and', 'or', 'xor') and sortkey(q) < sortkey(p):
        p, q = q, p
    if op == 'xor' and p == q:
        return ZERO
    if op in ('and', 'or') and p == q:
        return p
    return V(A.get('OP', op, bits, p, q))


def round_to(v, bits):
    """v to the nearest multiple of a power of two with that many significant bits, ties to even"""
    n = max(0, abs(v).bit_length() - bits)
    if n == 0:
        return v
    q, r = divmod(abs(v), 1 << n)
    if 2 * r > 1 << n or (2 * r == 1 << n and q & 1):
        q += 1
    return (q << n) if v > 0 else -(q << n)


def mk_round(ctx, p, bits):
    """the integer p rounded to a floating-point type of that precision"""
    p = ctx.norm(p)
    if p.is_const():
        return C(round_to(p.const(), bits))
    lo, hi = ctx.poly_interval(p)
    if -(1 << bits) <= lo and hi <= 1 << bits:
        return p
    return V(A.get('RD', bits, p))


# ---- evaluation ----------------------------------------------------------
class Undefined(Exception):
    pass


def ev(p, env):
    tot = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = ev_atom(a, env)
            if e < 0:
                if x == 0:
                    raise Undefined()
                v = v * Fr(1, x ** -e) if not isinstance(x, Fr) else v / x ** -e
            else:
                v = v * x ** e
        tot = tot + v
    return fr(tot) if isinstance(tot, Fr) else tot


def ev_atom(a, env):
    r = env.get(a)
    if r is not None:
        return r
    k, args = A.kind[a], A.args[a]
    if k == 'G':
        r = igcd(int(ev(args[0], env)), int(ev(args[1], env)))
    elif k == 'Q':
        x, y = ev(args[0], env), ev(args[1], env)
        if y == 0:
            raise Undefined()
        q = abs(x) // abs(y)
        r = int(q) if (x < 0) == (y < 0) else -int(q)
    elif k == 'P2':
        e = ev(args[0], env)
        if e < 0 or e > 400:
            raise Undefined()
        r = 1 << int(e)
    elif k == 'TR':
        v = ev(args[1], env)
        if isinstance(v, Fr):
            raise Undefined()
        r = v % (1 << args[0])
    elif k == 'OP':
        M = (1 << args[1]) - 1
        x, y = ev(args[2], env), ev(args[3], env)
        if isinstance(x, Fr) or isinstance(y, Fr):
            raise Undefined()
        x &= M
        y &= M
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[args[0]]
    elif k == 'RD':
        x = ev(args[1], env)
        if isinstance(x, Fr):
            raise Undefined()
        r = round_to(x, args[0])
    else:
        raise Undefined()
    env[a] = r
    return r


def ctx_holds(ctx, env):
    for a, (lo, hi, ex) in ctx.iv.items():
        v = ev_atom(a, env)
        if v < lo or v > hi or v in ex:
            return False
    for a, p in ctx.sub.items():
        if ev_atom(a, env) != ev(p, env):
            return False
    for p, s in ctx.pf.items():
        if sgn(ev(p, env)) not in s:
            return False
    return True
