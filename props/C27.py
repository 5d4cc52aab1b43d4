"""Construction and access."""
from common import *

LEVEL = 'proof'
RULE = ('after each constructor, conversion, assignment or accessor the two components of the object are, in every disjunct, the very '
        'numbers that went in; default values, ratios and the identity of the accessors are compared by the type checker')
ASSUMPTIONS = ['on a conversion to another number type both components are representable in it',
               'a ratio is built from its num and den, which std::ratio itself reduces']


def same(S):
    b = S.b if 'b' in S.I else ONE
    if not S.eq(S.out(0, 0), S.a):
        return 'wrong numerator'
    return True if S.eq(S.out(0, S.sz), b) else 'wrong denominator'


def fits_in(rep):
    lo, hi = rng(rep)

    def pre(S):
        return all(S.le(C(lo), p) and S.le(p, C(hi)) for p in (S.a, S.b))
    return pre


def first(S):
    return True if S.eq(S.out(0, 0), S.a) else 'wrong component'


def second(S):
    return True if S.eq(S.out(0, 0), S.b) else 'wrong component'


def swapped(S):
    return True if S.eq(S.out(0, 0), S.b) and S.eq(S.out(0, S.sz), S.a) else 'wrong component'


BUILD = [
    ('parens', ['a', 'b'], 'F x(a, b);'), ('braces', ['a', 'b'], 'F x{a, b};'), ('list', ['a', 'b'], 'F x = {a, b};'),
    ('one', ['a'], 'F x(a);'), ('one_braces', ['a'], 'F x{a};'), ('implicit', ['a'], 'F x = a;'), ('assign_rep', ['a'], 'F x(a, a); x = a;'),
    ('raw', ['a', 'b'], 'F x(W(a, b));'), ('raw_implicit', ['a', 'b'], 'F x = W{a, b};'), ('copy', ['a', 'b'], 'F y(a, b); F x(y);'),
    ('move', ['a', 'b'], 'F y(a, b); F x(std::move(y));'), ('assign', ['a', 'b'], 'F y(a, b); F x; x = y;'),
    ('assign_raw', ['a', 'b'], 'F x; x = W(a, b);'), ('through_raw', ['a', 'b'], 'F y(a, b); F x(y.raw());'),
    ('set', ['a', 'b'], 'F x; x.numerator() = a; x.denominator() = b;'), ('set_reverse', ['a', 'b'], 'F x; x.denominator() = b; x.numerator() = a;'),
    ('set_short', ['a', 'b'], 'F x; x.num() = a; x.den() = b;'), ('set_raw', ['a', 'b'], 'F x; x.raw() = W(a, b);'),
    ('set_members', ['a', 'b'], 'F x; x.raw().numerator = a; x.raw().denominator = b;'),
    ('keep_den', ['a', 'b'], 'F x(b, b); x.numerator() = a;'), ('keep_num', ['a', 'b'], 'F x(a, a); x.den() = b;'),
    ('swap', ['a', 'b'], 'F y(a, b), x(b, a); std::swap(x, y);'), ('plus', ['a', 'b'], 'F x = +F(a, b);'),
]
READ = [
    ('numerator', first, 'x.numerator()'), ('num', first, 'x.num()'), ('denominator', second, 'x.denominator()'), ('den', second, 'x.den()'),
    ('raw_n', first, 'x.raw().numerator'), ('raw_d', second, 'x.raw().denominator'),
    ('cnumerator', first, 'std::as_const(x).numerator()'), ('cnum', first, 'std::as_const(x).num()'),
    ('cdenominator', second, 'std::as_const(x).denominator()'), ('cden', second, 'std::as_const(x).den()'),
    ('craw_n', first, 'std::as_const(x).raw().numerator'), ('craw_d', second, 'std::as_const(x).raw().denominator'),
]


def build(tier):
    obls = []
    reps = tuple(REPS)
    pols = dict(POL) if tier == 'quick' else policies(tier)

    def add(fn, rep, ps, body, spec, pre, desc, outs):
        o = mk(fn, rep, ps, body, spec, pre, desc, outs=outs)
        o.fits = False
        obls.append(o)
    for rep in reps:
        R = ct(rep)
        W = 'fr::raw_fraction<%s>' % R
        for pn, P in pols.items():
            T = 'using F = fr::fraction<%s, %s>; using W = %s; (void) sizeof(W);' % (R, P, W)
            n = 'fraction<%s, %s>' % (R, pn)
            for k, ps, body in BUILD:
                add('c27_%s_%s_%s' % (rep, pn, k), rep, ps, '%s %s put(o0, std::as_const(x));' % (T, body), same, None, '%s with %s' % (body, n), None)
            for k, sp, e in READ:
                add('c27_%s_%s_r_%s' % (rep, pn, k), rep, ['a', 'b'], '%s F x(a, b); *o0 = %s;' % (T, e), sp, None, '%s of %s' % (e, n), [R])
            for to in reps:
                if to == rep or (tier == 'quick' and (rep, to) not in CONV):
                    continue
                for k, body in (('', 'fr::fraction<%s, %s> x(F(a, b));' % (ct(to), P)), ('i', 'fr::fraction<%s, %s> x = F(a, b);' % (ct(to), P)),
                                ('a', 'fr::fraction<%s, %s> x; x = F(a, b);' % (ct(to), P)),
                                ('p', 'fr::fraction<%s, %s> x(F(a, b));' % (ct(to), 'op::fast' if pn == 'safe' else 'op::safe'))):
                    o = mk('c27_%s_%s_%s%s' % (rep, pn, to, k), rep, ['a', 'b'], '%s %s put(o0, x);' % (T, body), same, fits_in(to),
                           '%s with %s' % (body, n), outs=['pairof<%s>' % ct(to)])
                    o.sz = REPS[to][1] // 8
                    o.fits = False
                    obls.append(o)
            for pm, Q in pols.items():
                if pm != pn:
                    add('c27_%s_%s_%s' % (rep, pn, pm), rep, ['a', 'b'], '%s fr::fraction<%s, %s> x(F(a, b)); put(o0, x);' % (T, R, Q), same, None,
                        'conversion of %s to policy %s' % (n, pm), None)
        T = 'using W = %s;' % W
        for k, body in (('parens', 'W x(a, b);'), ('braces', 'W x{a, b};'), ('copy', 'W y(a, b); W x(y);'), ('set', 'W x; x.numerator = a; x.denominator = b;')):
            add('c27_%s_raw_%s' % (rep, k), rep, ['a', 'b'], '%s %s putr(o0, x);' % (T, body), same, None, '%s with raw_fraction<%s>' % (body, R), None)
        for to in reps:
            if to == rep:
                continue
            for k, body in (('', 'fr::raw_fraction<%s> x(W(a, b));' % ct(to)), ('i', 'fr::raw_fraction<%s> x = W(a, b);' % ct(to)),
                            ('s', 'auto x = static_cast<fr::raw_fraction<%s>>(W(a, b));' % ct(to))):
                o = mk('c27_%s_raw_%s%s' % (rep, to, k), rep, ['a', 'b'], '%s %s putr(o0, x);' % (T, body), same, fits_in(to),
                       '%s with raw_fraction<%s>' % (body, R), outs=['pairof<%s>' % ct(to)])
                o.sz = REPS[to][1] // 8
                o.fits = False
                obls.append(o)
        add('c27_%s_deduced' % rep, rep, ['a', 'b'], 'fr::fraction x(a, b); put(o0, x);', same, None, 'deduced fraction of %s' % R, None)
    return obls


CONV = tuple((l, r) for l in WIDE for r in WIDE if l != r)


def asserts(tier):
    out = []

    def add(c, t):
        out.append(('%d' % len(out), c, t))
    for rep in REPS:
        R = ct(rep)
        lo, hi = rng(rep)
        for pn, P in policies(tier).items():
            n = 'fraction<%s, %s>' % (R, pn)
            T = 'using F = fr::fraction<%s, %s>; using R = %s;' % (R, P, R)
            for e in ('F()', 'F{}', 'F(F())'):
                add('[] { %s return %s.numerator() == 0 && %s.denominator() == 1; }()' % (T, e, e), '%s of %s is 0/1' % (e, n))
            add('[] { %s F x; return x.numerator() == 0 && x.denominator() == 1; }()' % T, 'the default %s is 0/1' % n)
            add('[] { %s F x[3]; return x[2].numerator() == 0 && x[2].denominator() == 1 && x[0].num() == 0 && x[0].den() == 1; }()' % T,
                'elements of an array of %s are 0/1' % n)
            add('[] { %s F x; F const& c = x; return &x.num() == &x.raw().numerator && &x.den() == &x.raw().denominator && &x.num() == &x.numerator() '
                '&& &x.den() == &x.denominator() && &c.num() == &x.num() && &c.den() == &x.den() && &c.numerator() == &x.num() '
                '&& &c.denominator() == &x.den() && &c.raw() == &x.raw(); }()' % T, 'the accessors of %s name its components' % n)
            add('[] { %s return std::is_same_v<typename F::rep_type, R> && std::is_same_v<typename F::ops_type, %s> && '
                'std::is_same_v<typename F::raw_fraction_type, fr::raw_fraction<R>>; }()' % (T, P), 'member types of %s' % n)
            for num, den in ((1, 2), (3, 4), (0, 1), (7, 1), (6, 8), (100, 10), (127, 1), (1, 127), (0, 5)) + (
                    ((-1, 2), (3, -4), (-6, -8), (-127, 1)) if lo else ((-6, -8),)):
                add('[] { %s using Q = std::ratio<%d, %d>; F x(Q{}); F y = Q{}; return x.num() == static_cast<R>(Q::num) && x.den() == static_cast<R>(Q::den)'
                    ' && y.num() == x.num() && y.den() == x.den(); }()' % (T, num, den), '%s from ratio<%d, %d>' % (n, num, den))
            for q in ('std::milli', 'std::kilo', 'std::micro', 'std::mega', 'std::giga'):
                if {'std::milli': 1000, 'std::kilo': 1000, 'std::micro': 10 ** 6, 'std::mega': 10 ** 6, 'std::giga': 10 ** 9}[q] <= hi:
                    add('[] { %s F x(%s{}); return x.num() == %s::num && x.den() == %s::den; }()' % (T, q, q, q), '%s from %s' % (n, q))
        for m in (R, 'long long') if rep != 'i64' else (R,):
            M = 'fr::mixed_number<%s, %s>' % (R, m)
            add('[] { %s x; return x.whole() == 0 && x.fractional().num() == 0 && x.fractional().den() == 1; }()' % M, 'the default mixed_number<%s, %s>' % (R, m))
    return out


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c27', size=150)))
    from runner import static_asserts_many
    a = asserts(tier)
    static_asserts_many(rep, [(PRELUDE, a[i:i + 500]) for i in range(0, len(a), 500)])
