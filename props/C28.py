"""Literals."""
from common import *
import C19

LEVEL = 'proof'
RULE = ('the number of a fraction literal, the number over it and the digits of a decimal literal are symbolic: in every disjunct the '
        'components are those numbers, the quotient with a fraction and the value of the digits are exact, and a decimal literal that is '
        'not of the grammar never yields a value; literals spelt in programs are decided by the type checker')
ASSUMPTIONS = ['the numbers are representable in the number type of the fraction', 'decimal literals up to the shapes of C19']

LPRE = PRELUDE + '''
#include <string_view>
namespace fl = ieme::literals;
'''


def verbatim(S):
    v = S.v.scale(S.ob.sg)
    if not S.eq(S.out(0, 0), S.a):
        return 'wrong numerator'
    return True if S.eq(S.out(0, S.sz), v) else 'wrong denominator'


def quotient(S):
    if S.zero(S.b) or S.zero(S.v):
        return True if S.zero(S.out(0, S.sz)) else 'an undefined quotient becomes defined'
    return value_is(S, S.out(0, 0), S.out(0, S.sz), S.a, S.b * S.v.scale(S.ob.sg))


UN = [('', '', 1), ('p', '+', 1), ('m', '-', -1), ('pm', '+-', -1), ('mp', '-+', -1), ('mm', '- -', 1), ('pp', '+ +', 1), ('mmm', '- - -', -1)]


def build(tier):
    obls = []
    reps = ('i16', 'i32', 'i64', 'u32', 'u64', 'l64') if tier == 'quick' else tuple(REPS)
    for rep in reps:
        R = ct(rep)
        lo, hi = rng(rep)
        for k, un, sg in UN:
            if 'm' in k and rep[0] == 'u':
                continue
            top = min(hi, (1 << 63) - 1)
            for side, body in (('', 'put(o0, a / %s fl::operator""_fr(v));'), ('f', 'fr::fraction<%s> const x = a / %%s fl::operator""_fr(v); put(o0, x);' % R)):
                o = Obl('c28_%s_%s%s' % (rep, k, side), wrap('c28_%s_%s%s' % (rep, k, side), ['pairof<%s>' % R], [(R, 'a'), ('unsigned long long', 'v')], body % un),
                        [('a', rep), ('v', (0, top))], verbatim, outs=1, desc='%s / %sv_fr %s' % (R, un, side), fits=False, **kw(rep))
                o.sz = REPS[rep][1] // 8
                o.sg = sg
                obls.append(o)
            pols = ('default', 'fast') if tier == 'quick' else tuple(POL)
            if rep in ('i32', 'i64', 'u32') and len(k) < 2 or tier != 'quick':
                for pn in pols:
                    lit = ('%s fl::operator""_fr(v)' % un) if pn == 'default' else '%s fl::denominator_literal<%s, %s>(v)' % (un, 'false', POL[pn])
                    fn = 'c28_%s_q_%s_%s' % (rep, pn, k)
                    o = Obl(fn, wrap(fn, ['pairof<%s>' % R], [(R, 'a'), (R, 'b'), ('unsigned long long', 'v')],
                                     'put(o0, fr::fraction<%s, %s>(a, b) / %s);' % (R, POL[pn], lit)), [('a', rep), ('b', rep), ('v', (0, top))], quotient,
                            outs=1, desc='fraction<%s,%s> / %sv_fr' % (R, pn, un), **kw(rep))
                    o.sz = REPS[rep][1] // 8
                    o.sg = sg
                    obls.append(o)
    shs = [s for s in C19.shapes('quick') if s]
    cor = [s for s in C19.corrupted(tier) if s]
    if tier == 'quick':
        shs = shs[::2] + ['D.D', 'DeD', '0xD.Dp1', 'D']
        cor = cor[::2]
    for i, s in enumerate(dict.fromkeys(shs + cor)):
        for good in (True, False):
            if '?' not in s and valid(s) != good:
                continue
            if good and not any(valid(s.replace('?', chr(c))) for c in (range(33, 127) if '?' in s else (0,))):
                continue
            if good and any(k in s.lower().partition('p' if s[:2].lower() == '0x' or 'xDp' in s else 'e')[2] for k in 'd?'):
                continue        # the exponent is not a constant
            obls.append(dec(s, i, good))
    return obls


class _Fixed:
    """decides a shape without symbolic choice: digits as the digit 1"""
    def __init__(self, s):
        self.s = s

    def n(self, c):
        return c

    def eq(self, a, b):
        return a.const() == b.const()

    def le(self, a, b):
        return a.const() <= b.const()


def valid(s):
    rep = {'D': '1', 'h': 'a', 'H': 'B'}
    return C19.read(_Fixed(s), [C(ord(rep.get(c, c))) for c in s]) is not None


def dec(sh, i, good):
    sh = tuple(sh)
    K = dict(C19.KIND)
    K['?'] = (33, 126)

    def setup(ob, st):
        from interp import Mem, Ptr
        st.mem[('out', 0)] = Mem({})
        ins, cells = {}, {}
        for j, k in enumerate(sh):
            v = C(ord(k))
            if k in K:
                v = ins['c%d' % j] = dom.A.var('c%d' % j, *K[k])
            cells[j] = (1, v)
        cells[len(sh)] = (1, ZERO)
        st.mem[('str', 0)] = Mem(cells, True, len(sh) + 1)
        return ins, [Ptr(('out', 0), 0), Ptr(('str', 0), 0)]

    def chars(S):
        return [S.n(S.I['c%d' % j]) if k in K else C(ord(k)) for j, k in enumerate(sh)]
    pre0, spec0 = C19.spec_for(chars)

    def pre(S):
        ok = C19.read(S, chars(S)) is not None
        return ok == good and (not good or pre0(S))
    fn = 'c28_dec_%d_%s' % (i, 'v' if good else 'x')
    cand = {}
    for j, k in enumerate(sh):
        if k == '?':
            cand['c%d' % j] = [ord(c) for c in "5.e'+-EpxzX0P9aAfFgG/:@`"]
        elif k == 'D':
            cand['c%d' % j] = [ord(c) for c in '12570839']
    o = Obl(fn, wrap(fn, ['pairof<long>'], [('char const*', 's')], 'put(o0, fl::operator""_dec(s));'), [], spec0, pre, outs=1,
            desc='%s_dec, %s' % (''.join(sh), 'a decimal literal' if good else 'not a decimal literal'), setup=setup, cand=cand,
            stops_ok=() if good else ('throw',), **kw('l64'))
    o.sz = 8
    o.max_steps = 3000000
    o.max_regions = 40000
    return o


SPELT = [('3/4_fr', 3, 4), ('-3/4_fr', -3, 4), ('3/-4_fr', 3, -4), ('-3/-4_fr', -3, -4), ('3/+4_fr', 3, 4), ('0/7_fr', 0, 7), ('7/0_fr', 7, 0),
         ('16/24_fr', 16, 24), ('0x10/0b11_fr', 16, 3), ("1'000/1'001_fr", 1000, 1001), ('010/011_fr', 8, 9), ('2147483647/2147483647_fr', 2147483647, 2147483647),
         ('3ll/9223372036854775807_fr', 3, 9223372036854775807), ('3ll/-9223372036854775807_fr', 3, -9223372036854775807), ('short(3)/4_fr', 3, 4),
         ('3u/4_fr', 3, 4), ('3ull/18446744073709551615_fr', 3, 18446744073709551615), ('(1/2_fr)/3_fr', 1, 6), ('(1/2_fr)/-3_fr', None, None),
         ("'a'/2_fr", 97, 2)]
DECS = [('0.759_dec', 759, 1000), ('1.5_dec', 3, 2), ('-1.5_dec', -3, 2), ('+1.5_dec', 3, 2), ('1._dec', 1, 1), ('.5_dec', 1, 2), ('1e3_dec', 1000, 1), ('1e-3_dec', 1, 1000),
        ('1.5E+2_dec', 150, 1), ("1'000.5_dec", 2001, 2), ('0x1.8p1_dec', 3, 1), ('0x.8p0_dec', 1, 2), ('0X1Fp-2_dec', 31, 4), ('0.0_dec', 0, 1), ('00.50_dec', 1, 2),
        ('9223372036854775807._dec', 9223372036854775807, 1), ('0.000000000000000001_dec', 1, 10 ** 18), ('1e18_dec', 10 ** 18, 1), ('017.5_dec', 35, 2)]
BAD = ['1_dec', '12_dec', '0_dec', '0x1F_dec', '0b101_dec', '017_dec', "1'000_dec"]


def cpp(v):
    return '%dll' % v if v < 1 << 63 else '%dull' % v


def asserts(tier):
    out = []
    for s, n, d in SPELT:
        if n is not None:
            out.append((str(len(out)), '[] { constexpr auto f = %s; return f.numerator() == %s && f.denominator() == static_cast<decltype(f.den() + 0)>(%s); }()' % (s, cpp(n), cpp(d)), 'the literal %s' % s))
        else:
            out.append((str(len(out)), '[] { constexpr auto f = %s; return f.numerator() * -6 == f.denominator(); }()' % s, 'the literal %s' % s))
    for l, t in (('3', 'int'), ('3l', 'long'), ('3ll', 'long long'), ('3u', 'unsigned'), ('short(3)', 'short'), ("'a'", 'char'), ('3ull', 'unsigned long long')):
        for r in ('4_fr', '+4_fr') + (() if 'u' in t else ('-4_fr',)):
            out.append((str(len(out)), 'std::is_same_v<decltype(%s / %s), fr::fraction<%s>>' % (l, r, t), 'type of %s / %s' % (l, r)))
    out.append((str(len(out)), 'std::is_same_v<decltype(1.5_dec), fr::fraction<std::intmax_t>>', 'type of 1.5_dec'))
    for s, n, d in DECS:
        out.append((str(len(out)), '[] { constexpr auto f = %s; return fr::is_defined(f) && f.numerator() * __int128(%s) == f.denominator() * __int128(%s); }()' % (s, cpp(d), cpp(n)),
                    'the literal %s' % s))
    for s in ('1.5_dec + 3/2_fr', '0.5_dec * (-1/2_fr)', '(3/4_fr) / 2_fr', '1.5_dec / 2_fr', '1.5_dec / -2_fr'):
        out.append((str(len(out)), '[] { constexpr auto f = %s; return fr::is_defined(f); }()' % s.replace('1.5_dec + 3/2_fr', '1.5_dec + 3l/2_fr').replace('0.5_dec * (-1/2_fr)', '0.5_dec * (-1l/2_fr)'),
                    'the expression %s' % s))
    return out


def run(rep, tier):
    from runner import static_asserts_many, Witness, run_witnesses, first_error
    rep.add_units(run_units(chunk(build(tier), 'c28', LPRE, size=25), limit=60 if tier == 'quick' else 400))
    pre = LPRE + 'using namespace ieme::literals;\n'
    a = asserts(tier)
    static_asserts_many(rep, [(pre, a)])
    ws = [Witness('bad%d' % i, pre + 'constexpr auto f = %s;\n' % s, False, 'the invalid decimal literal %s does not compile in a constant expression' % s)
          for i, s in enumerate(BAD)]
    for w, ok, diag in run_witnesses(ws):
        rep.units += 1
        rep.check(not ok, w.desc, 'include/ieme/fraction_literals.hpp', 'it compiles', 'type-level obligation')
