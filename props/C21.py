"""Limits and traits."""
from common import *

LEVEL = 'proof'
RULE = ('every member of the library and standard limits of fractions and mixed numbers is instantiated for each number '
        'type and policy and its value compared by the type checker with the bounds computed from the width and '
        'signedness of the number type')
ASSUMPTIONS = ['little more than the type checker of clang (confirmed by g++ before a violation is reported)']

LPRE = PRELUDE + '''
#include <limits>
template <class F, class R> constexpr bool fis(F const& f, R n, R d) { return f.numerator() == n && f.denominator() == d; }
template <class M, class W, class F> constexpr bool mis(M const& m, W w, F n, F d)
{ return m.whole() == w && m.fractional().numerator() == n && m.fractional().denominator() == d; }
template <class T> using nl = std::numeric_limits<T>;
'''

FLAGS = ['is_specialized', 'is_signed', 'is_integer', 'is_exact', 'has_infinity', 'has_quiet_NaN', 'has_signaling_NaN',
         'has_denorm', 'has_denorm_loss', 'round_style', 'is_iec559', 'is_bounded', 'is_modulo', 'digits', 'digits10',
         'max_digits10', 'radix', 'min_exponent', 'min_exponent10', 'max_exponent', 'max_exponent10', 'traps',
         'tinyness_before']


def lit(v, t):
    if v < 0:
        return 'static_cast<%s>(-%sLL - 1)' % (t, -v - 1)
    return 'static_cast<%s>(%sULL)' % (t, v)


def asserts(tier):
    out = []

    def add(c, t):
        out.append(('%d' % len(out), c, t))
    reps = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'l64')
    pols = ('safe', 'fast', 'default', 'safe_i', 'fast_o') if tier == 'quick' else tuple(policies(tier))
    P_ = policies('thorough')
    for rep in reps:
        R = ct(rep)
        lo, hi = rng(rep)
        u = REPS[rep][2]
        bits = REPS[rep][1]
        for pn in pols:
            F = 'fr::fraction<%s, %s>' % (R, P_[pn])
            n = 'fraction<%s,%s>' % (R, pn)
            one = 'static_cast<%s>(1)' % R
            zero = 'static_cast<%s>(0)' % R
            vals = {'min': (lit(lo, R), one), 'max': (lit(hi, R), one), 'smallest': (one, lit(hi, R)), 'undefined': (zero, zero)}
            for k, (a, b) in vals.items():
                add('fis(fr::limits<%s>::%s(), %s, %s)' % (F, k, a, b), 'limits %s of %s' % (k, n))
                add('std::is_same_v<decltype(fr::limits<%s>::%s()), %s>' % (F, k, F), 'type of limits %s of %s' % (k, n))
            std = {'min': 'min', 'lowest': 'min', 'max': 'max', 'epsilon': 'smallest', 'quiet_NaN': 'undefined'}
            for k, b in std.items():
                add('fis(nl<%s>::%s(), %s, %s)' % ((F, k) + vals[b]), 'numeric_limits %s of %s' % (k, n))
            for k in ('round_error', 'infinity', 'signaling_NaN', 'denorm_min'):
                add('std::is_same_v<decltype(nl<%s>::%s()), %s> && fis(nl<%s>::%s(), %s, %s)' % (F, k, F, F, k, zero, one),
                    'numeric_limits %s of %s' % (k, n))
            flags = dict(is_specialized='true', is_signed='false' if u else 'true', is_integer='false', is_exact='true',
                         has_infinity='false', has_quiet_NaN='true', has_signaling_NaN='false', is_iec559='false',
                         is_bounded='true', has_denorm_loss='false', radix='2', traps='false',
                         digits=str(bits if u else bits - 1))
            for k, v in flags.items():
                add('nl<%s>::%s == %s' % (F, k, v), 'numeric_limits %s of %s' % (k, n))
            add('!fr::is_defined(nl<%s>::quiet_NaN()) && !fr::is_defined(fr::limits<%s>::undefined())' % (F, F),
                'the undefined value of %s is undefined' % n)
            add('std::is_same_v<typename fr::limits<%s>::rep_type, %s> && std::is_same_v<typename fr::limits<%s>::ops_type, %s>'
                ' && std::is_same_v<typename fr::limits<%s>::fraction_type, %s>' % (F, R, F, P_[pn], F, F), 'types of limits of %s' % n)
            for k in FLAGS:
                add('nl<%s>::%s == nl<%s>::%s' % (F, k, F, k), 'numeric_limits %s of %s is usable' % (k, n))
        for frp in (rep,) + (('i32',) if rep == 'i64' else ()) + (('i64',) if rep == 'i32' else ()):
            for pn in pols:
                FR = ct(frp)
                M = 'fr::mixed_number<%s, %s, %s>' % (R, FR, P_[pn])
                F = 'fr::fraction<%s, %s>' % (FR, P_[pn])
                n = 'mixed_number<%s,%s,%s>' % (R, FR, pn)
                fz, fo = 'static_cast<%s>(0)' % FR, 'static_cast<%s>(1)' % FR
                z = 'static_cast<%s>(0)' % R
                whole = {'min': lit(lo, R), 'max': lit(hi, R)}
                for k, w in whole.items():
                    add('fis(fr::limits<%s>::%s().fractional(), %s, %s) && fr::limits<%s>::%s().whole() == %s'
                        % (M, k, fz, fo, M, k, w), 'limits %s of %s' % (k, n))
                add('mis(fr::limits<%s>::smallest(), %s, %s, %s)' % (M, z, fo, lit(rng(frp)[1], FR)), 'limits smallest of %s' % n)
                add('mis(fr::limits<%s>::undefined(), %s, %s, %s)' % (M, z, fz, fz), 'limits undefined of %s' % n)
                for k, w in (('min', whole['min']), ('lowest', whole['min']), ('max', whole['max'])):
                    add('mis(nl<%s>::%s(), %s, %s, %s)' % (M, k, w, fz, fo), 'numeric_limits %s of %s' % (k, n))
                add('mis(nl<%s>::epsilon(), %s, %s, %s)' % (M, z, fo, lit(rng(frp)[1], FR)), 'numeric_limits epsilon of %s' % n)
                add('mis(nl<%s>::quiet_NaN(), %s, %s, %s)' % (M, z, fz, fz), 'numeric_limits quiet_NaN of %s' % n)
                for k in ('round_error', 'infinity', 'signaling_NaN', 'denorm_min'):
                    add('mis(nl<%s>::%s(), %s, %s, %s)' % (M, k, z, fz, fo), 'numeric_limits %s of %s' % (k, n))
                for k in FLAGS:
                    add('nl<%s>::%s == nl<%s>::%s' % (M, k, F, k), 'numeric_limits %s of %s agrees with the fraction' % (k, n))
    return out


def run(rep, tier):
    from runner import static_asserts
    static_asserts(rep, LPRE, asserts(tier))
