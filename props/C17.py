"""Floating-point values to fractions."""
from common import *
import dom

LEVEL = 'proof'
RULE = ('the bit pattern is sign * 2^(n-1) + exponent * 2^mantissa + m with m symbolic; for every disjunct the result '
        'equals (-1)^sign * (2^mantissa + m) * 2^(exponent - bias - mantissa); all-ones exponents give a zero '
        'denominator and zeros a zero numerator over a nonzero denominator')
ASSUMPTIONS = ['the value and the intermediate results of the policy are representable in the number type; exponents '
               'outside the range where the number type can hold the value are not analysed, nor are subnormals',
               'little-endian target']
FLOATS = {'float': ('unsigned', 32, 23, 8), 'double': ('unsigned long long', 64, 52, 11)}


def obl(fn, fl, rep, P, pn, sign, ebits, mrange, spec, desc):
    it, n, mb, eb = FLOATS[fl]
    R = ct(rep)
    o = Obl(fn, wrap(fn, ['pairof<%s>' % R], [(it, 'bits')],
                     '%s v; __builtin_memcpy(&v, &bits, sizeof v); put(o0, fr::to_fraction<%s, %s>(v));' % (fl, R, P)),
            [], spec, None, outs=1, desc=desc, width=REPS[rep][1])
    o.sz = REPS[rep][1] // 8

    def setup(ob, st):
        from interp import Mem, Ptr
        st.mem[('out', 0)] = Mem({})
        if mrange[0] == mrange[1]:
            m = C(mrange[0])
        else:
            m = dom.A.var('m', *mrange)
        b = C((sign << (n - 1)) + (ebits << mb)) + m
        if sign:
            b = b - C(1 << n)       # registers hold the signed reading
        return {'m': m}, [Ptr(('out', 0), 0), b]
    o.setup = setup
    return o


def build(tier):
    obls = []
    pols = ('default', 'safe', 'fast') if tier == 'quick' else tuple(POL)
    plan = []
    for fl, rep, lo, hi in (('float', 'i64', -38, 38), ('float', 'i32', -7, 6), ('double', 'i64', -10, 10)):
        for e in range(lo, hi + 1):
            plan.append((fl, rep, e))
    if tier == 'quick':
        plan = [p for i, p in enumerate(plan) if p[2] % 3 == 0 or abs(p[2]) < 3 or p[2] in (-38, 38, -7, -10, 10, 23, -23)]
    for fl, rep, e in plan:
        it, n, mb, eb = FLOATS[fl]
        bias = (1 << (eb - 1)) - 1
        for pn in pols:
            for sign in (0, 1):
                def spec(S, e=e, mb=mb, sign=sign):
                    n_, d = S.out(0, 0), S.out(0, S.ob.sz)
                    k = e - mb
                    num = (C(1 << mb) + S.m).scale((-1 if sign else 1) * (1 << max(k, 0)))
                    return value_is(S, n_, d, num, C(1 << max(-k, 0)))
                obls.append(obl('c17_%s_%s_%s_%d_%s%d' % (fl, rep, pn, sign, 'm' if e < 0 else 'p', abs(e)), fl, rep,
                                POL[pn], pn, sign, bias + e, (0, (1 << mb) - 1), spec,
                                'to_fraction<%s,%s>(%s), sign %d, exponent %d' % (ct(rep), pn, fl, sign, e)))
    for fl, rep in (('float', 'i64'), ('float', 'i32'), ('double', 'i64')):
        it, n, mb, eb = FLOATS[fl]
        for pn in POL:
            for sign in (0, 1):
                def undef(S):
                    return True if S.zero(S.out(0, S.ob.sz)) else 'an infinity or NaN becomes a defined fraction'

                def zero(S):
                    if S.zero(S.out(0, S.ob.sz)):
                        return 'zero becomes undefined'
                    return True if S.zero(S.out(0, 0)) else 'zero becomes nonzero'
                t = '%s_%s_%s_%d' % (fl, rep, pn, sign)
                d = 'to_fraction<%s,%s>(%s), sign %d, ' % (ct(rep), pn, fl, sign)
                obls.append(obl('c17_nan_' + t, fl, rep, POL[pn], pn, sign, (1 << eb) - 1, (1, (1 << mb) - 1), undef,
                                d + 'NaN'))
                obls.append(obl('c17_inf_' + t, fl, rep, POL[pn], pn, sign, (1 << eb) - 1, (0, 0), undef, d + 'infinity'))
                obls.append(obl('c17_zero_' + t, fl, rep, POL[pn], pn, sign, 0, (0, 0), zero, d + 'zero'))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c17', size=60)))
