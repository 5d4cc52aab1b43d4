"""Powers."""
from common import *

LEVEL = 'proof'
RULE = ('for every exponent in the range and every base the result equals base^exponent as a canonical monomial '
        '(or its reciprocal), undefined for a zero base and a negative exponent')
ASSUMPTIONS = ['the power and the exponent (its magnitude) are representable in the number type',
               'exponents with a representable power of a base other than -1, 0, 1 are enumerated; for those three '
               'bases larger exponents are enumerated up to the stated list']


def power(S, x, e):
    r = ONE
    for _ in range(e):
        r = r * x
    return r


def spec_pow(e, base):
    def spec(S):
        n, d = S.out(0, 0), S.out(0, S.sz)
        x = S.a if base is None else C(base)
        if e >= 0:
            return value_is(S, n, d, power(S, x, e), ONE)
        if S.zero(x):
            return True if S.zero(d) else 'defined result'
        return value_is(S, n, d, ONE, power(S, x, -e))
    return spec


def build(tier):
    obls = []
    for rep in WIDE:
        R, bits, u = REPS[rep]
        top = bits - (1 if u else 2)
        step = 1
        pols = {'default': POL['default'], 'fast': POL['fast']} if tier == 'quick' else POL
        es = [e for e in range(-top, top + 1) if tier == 'thorough' or abs(e) <= 12 or abs(e) in (16, 17, 31, 32, top)]
        for pn, P in pols.items():
            for e in es:
                t = str(e).replace('-', 'm')
                obls.append(mk('c14_%s_%s_p2_%s' % (rep, pn, t), rep, ['a'], 'put(o0, fr::pow2<%s, %s>(%d));' % (R, P, e),
                               spec_pow(e, 2), None, 'pow2<%s,%s>(%d)' % (R, pn, e)))
                if abs(e) > 24 and pn != 'default':
                    continue
                obls.append(mk('c14_%s_%s_p_%s' % (rep, pn, t), rep, ['a'], 'put(o0, fr::pow<%s, %s>(a, %d));' % (R, P, e),
                               spec_pow(e, None), None, 'pow<%s,%s>(a, %d)' % (R, pn, e)))
        for b in ((0, 1) if u else (-1, 0, 1)):
            for e in (33, 64, 65, 100, 255, 1000, 1001):
                if e > (1 << (bits - (0 if u else 1))) - 1:
                    continue
                for sg in (1, -1):
                    t = ('%d_%d' % (b, e * sg)).replace('-', 'm')
                    want = (b ** e)

                    def spec(S, want=want, sg=sg):
                        n, d = S.out(0, 0), S.out(0, S.sz)
                        if sg < 0 and want == 0:
                            return True if S.zero(d) else 'defined result'
                        return value_is(S, n, d, C(want), ONE)
                    obls.append(mk('c14_%s_c_%s' % (rep, t), rep, ['a'], 'put(o0, fr::pow<%s>(static_cast<%s>(%d), %d));' % (R, R, b, e * sg),
                                   spec, None, 'pow<%s>(%d, %d)' % (R, b, e * sg), max_visits=3000))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c14', size=60)))
