"""Structural queries."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the answer equals the arithmetic condition the query names '
        '(divisibility, coprimality, magnitude, component-wise equality)')
ASSUMPTIONS = ['the magnitudes of numerator and denominator are representable in the number type']


def divides(S, x, y):
    """x divides y, x not zero"""
    return S.zero(y - x * S.quot(y, x))


Q = {
    'is_integer': lambda S, a, b: not S.zero(b) and divides(S, b, a),
    'is_unit_fraction': lambda S, a, b: not S.zero(b) and not S.zero(a) and divides(S, a, b),
    'is_reduced': lambda S, a, b: S.pos(b) and S.eq(S.gcd(a, b), ONE),
    'is_reduced_ignore_signs': lambda S, a, b: not S.zero(b) and S.eq(S.gcd(a, b), ONE),
    'is_proper': lambda S, a, b: S.lt(S.abs(a), S.abs(b)),
    'is_improper': lambda S, a, b: not S.lt(S.abs(a), S.abs(b)),
}
ID = {'are_identical': True, 'are_different': False}


def build(tier):
    obls = []
    for rep in WIDE:
        R = ct(rep)
        kinds = kinds_for(rep, tier)
        q = query_obls('c10', rep, kinds, Q)
        obls += q + lean(q, lambda S: [S.a, S.b])
        prs = [(k, k) for k in kinds] + [('safe', 'default'), ('default', 'safe')]
        for q, w in ID.items():
            for x, y in prs:
                def spec(S, w=w):
                    eq = S.eq(S.a, S.c) and S.eq(S.b, S.d)
                    return same(S, S.true(S.out(0, 0)), eq == w, 'wrong answer')
                obls.append(mk('c10_%s_%s_%s_%s' % (rep, q, x, y), rep, list('abcd'),
                               '*o0 = fr::%s(%s(a, b), %s(c, d));' % (q, kinds[x], kinds[y]), spec, None,
                               '%s on %s and %s' % (q, kinds[x], kinds[y]), outs=['bool']))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c10', size=60)))
