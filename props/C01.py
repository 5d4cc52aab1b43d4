"""Exact value of the arithmetic operators."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct of the abstract result, numerator * expected denominator = denominator * expected '
        'numerator as canonical polynomials, and the denominator is not zero; no intermediate result overflows '
        'where those the policy stands for do not')
ASSUMPTIONS = ['every intermediate result is representable in the number type (no overflow, no wrap-around)',
               'operands are defined, and divisors are not zero']


def build(tier):
    def specf(on, sh):
        def spec(S):
            return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, *operands(S, sh)))
        return spec

    def pref(on, sh):
        return defined_pre(sh, (lambda S, a, b, c, d: not S.zero(c)) if on in ('div', 'mod') else None)

    def uspec(k):
        return lambda S: value_is(S, S.out(0, 0), S.out(0, S.sz), S.a.scale(k), S.b)
    obls = []
    for rep, pn, P in rep_policies(tier):
        obls += arith_obls('c01', rep, pn, P, specf, pref)
        obls += unary_obls('c01', rep, pn, P, uspec, lambda S: not S.zero(S.b))
    for rep in ('i32', 'i64', 'u32', 'u64'):
        for pn, P in POL.items():
            obls += lean_arith('c01', rep, pn, P)
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c01', size=60)))
