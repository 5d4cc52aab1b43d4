"""Comparisons agree with the order of the rationals."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct, the returned truth value equals the sign condition on (a*d - c*b)*b*d; no intermediate result overflows where those '
        'the policy stands for do not')
ASSUMPTIONS = ['every intermediate result is representable in the number type', 'operands are defined']


def build(tier):
    def specf(cn, sh):
        def spec(S):
            a, b, c, d = operands(S, sh)
            return same(S, S.true(S.out(0)), compare(S, cn, a * d - c * b, b * d), 'wrong truth value')
        return spec
    obls = []
    for rep, pn, P in rep_policies(tier):
        obls += cmp_obls('c03', rep, pn, P, specf, lambda cn, sh: defined_pre(sh))
    for rep in ('i32', 'i64', 'u32', 'u64'):
        for pn, P in POL.items():
            obls += lean_cmp('c03', rep, pn, P)
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c03', size=60)))
