"""Comparisons with an undefined operand."""
from common import *

LEVEL = 'proof'
RULE = 'with an undefined operand every disjunct returns false, and true for !='
ASSUMPTIONS = ['every intermediate result is representable in the number type']


def build(tier):
    def specf(cn, sh):
        return lambda S: same(S, S.true(S.out(0)), cn == 'ne', 'wrong truth value')

    def pref(cn, sh):
        def pre(S):
            a, b, c, d = operands(S, sh)
            return S.zero(b) or S.zero(d)
        return pre
    obls = []
    for rep, pn, P in rep_policies(tier):
        obls += cmp_obls('c04', rep, pn, P, specf, pref)
    for l, r, full in every_pair(tier):
        for pn in ('safe', 'fast', 'default') if full else ('safe', 'fast'):
            obls += mixed_obls('c04m', l, r, pn, POL[pn], specf, pref,
                               cmps=list(CMP) if full else ('eq', 'ne', 'lt', 'le'))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c04', size=60)))
