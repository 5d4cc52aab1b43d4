"""Intermediate results stay within the bounds each policy promises."""
from common import *

LEVEL = 'proof'
RULE = ('every arithmetic result on every path is bounded in magnitude by one of the terms the policy allows: '
        'operands, least common denominator, operands scaled to it, and the result itself (safe); '
        'the same over reduced operands, with cross products under fast, for input-reducing policies')
ASSUMPTIONS = ['operands are defined, and divisors are not zero',
               'std::gcd and std::lcm do not overflow when their results are representable']


def build(tier):
    pols = dict(POL)
    pols.update(POL_EXTRA)
    obls = []
    for rep in reps_for(tier, ('i32', 'i64', 'u32', 'u64'), ('i32', 'i64', 'l64', 'u32', 'u64')):
        for pn, P in pols.items():
            if not (pn.startswith('safe') or pn == 'default' or pn in REDUCES_INPUT):
                continue            # plain fast policies promise nothing; C01 and C03 hold them to their cross products
            obls += lean_arith('c06', rep, pn, P) + lean_cmp('c06', rep, pn, P)
    for l, r, full in every_pair(tier):
        if full and l != r:
            for pn in ('safe', 'fast_i', 'default'):
                obls += lean_mixed('c06m', l, r, pn, POL[pn], ops=list(ARITH), cmps=list(CMP),
                                   assign=list(ARITH) if REPS[l][1] == REPS[common(l, r)][1] else ())
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c06', size=50)))
