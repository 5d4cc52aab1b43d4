"""Undefined operands and zero divisors."""
from common import *

LEVEL = 'proof'
RULE = ('with an undefined operand or a zero divisor every disjunct ends normally (no division by zero, no abort) '
        'with a zero denominator')
ASSUMPTIONS = ['every intermediate result is representable in the number type']


def build(tier):
    def specf(on, sh):
        return lambda S: True if S.zero(S.out(0, S.sz)) else 'defined result'

    def pref(on, sh):
        def pre(S):
            a, b, c, d = operands(S, sh)
            if S.zero(b) or S.zero(d):
                return True
            return on in ('div', 'mod') and S.zero(c)
        return pre
    obls = []
    for rep, pn, P in rep_policies(tier):
        for o in arith_obls('c02', rep, pn, P, specf, pref):
            obls.append(o)
        obls += unary_obls('c02', rep, pn, P, lambda k: specf(0, 0), lambda S: S.zero(S.b))
    for l, r, full in every_pair(tier):
        for pn in ('safe', 'fast', 'default') if full else ('fast',):
            on = list(ARITH) if full else ('plus', 'div', 'mod')
            obls += mixed_obls('c02m', l, r, pn, POL[pn], specf, pref, ops=on, assign=on)
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c02', size=60)))
