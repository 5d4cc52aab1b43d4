"""Reduced-output policies deliver canonical results."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the denominator is positive and gcd(numerator, denominator) = 1 in canonical form, '
        'or both are zero')
ASSUMPTIONS = ['every intermediate result is representable in the number type']


def build(tier):
    def specf(on, sh, norm=True):
        def spec(S):
            n, d = S.out(0, 0), S.out(0, S.sz)
            if S.zero(d):
                return True if S.zero(n) else 'undefined result is not 0/0'
            if norm and not S.pos(d):
                return 'denominator is not positive'
            g = S.gcd(n, d)
            return True if S.eq(g, ONE) else 'not in lowest terms'
        return spec
    obls = []
    for rep in WIDE:
        pols = {k: POL[k] for k in ('safe_o', 'safe_io', 'fast_o', 'fast_io', 'default')}
        pols.update({k: POL_EXTRA[k] for k in ('safe_oi', 'fast_oi', 'fast_oio', 'safe_ion')})
        ignoring = {'safe_oi', 'fast_oi', 'safe_ion'}
        if tier == 'thorough':
            for pn, (P, layers) in compositions(2).items():
                if any(side == 'output' for side, _ in layers):
                    pols[pn] = P
                    if ('output', 'normalize_signs') not in layers:
                        ignoring.add(pn)
        for pn, P in pols.items():
            if tier == 'quick' and rep not in MAIN and pn not in ('safe_io', 'fast_o'):
                continue
            norm = pn not in ignoring
            obls += arith_obls('c05', rep, pn, P, lambda on, sh: specf(on, sh, norm), lambda on, sh: None)
            if not REPS[rep][2]:
                obls += [o for o in unary_obls('c05', rep, pn, P, lambda k: specf(0, 0, norm), None)
                         if 'neg' in o.fn]
    for l, r, full in every_pair(tier):
        for pn in ('safe_io', 'fast_o', 'default') if full else ('fast_o',):
            on = list(ARITH) if full else ('plus', 'div')
            obls += mixed_obls('c05m', l, r, pn, POL[pn], specf, lambda on, sh: None, ops=on, assign=on)
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c05', size=60)))
