"""Rounding to whole numbers."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the remainder a*s - r*|b| (s the sign of b) lies in the interval that defines the '
        'rounding mode')
ASSUMPTIONS = ['the fraction is defined and its rounding representable (terms range down to the lowest number)']


def in_mode(S, mode, N, D, r):
    """r is N/D (D > 0) rounded"""
    e = N - r * D
    if mode == 'trunc':
        if not S.neg(N):
            return S.nonneg(e) and S.lt(e, D)
        return S.nonneg(-e) and S.lt(-e, D)
    if mode == 'floor':
        return S.nonneg(e) and S.lt(e, D)
    if mode == 'ceil':
        return S.nonneg(-e) and S.lt(-e, D)
    # round: -D <= 2e < D, ties toward plus infinity
    t = e.scale(2)
    return S.nonneg(t + D) and S.lt(t, D)


def spec_for(mode):
    def spec(S):
        s = 1 if S.pos(S.b) else -1
        return True if in_mode(S, mode, S.a.scale(s), S.b.scale(s), S.out(0, 0)) else 'wrong integer'
    return spec


CALLS = [('trunc', 'trunc({x})'), ('ceil', 'ceil({x})'), ('floor', 'floor({x})'), ('round', 'round({x})'),
         ('round', 'to_whole({x})')] + [(m, 'to_whole({x}, fr::round_mode::%s)' % m)
                                        for m in ('trunc', 'ceil', 'floor', 'round')]


def build(tier):
    obls, exact = [], []
    for rep in WIDE:
        for pn, P in all_policies(tier).items():
            for i, (mode, call) in enumerate(CALLS):
                obls.append(mk('c12_%s_%s_%d' % (rep, pn, i), rep, ['a', 'b'],
                               '*o0 = fr::%s;' % call.format(x='fr::fraction<%s, %s>(a, b)' % (ct(rep), P)),
                               spec_for(mode), lambda S: not S.zero(S.b),
                               '%s on fraction<%s,%s>' % (call.format(x='x'), ct(rep), pn), outs=[ct(rep)]))
                if pn in POL:
                    exact.append((mode, obls[-1]))
    out = list(obls)
    for mode in ('trunc', 'floor', 'ceil', 'round'):
        out += lean([o for m, o in exact if m == mode], lambda S, mode=mode: parts(S, mode), strict=True)
    return out


def parts(S, mode):
    """terms and rounded value: what has to be representable"""
    q = S.quot(S.a, S.b)
    r = S.a - q * S.b
    up = S.pos(S.a) == S.pos(S.b)
    if not S.zero(r):
        if mode == 'floor' and not up:
            q = q - ONE
        if mode == 'ceil' and up:
            q = q + ONE
        if mode == 'round':
            # r has the sign of a; 2|r| against |b|
            m, d = r if S.pos(S.a) else -r, S.b if S.pos(S.b) else -S.b
            e = m.scale(2) - d
            if up and not S.neg(e):
                q = q + ONE
            if not up and S.pos(e):
                q = q - ONE
    return [S.a, S.b, q]


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c12', size=60)))
