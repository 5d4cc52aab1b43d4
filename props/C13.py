"""Redenomination."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the result has the requested denominator and its value is the nearest multiple in the '
        'direction of the rounding mode (remainder interval of the mode)')
ASSUMPTIONS = ['the numerator times the new denominator is representable in the number type']


def spec_for(mode):
    def spec(S):
        n, d = S.out(0, 0), S.out(0, S.sz)
        if S.zero(S.b):
            return True if S.zero(d) else 'defined result'
        if not S.eq(d, S.k):
            return 'wrong denominator'
        if S.zero(S.k):
            return True
        s = 1 if S.pos(S.b) else -1
        t = 1 if S.pos(S.k) else -1
        a, b, k, n = S.a.scale(s), S.b.scale(s), S.k.scale(t), n.scale(t)     # n/k against a/b, b > 0, k > 0
        e = a * k - n * b
        if mode == 'trunc':
            if not S.neg(a):
                return True if S.nonneg(e) and S.lt(e, b) and S.nonneg(n) else 'not truncated'
            return True if S.nonneg(-e) and S.lt(-e, b) and S.nonneg(-n) else 'not truncated'
        if mode == 'floor':
            return True if S.nonneg(e) and S.lt(e, b) else 'not rounded down'
        if mode == 'ceil':
            return True if S.nonneg(-e) and S.lt(-e, b) else 'not rounded up'
        h = e.scale(2)
        return True if S.nonneg(h + b) and S.le(h, b) else 'not nearest'
    return spec


CALLS = [('round', 'redenominate({x}, k)')] + [(m, '%s_redenominate({x}, k)' % m) for m in ('trunc', 'ceil', 'floor', 'round')] \
    + [(m, 'redenominate({x}, k, fr::round_mode::%s)' % m) for m in ('trunc', 'ceil', 'floor', 'round')]


def build(tier):
    obls, exact = [], []
    for rep in WIDE:
        for pn, P in all_policies(tier).items():
            for i, (mode, call) in enumerate(CALLS):
                obls.append(mk('c13_%s_%s_%d' % (rep, pn, i), rep, ['a', 'b', 'k'],
                               'put(o0, fr::%s);' % call.format(x='fr::fraction<%s, %s>(a, b)' % (ct(rep), P)),
                               spec_for(mode), None, '%s on fraction<%s,%s>' % (call.format(x='x'), ct(rep), pn)))
                if pn in POL:
                    exact.append(obls[-1])
    def allowed(S):
        x = S.a * S.k
        S.neg(S.a), S.neg(S.b), S.neg(S.k)          # the bounds below are judged for known signs
        return [S.a, S.b, S.k, x, x + ONE, x - ONE] + ([] if S.zero(S.b) else [S.b * S.quot(x, S.b)])
    return obls + lean(exact, allowed)


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c13', size=40)))
