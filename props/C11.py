"""Reduction, sign normalisation, reciprocal and absolute value."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the result has the value the function names, the promised form (coprime terms, positive '
        'denominator, sign of the denominator kept), and an undefined operand stays undefined')
ASSUMPTIONS = ['the negated terms are representable in the number type', 'reciprocals are taken of defined fractions']


def val(S, n, d, rn, rd):
    if S.zero(rd):
        return True if S.zero(d) else 'defined result'
    return value_is(S, n, d, rn, rd)


def reduced(mode):
    def spec(S):
        n, d = S.out(0, 0), S.out(0, S.sz)
        if S.zero(S.b):
            return True if S.zero(n) and S.zero(d) else 'undefined does not become 0/0'
        if mode == 'n' and not S.pos(d):
            return 'denominator is not positive'
        if mode == 'i' and S.pos(d) != S.pos(S.b):
            return 'sign of the denominator changed'
        if not S.eq(S.gcd(n, d), ONE):
            return 'not in lowest terms'
        return value_is(S, n, d, S.a, S.b)
    return spec


def normal(S):
    n, d = S.out(0, 0), S.out(0, S.sz)
    if S.zero(S.b):
        return True if S.zero(d) else 'defined result'
    if not S.pos(d):
        return 'denominator is not positive'
    if not S.eq(S.abs(d), S.abs(S.b)) or not S.eq(S.abs(n), S.abs(S.a)):
        return 'terms changed'
    return value_is(S, n, d, S.a, S.b)


def recip(S):
    n, d = S.out(0, 0), S.out(0, S.sz)
    if S.zero(S.a):
        return True if S.zero(d) else 'reciprocal of zero is defined'
    return value_is(S, n, d, S.b, S.a)


def absval(S):
    n, d = S.out(0, 0), S.out(0, S.sz)
    return val(S, n, d, S.abs(S.a), S.abs(S.b))


NORM, IGN = 'fr::reduce_mode::normalize_signs', 'fr::reduce_mode::ignore_signs'
FN = {
    'reduce': ('reduce({x})', reduced('n')), 'reduce_n': ('reduce({x}, %s)' % NORM, reduced('n')),
    'reduce_i': ('reduce({x}, %s)' % IGN, reduced('i')),
    'reduce_normalize_signs': ('reduce_normalize_signs({x})', reduced('n')),
    'reduce_ignore_signs': ('reduce_ignore_signs({x})', reduced('i')),
    'normalize_signs': ('normalize_signs({x})', normal),
    'reciprocal': ('reciprocal({x})', recip),
    'abs': ('abs({x})', absval),
}


def idem(S):
    if S.zero(S.out(0, S.sz)) and S.zero(S.out(1, S.sz)):
        return True
    return True if S.eq(S.out(0, 0), S.out(1, 0)) and S.eq(S.out(0, S.sz), S.out(1, S.sz)) else 'not idempotent'


def build(tier):
    obls = []
    for rep in WIDE:
        for kind, ty in kinds_for(rep, tier).items():
            pt = 'putr' if kind == 'raw' else 'put'
            for fn, (e, spec) in FN.items():
                if kind == 'raw' and fn == 'abs':
                    continue
                pre = (lambda S: not S.zero(S.b)) if fn == 'reciprocal' else None
                obls.append(mk('c11_%s_%s_%s' % (rep, kind, fn), rep, ['a', 'b'],
                               '%s(o0, fr::%s);' % (pt, e.format(x='%s(a, b)' % ty)), spec, pre,
                               '%s on %s' % (e.format(x='x'), ty)))
                if fn != 'reciprocal':
                    obls.append(mk('c11_%s_%s_%s_2' % (rep, kind, fn), rep, ['a', 'b'],
                                   'auto x = fr::%s; %s(o0, x); %s(o1, fr::%s);' % (e.format(x='%s(a, b)' % ty), pt, pt, e.format(x='x')),
                                   idem, None, '%s twice on %s' % (e.format(x='x'), ty),
                                   outs=['pairof<%s>' % ct(rep)] * 2))
                else:
                    obls.append(mk('c11_%s_%s_%s_2' % (rep, kind, fn), rep, ['a', 'b'],
                                   '%s(o0, fr::reciprocal(fr::reciprocal(%s(a, b))));' % (pt, ty),
                                   lambda S: value_is(S, S.out(0, 0), S.out(0, S.sz), S.a, S.b),
                                   lambda S: not S.zero(S.b) and not S.zero(S.a), 'reciprocal twice on %s' % ty))
    return obls + lean([o for o in obls if not o.fn.endswith('_2')], lambda S: [S.a, S.b])


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c11', size=60)))
