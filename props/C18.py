"""Fractions to floating point."""
from common import *
from fractions import Fraction
from interp import FP
import struct

LEVEL = 'proof'
RULE = ('for every disjunct the result is the term conv(N) / conv(D), one division in the requested type, where N/D '
        'equals the fraction as polynomials, gcd(N, D) = 1 and D > 0; 0/0 for an undefined fraction')
ASSUMPTIONS = ['the terms of the reduced fraction are representable in the number type',
               'the compiler rounds conversions and divisions to nearest (IEEE 754)']
PREC = {'float': 24, 'double': 53, 'x86_fp80': 64}
LL = {'float': 'float', 'double': 'double', 'x86_fp80': 'long double'}


def rnd(x, p):
    """x rounded to p bits, ties to even (exponent range ignored)"""
    if x == 0:
        return x
    n = abs(x)
    e = n.numerator.bit_length() - n.denominator.bit_length()
    if n < Fraction(2) ** e:
        e -= 1
    u = Fraction(2) ** (e - p + 1)
    q = n / u
    f = q.numerator // q.denominator
    r = q - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f % 2):
        f += 1
    v = f * u
    return v if x > 0 else -v


def ev(t):
    """value of a constant floating-point term: Fraction, 'nan' or 'inf'"""
    if t.op == 'conv':
        return rnd(Fraction(t.args[0].const()), PREC[t.ty])
    if t.op == 'fpcast':
        v = ev(t.args[0])
        return v if isinstance(v, str) else rnd(v, PREC[t.ty])
    if t.op == 'fneg':
        v = ev(t.args[0])
        return v if isinstance(v, str) else -v
    if t.op == 'const':
        c = t.args[0]
        c = str(c)
        if c.startswith('0x') and c[2] not in 'KLMHR':
            v = struct.unpack('>d', struct.pack('>Q', int(c, 16)))[0]
        else:
            v = float(c)
        if v != v:
            return 'nan'
        if v in (float('inf'), float('-inf')):
            return 'inf'
        return Fraction(v)
    if t.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a, b = ev(t.args[0]), ev(t.args[1])
        if isinstance(a, str) or isinstance(b, str):
            raise dom.Unsupported('special operand')
        if t.op == 'fdiv':
            if b == 0:
                return 'nan' if a == 0 else 'inf'
            return rnd(a / b, PREC[t.ty])
        v = a + b if t.op == 'fadd' else a - b if t.op == 'fsub' else a * b
        return rnd(v, PREC[t.ty])
    raise dom.Unsupported('value of ' + t.op)


def spec_for(fl):
    def spec(S):
        t = S.out(0, 0)
        if not isinstance(t, FP):
            raise dom.Unsupported('the result is not a floating-point term')
        a, b = S.a, S.b
        if t.op == 'fdiv' and t.ty == fl and all(isinstance(x, FP) and x.op == 'conv' and x.ty == fl for x in t.args):
            N, D = (S.n(x.args[0]) for x in t.args)
            if S.zero(b):
                if S.zero(D) and S.zero(N):
                    return True
            elif S.pos(D) and S.eq(N * b, D * a) and S.eq(S.gcd(N, D), ONE):
                return True
        if S.is_point():
            a, b = a.const(), b.const()
            if b == 0:
                want = 'nan'
            else:
                q = Fraction(a, b)
                want = rnd(rnd(Fraction(q.numerator), PREC[fl]) / rnd(Fraction(q.denominator), PREC[fl]), PREC[fl])
            got = ev(S_norm(S, t))
            return True if got == want else 'the result is %s, expected %s' % (got, want)
        return 'not the quotient of the reduced terms'
    return spec


def S_norm(S, t):
    args = []
    for x in t.args:
        args.append(S_norm(S, x) if isinstance(x, FP) else S.n(x) if isinstance(x, dom.Poly) else x)
    return FP(t.op, t.ty, tuple(args))


def build(tier):
    obls = []
    pols = tuple(POL)
    for rep in WIDE:
        for pn in pols:
            for fl, fn in (('float', 'to_float'), ('double', 'to_double'), ('x86_fp80', 'to_long_double')):
                obls.append(mk('c18_%s_%s_%s' % (rep, pn, fn), rep, ['a', 'b'],
                               '*o0 = fr::%s(fr::fraction<%s, %s>(a, b));' % (fn, ct(rep), POL[pn]),
                               spec_for(fl), None, '%s of fraction<%s,%s>' % (fn, ct(rep), pn), outs=[LL[fl]],
                               cand={x: list(range(-7, 8)) + [1 << 24, (1 << 24) + 1, (1 << 25) + 3, 3 * ((1 << 25) + 3),
                                                              (1 << 30) - 1, 10, 100, 1 << 53, (1 << 53) + 1, 3 * (1 << 53) + 3]
                                     for x in 'ab'}))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c18')))
