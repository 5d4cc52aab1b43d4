"""Mixed numbers: value and canonical form."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct whole + fractional part equals the value given, the fractional part is proper and does '
        'not oppose the sign of the whole part, and an undefined value keeps an undefined fractional part')
ASSUMPTIONS = ['every intermediate result is representable in the number type']

MPRE = PRELUDE + '''
template <class W, class F> struct mix { W w; F n, d; };
template <class P, class M> inline void putm(P* o, M const& m) {
  o->w = m.whole(); o->n = m.fractional().numerator(); o->d = m.fractional().denominator(); }
'''


def mixed_spec(want, w=4, f=4):
    """want(S) -> (numerator, denominator) of the value"""
    f0 = max(w, f)

    def spec(S):
        W, n, d = S.out(0, 0), S.out(0, f0), S.out(0, f0 + f)
        rn, rd = want(S)
        if S.zero(rd):
            return True if S.zero(d) else 'an undefined value becomes defined'
        if S.zero(d):
            return 'undefined result'
        if not S.lt(S.abs(n), S.abs(d)):
            return 'the fractional part is improper'
        if not S.zero(W) and not S.zero(n) and (S.pos(W) != S.pos(n * d)):
            return 'the parts have opposite signs'
        return True if S.eq((W * d + n) * rd, rn * d) else 'wrong value'
    return spec


def mm(fn, ps, body, spec, desc, width=32, unsigned=False, outs=('mix<int, int>',), pre=None):
    o = Obl(fn, wrap(fn, list(outs), [(ct(r), p) for p, r in ps], body), ps, spec, pre, outs=len(outs),
            desc=desc, width=width, unsigned=unsigned)
    o.sz = 0
    return o


def build(tier):
    obls, one = [], []
    pols = {k: POL[k] for k in ('safe', 'fast', 'default', 'fast_o')} if tier == 'quick' else POL
    prs = [('i32', 'i32'), ('i64', 'i64'), ('i64', 'i32'), ('i32', 'i64'), ('u32', 'u32')]
    prs += [('i16', 'i16'), ('i16', 'i32'), ('u64', 'u64'), ('i64', 'i16')]
    for wr, frp in prs:
        W, F = ct(wr), ct(frp)
        u = REPS[wr][2]
        wd = min(REPS[wr][1], REPS[frp][1])
        ws, fs = REPS[wr][1] // 8, REPS[frp][1] // 8
        out = 'mix<%s, %s>' % (W, F)
        for pn, P in pols.items():
            M = 'fr::mixed_number<%s, %s, %s>' % (W, F, P)
            FT = 'fr::fraction<%s, %s>' % (F, P)
            t = '%s_%s_%s' % (wr, frp, pn)
            kw = dict(width=max(16, wd), unsigned=u, outs=(out,))

            def parts(S):
                return S.w * S.b + S.a, S.b

            def whole(S):
                return S.w, ONE

            def frac(S):
                return S.a, S.b
            fit = None
            obls.append(mm('c15_%s_wf' % t, [('w', wr), ('a', frp), ('b', frp)], 'putm(o0, %s(w, %s(a, b)));' % (M, FT),
                           mixed_spec(parts, ws, fs), 'mixed_number<%s,%s,%s>(w, a/b)' % (W, F, pn), pre=fit, **kw))
            obls.append(mm('c15_%s_w' % t, [('w', wr)], 'putm(o0, %s(w));' % M,
                           mixed_spec(whole, ws, fs), 'mixed_number<%s,%s,%s>(w)' % (W, F, pn), **kw))
            obls.append(mm('c15_%s_f' % t, [('a', frp), ('b', frp)], 'putm(o0, %s(%s(a, b)));' % (M, FT),
                           mixed_spec(frac, ws, fs), 'mixed_number<%s,%s,%s>(a/b)' % (W, F, pn), **kw))
            obls.append(mm('c15_%s_fo' % t, [('a', frp), ('b', frp)],
                           'putm(o0, %s(fr::fraction<%s, %s>(a, b)));' % (M, F, POL['fast_i']),
                           mixed_spec(frac, ws, fs), 'mixed_number<%s,%s,%s>(a/b of another policy)' % (W, F, pn), **kw))
            obls.append(mm('c15_%s_d' % t, [], 'putm(o0, %s());' % M, mixed_spec(lambda S: (ZERO, ONE), ws, fs),
                           'mixed_number<%s,%s,%s>()' % (W, F, pn), **kw))
            if REPS[wr][1] > wd and not u:
                # whole parts that exist only in the wider type, with a proper fraction
                o = mm('c15_%s_wide' % t, [('w', wr), ('a', frp), ('b', frp)], 'putm(o0, %s(w, %s(a, b)));' % (M, FT),
                       mixed_spec(parts, ws, fs), 'mixed_number<%s,%s,%s>(w, a/b), large w' % (W, F, pn), outs=(out,),
                       pre=lambda S: S.lt(S.abs(S.a), S.abs(S.b)), width=REPS[wr][1])
                o.ins = [('w', wr), ('a', (-32767, 32767)), ('b', (-32767, 32767))]
                o.cand = {'w': [1 << 32, 5000000000, -(1 << 33), (1 << 31) - 1, 1, 0, -1], 'a': [0, 1, -1, 2], 'b': [1, 2, 3, -3]}
                obls.append(o)
            if wr == frp:
                one += [o for o in obls[-5:] if o.ins]
            if pn == 'default' and REPS[frp][1] < 64 and not u:
                # terms that only a wider type holds, of a value whose parts fit
                o = mm('c15_%s_from' % t, [('k', 'i64'), ('a', 'i64'), ('b', 'i64')],
                       'putm(o0, %s(fr::fraction<long long, %s>(k * a, k * b)));' % (M, P),
                       mixed_spec(frac, 8, 8), 'mixed_number<%s,%s,%s>(ka/kb of a wider type)' % (W, F, pn),
                       outs=('mix<long long, long long>',), pre=lambda S: not S.zero(S.b) and not S.zero(S.k), width=64)
                o.ins = [('k', (-1 << 40, 1 << 40)), ('a', (-32767, 32767)), ('b', (-32767, 32767))]
                o.cand = {'k': [1 << 17, 1 << 33, 1, -5 << 30], 'a': [0, 1, 3, -7, 5], 'b': [1, 2, -2, 3]}
                obls.append(o)

    def parts_of(S):
        W = S.out(0, 0)
        p = [W, W + ONE, W - ONE] + [S.I[x] for x in ('w', 'a', 'b') if x in S.I]
        if 'b' in S.I and not S.zero(S.b):
            q = S.quot(S.a, S.b)
            p += [q, S.b * q, S.a - S.b * q]
        return p
    return obls + lean(one, parts_of)


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c15', MPRE, size=10)))
