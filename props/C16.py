"""Arithmetic on mixed numbers and their conversion to fractions."""
from common import *
from C15 import MPRE, mixed_spec, mm

LEVEL = 'proof'
RULE = ('for every disjunct, with operands in canonical form: the result has the exact value of the sum (negation, '
        'conversion), mixed results are again in canonical form, and an undefined operand gives an undefined result')
ASSUMPTIONS = ['every intermediate result is representable in the number type']


def canonical(S, w, a, b):
    if S.zero(b):
        return True
    if not S.lt(S.abs(a), S.abs(b)):
        return False
    return S.zero(a) or S.zero(w) or S.pos(w) == S.pos(a * b)


def pre1(S):
    return canonical(S, S.w, S.a, S.b)


def pre2(S):
    return canonical(S, S.w, S.a, S.b) and canonical(S, S.v, S.c, S.d)


def frac_spec(want, sz):
    def spec(S):
        n, d = S.out(0, 0), S.out(0, sz)
        rn, rd = want(S)
        if S.zero(rd):
            return True if S.zero(d) else 'an undefined value becomes defined'
        return value_is(S, n, d, rn, rd)
    return spec


def build(tier):
    obls = []
    pols = {k: POL[k] for k in ('safe', 'default')} if tier == 'quick' else \
        {k: POL[k] for k in ('safe', 'fast', 'default', 'safe_i', 'fast_o')}
    prs = [('i32', 'i32'), ('i64', 'i32'), ('i32', 'i64'), ('u32', 'u32')]
    if tier == 'thorough':
        prs += [('i64', 'i64'), ('i16', 'i32'), ('u64', 'u64')]

    def one(S):
        return S.w * S.b + S.a, S.b
    for wr, frp in prs:
        W, F = ct(wr), ct(frp)
        u = REPS[wr][2]
        wd = min(REPS[wr][1], REPS[frp][1])
        ws, fs = REPS[wr][1] // 8, REPS[frp][1] // 8
        big, bs = (W, ws) if ws >= fs else (F, fs)
        out = 'mix<%s, %s>' % (W, F)
        m1 = [('w', wr), ('a', frp), ('b', frp)]
        for pn, P in pols.items():
            M = 'fr::mixed_number<%s, %s, %s>' % (W, F, P)
            FT = 'fr::fraction<%s, %s>' % (F, P)
            t = '%s_%s_%s' % (wr, frp, pn)
            kw = dict(width=max(16, wd), unsigned=u)
            x = '%s(w, %s(a, b))' % (M, FT)
            y = '%s(v, %s(c, d))' % (M, FT)
            nm = 'mixed_number<%s,%s,%s>' % (W, F, pn)
            so = (out,)
            po = ('pairof<%s>' % big,)
            sp = frac_spec(one, bs)
            obls.append(mm('c16_%s_asf' % t, m1, 'put(o0, %s.as_fraction());' % x, sp, 'as_fraction of ' + nm,
                           pre=pre1, outs=po, **kw))
            obls.append(mm('c16_%s_conv' % t, m1, 'fr::fraction<%s, %s> f = %s; put(o0, f);' % (big, P, x), sp,
                           'conversion to a fraction of ' + nm, pre=pre1, outs=po, **kw))
            obls.append(mm('c16_%s_rt' % t, m1, 'fr::mixed_number<%s, %s, %s> m(%s.as_fraction()); putm(o0, m);'
                           % (big, big, P, x), mixed_spec(one, bs, bs), 'fraction round trip of ' + nm, pre=pre1,
                           outs=('mix<%s, %s>' % (big, big),), **kw))
            obls.append(mm('c16_%s_pos' % t, m1, 'putm(o0, +%s);' % x, mixed_spec(one, ws, fs), 'unary + of ' + nm,
                           pre=pre1, outs=so, **kw))
            if not u:
                obls.append(mm('c16_%s_neg' % t, m1, 'putm(o0, -%s);' % x,
                               mixed_spec(lambda S: (-(S.w * S.b + S.a), S.b), ws, fs), 'unary - of ' + nm,
                               pre=pre1, outs=so, **kw))
            obls.append(mm('c16_%s_mm' % t, m1 + [('v', wr), ('c', frp), ('d', frp)], 'putm(o0, %s + %s);' % (x, y),
                           mixed_spec(lambda S: ((S.w + S.v) * S.b * S.d + S.a * S.d + S.c * S.b, S.b * S.d), ws, fs),
                           nm + ' + mixed_number', pre=pre2, outs=so, **kw))
            cf = dict(pre=pre1, **kw)
            wmf = lambda S: (S.w * S.b * S.d + S.a * S.d + S.c * S.b, S.b * S.d)
            rw, rws = (big, bs)
            mo = ('mix<%s, %s>' % (rw, F),)
            cd = [('c', frp), ('d', frp)]
            obls.append(mm('c16_%s_mf' % t, m1 + cd, 'putm(o0, %s + %s(c, d));' % (x, FT), mixed_spec(wmf, rws, fs),
                           nm + ' + fraction', outs=mo, **cf))
            obls.append(mm('c16_%s_fm' % t, m1 + cd, 'putm(o0, %s(c, d) + %s);' % (FT, x), mixed_spec(wmf, rws, fs),
                           'fraction + ' + nm, outs=mo, **cf))
            for vr in sorted({wr, 'i64' if not u else 'u64'}):
                V_ = ct(vr)
                vs = REPS[vr][1] // 8
                rw, rws = (W, ws) if ws >= vs else (V_, vs)
                mo = ('mix<%s, %s>' % (rw, F),)
                wmi = lambda S: ((S.w + S.v) * S.b + S.a, S.b)
                if REPS[vr][1] > wd:
                    # the sum of the whole parts exists only in the wider type
                    k2 = dict(kw, width=REPS[vr][1])
                    for side, e in (('mi', '%s + v' % x), ('im', 'v + %s' % x)):
                        o = mm('c16_%s_%s_%s_wide' % (t, side, vr), m1 + [('v', vr)], 'putm(o0, %s);' % e,
                               mixed_spec(wmi, rws, fs), '%s with %s %s' % (V_, nm, side), outs=mo, pre=pre1, **k2)
                        lo, hi = rng(frp)
                        o.ins = [(p, (max(lo, -hi), hi)) if p in 'ab' else (p, t_) for p, t_ in o.ins]
                        o.cand = {'v': [1 << 32, 5000000000, -(1 << 32) if not u else 1 << 33, 0, 1, 7], 'w': [0, 1, 3, -2], 'a': [0, 1, -1, 2],
                                  'b': [1, 2, 3, -3]}
                        if u:
                            o.cand = {k_: [x_ for x_ in c_ if x_ >= 0] for k_, c_ in o.cand.items()}
                        obls.append(o)
                obls.append(mm('c16_%s_mi_%s' % (t, vr), m1 + [('v', vr)], 'putm(o0, %s + v);' % x,
                               mixed_spec(wmi, rws, fs), nm + ' + ' + V_, outs=mo, **cf))
                obls.append(mm('c16_%s_im_%s' % (t, vr), m1 + [('v', vr)], 'putm(o0, v + %s);' % x,
                               mixed_spec(wmi, rws, fs), V_ + ' + ' + nm, outs=mo, **cf))
    # operands whose number types differ: everything is computed in the common types
    het = [('i32', 'i32', 'i64', 'i64'), ('i64', 'i64', 'i32', 'i32'), ('i32', 'i64', 'i64', 'i32'), ('i64', 'i32', 'i32', 'i64')]
    for w1, f1, w2, f2 in het:
        for pn in ('safe', 'default') if tier == 'quick' else pols:
            P = POL[pn]
            t = '%s_%s_%s_%s_%s' % (w1, f1, w2, f2, pn)
            M1 = 'fr::mixed_number<%s, %s, %s>(w, fr::fraction<%s, %s>(a, b))' % (ct(w1), ct(f1), P, ct(f1), P)
            FR = 'fr::fraction<%s, %s>(c, d)' % (ct(f2), P)
            M2 = 'fr::mixed_number<%s, %s, %s>(v, %s)' % (ct(w2), ct(f2), P, FR)
            small = [0, 1, -1, 2, 3, -3]
            big = [1 << 32, 5000000000, -(1 << 33)]
            at = 'mixed_number<%s,%s,%s>' % (ct(w1), ct(f1), pn)

            def rg(r, symm):
                lo, hi = rng(r)
                return (max(lo, -hi), hi) if symm else r

            def add(fn, e, ps, spec, desc, pre, ro):
                o = mm(fn, [(p, r) for p, r in ps], 'putm(o0, %s);' % e, spec, desc, outs=('mix<%s, %s>' % tuple(map(ct, ro)),),
                       pre=pre, width=64)
                o.ins = [(p, rg(r, p in 'abcd')) for p, r in ps]
                o.cand = {p: (small + big if REPS[r][1] == 64 else small) for p, r in ps}
                obls.append(o)
            p1 = [('w', w1), ('a', f1), ('b', f1)]
            p2 = [('v', w2), ('c', f2), ('d', f2)]
            cw, cf_ = max(w1, w2), max(f1, f2)
            add('c16_het_mm_' + t, '%s + %s' % (M1, M2), p1 + p2,
                mixed_spec(lambda S: ((S.w + S.v) * S.b * S.d + S.a * S.d + S.c * S.b, S.b * S.d), REPS[cw][1] // 8,
                           REPS[cf_][1] // 8), '%s + mixed_number<%s,%s>' % (at, ct(w2), ct(f2)), pre2, (cw, cf_))
            # one operand without a fraction: the other must come through unharmed
            for side, e in (('r', '%s + fr::mixed_number<%s, %s, %s>(v, fr::fraction<%s, %s>(0, 1))'
                             % (M1, ct(w2), ct(f2), P, ct(f2), P)),
                            ('l', 'fr::mixed_number<%s, %s, %s>(v, fr::fraction<%s, %s>(0, 1)) + %s'
                             % (ct(w2), ct(f2), P, ct(f2), P, M1))):
                add('c16_het_m%s_%s' % (side, t), e, p1 + p2[:1],
                    mixed_spec(lambda S: ((S.w + S.v) * S.b + S.a, S.b), REPS[cw][1] // 8, REPS[cf_][1] // 8),
                    '%s with whole mixed_number<%s,%s> %s' % (at, ct(w2), ct(f2), side), pre1, (cw, cf_))
            if f2 != 'i64':
                continue        # the parts of the fraction are taken apart in its own narrower type
            ww = max(w1, f2)
            wmf = lambda S: (S.w * S.b * S.d + S.a * S.d + S.c * S.b, S.b * S.d)
            for side, e in (('mf', '%s + %s' % (M1, FR)), ('fm', '%s + %s' % (FR, M1))):
                add('c16_het_%s_%s' % (side, t), e, p1 + p2[1:], mixed_spec(wmf, REPS[ww][1] // 8, REPS[cf_][1] // 8),
                    '%s with fraction<%s> %s' % (at, ct(f2), side), pre1, (ww, cf_))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c16', MPRE, size=4)))
