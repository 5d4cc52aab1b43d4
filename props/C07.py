"""Mixed number types, compound assignment and aliasing."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the result over the common type equals the exact value (arithmetic) or the sign '
        'condition (comparison), no operand passing through a narrower type; compound assignment stores the value '
        'of the operation into its left operand and returns a reference to it, also when both operands alias')
ASSUMPTIONS = ['every intermediate result is representable in the common number type',
               'operands are defined, divisors are not zero, and with mixed signedness the operands are not negative',
               'the right operand of a compound assignment is representable in the number type of the left one']

def build(tier):
    obls = []
    pols = {'safe': POL['safe'], 'fast': POL['fast'], 'default': POL['default']}
    if tier == 'thorough':
        pols.update({k: POL[k] for k in ('safe_i', 'fast_o', 'fast_io')})
    full = pairs(tier)
    every = [(l, r) for l, r, f in every_pair(tier) if not f]
    for l, r in full + every:
        cm = common(l, r)
        brief = (l, r) in every
        L, R, K = ct(l), ct(r), ct(cm)
        nn = nonneg_needed(l, r, cm)
        kw = dict(width=REPS[cm][1], unsigned=REPS[cm][2])
        sz = REPS[cm][1] // 8

        def pre_for(on, sh):
            def pre(S):
                a, b, c, d = operands(S, sh)
                if S.zero(b) or S.zero(d):
                    return False
                if nn and not all(S.nonneg(x) for x in (a, b, c, d) if not x.is_const()):
                    return False
                return not (on in ('div', 'mod') and S.zero(c))
            return pre

        def mkm(fn, sh, body, outs, spec, desc, on, rr=None, size=sz):
            ps = MIXED[sh][0]
            tys = {'a': l, 'b': l, 'c': r, 'd': r}
            if rr is not None:
                tys['c'] = tys['d'] = rr
            o = Obl(fn, wrap(fn, outs, [(ct({'a': l, 'b': l, 'c': r, 'd': r}[p]), p) for p in ps], body),
                    [(p, tys[p]) for p in ps], spec, pre_for(on, sh), outs=len(outs), desc=desc,
                    cand=dict([(p, cand_for(l, r)) for p in 'ab'] + [(p, cand_for(r, l)) for p in 'cd']), **kw)
            o.sz = size
            return o
        for pn, P in pols.items():
            if brief and pn != 'fast':
                continue
            fm = dict(L=L, R=R, P=P)
            for sh in MIXED:
                ls, rs = MIXED[sh][1].format(**fm), MIXED[sh][2].format(**fm)
                for on, sym in ARITH.items():
                    if brief and on not in ('plus', 'minus', 'div'):
                        continue

                    def spec(S, on=on, sh=sh):
                        return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, *operands(S, sh)))
                    if nn and on == 'minus':
                        continue
                    obls.append(mkm('c07_%s_%s_%s_%s_%s' % (l, r, pn, on, sh), sh, 'put(o0, (%s) %s (%s));' % (ls, sym, rs),
                                    ['pairof<%s>' % K], spec,
                                    '%s on fraction<%s,%s> and %s:%s' % (sym, L, pn, R, sh), on))
                for cn, sym in CMP.items():
                    if brief and cn not in ('eq', 'lt'):
                        continue

                    def spec(S, cn=cn, sh=sh):
                        a, b, c, d = operands(S, sh)
                        return same(S, S.true(S.out(0, 0)), compare(S, cn, a * d - c * b, b * d), 'wrong truth value')
                    obls.append(mkm('c07_%s_%s_%s_%s_%s' % (l, r, pn, cn, sh), sh, '*o0 = (%s) %s (%s);' % (ls, sym, rs),
                                    ['bool'], spec, '%s on fraction<%s,%s> and %s:%s' % (sym, L, pn, R, sh), cn))
            # compound assignment: the right operand within the range of the left type
            lo, hi = max(rng(l)[0], rng(r)[0]), min(rng(l)[1], rng(r)[1])
            for sh in ('ff', 'fr'):
                ls, rs = MIXED[sh][1].format(**fm), MIXED[sh][2].format(**fm)
                for on, sym in ARITH.items():
                    if (nn and on == 'minus') or (brief and on not in ('plus', 'div')):
                        continue

                    def spec(S, on=on, sh=sh):
                        if not S.true(S.out(1, 0)):
                            return 'does not return a reference to the left operand'
                        return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, *operands(S, sh)))
                    o = mkm('c07_%s_%s_%s_%s_%s_as' % (l, r, pn, on, sh), sh,
                            'auto x = %s; auto&& y = (x %s= (%s)); *o1 = (&y == &x); put(o0, x);' % (ls, sym, rs),
                            ['pairof<%s>' % L, 'bool'], spec,
                            '%s= on fraction<%s,%s> and %s:%s' % (sym, L, pn, R, sh), on, rr=(lo, hi),
                            size=REPS[l][1] // 8)
                    o.width, o.unsigned = (16 if REPS[l][1] < 32 else REPS[l][1]), REPS[l][2]
                    if REPS[l][1] >= 16:
                        obls.append(o)
    # aliasing
    for l in reps_for(tier, ('i32', 'i64'), ('i16', 'i32', 'i64', 'u32', 'u64')):
        T = ct(l)
        for pn, P in policies(tier).items():
            F = 'fr::fraction<%s, %s>' % (T, P)
            for on, sym in ARITH.items():
                def spec(S, on=on):
                    if not S.true(S.out(1, 0)):
                        return 'does not return a reference to the left operand'
                    return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, S.a, S.b, S.a, S.b))

                def spec_n(S, on=on):
                    if not S.true(S.out(1, 0)):
                        return 'does not return a reference to the left operand'
                    return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, S.a, S.b, S.a, ONE))

                def spec_d(S, on=on):
                    if not S.true(S.out(1, 0)):
                        return 'does not return a reference to the left operand'
                    return value_is(S, S.out(0, 0), S.out(0, S.sz), *exact(S, on, S.a, S.b, S.b, ONE))

                def pre(S, on=on):
                    return not S.zero(S.b) and not (on in ('div', 'mod') and S.zero(S.a))
                for tag, e, sp in (('self', 'x', spec), ('num', 'x.numerator()', spec_n), ('den', 'x.denominator()', spec_d)):
                    obls.append(mk('c07_%s_%s_%s_%s' % (l, pn, on, tag), l, ['a', 'b'],
                                   '%s x(a, b); auto&& y = (x %s= %s); *o1 = (&y == &x); put(o0, x);' % (F, sym, e),
                                   sp, pre, 'x %s= %s on fraction<%s,%s>' % (sym, e, T, pn),
                                   outs=['pairof<%s>' % T, 'bool']))
    return obls


def types(tier):
    out = []
    n = 0
    ts = ['signed char', 'short', 'int', 'long long', 'unsigned char', 'unsigned', 'unsigned long long']
    for l in ts:
        for r in ts:
            for pn, P in (('safe', POL['safe']), ('default', POL['default']), ('fast_o', POL['fast_o'])):
                K = 'fr::fraction<std::common_type_t<%s, %s>, %s>' % (l, r, P)
                FL, FR = 'fr::fraction<%s, %s>' % (l, P), 'fr::fraction<%s, %s>' % (r, P)
                for sym in ARITH.values():
                    for a, b in ((FL, FR), (FL, r), (l, FR)):
                        out.append(('t%d' % n, 'std::is_same_v<%s, decltype(std::declval<%s const&>() %s std::declval<%s const&>())>'
                                    % (K, a, sym, b), 'type of %s %s %s' % (a, sym, b)))
                        n += 1
                    for b in (FR, r):
                        out.append(('t%d' % n, 'std::is_same_v<%s&, decltype(std::declval<%s&>() %s= std::declval<%s const&>())>'
                                    % (FL, FL, sym, b), 'type of %s %s= %s' % (FL, sym, b)))
                        n += 1
                for sym in CMP.values():
                    for a, b in ((FL, FR), (FL, r), (l, FR)):
                        out.append(('t%d' % n, 'std::is_same_v<bool, decltype(std::declval<%s const&>() %s std::declval<%s const&>())>'
                                    % (a, sym, b), 'type of %s %s %s' % (a, sym, b)))
                        n += 1
    return out


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c07', size=60)))
    from runner import static_asserts
    static_asserts(rep, PRELUDE, types(tier))
