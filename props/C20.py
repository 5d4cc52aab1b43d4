"""Hashing."""
from common import *

LEVEL = 'proof'
RULE = ('two equal defined fractions are k1*p / k1*q and k2*p / k2*q; for every disjunct the two hashes are the same '
        'term; the standard hash is the same term as the library hash; hashing an undefined value reaches no trap')
ASSUMPTIONS = ['the terms of the fractions and of their reduced forms are representable in the number type']


def same_hash(S):
    x, y = S.out(0, 0), S.out(1, 0)
    return True if S.n(x) == S.n(y) or S.eq(x, y) else 'equal values hash differently'


def depends(*names):
    """the hash is a term in which each of these inputs occurs"""
    def spec(S):
        why = []
        for x in names:
            (atom,) = S.I[x].atoms() if not S.I[x].is_const() else (None,)
            p = S.n(S.out(0, 0))
            if atom is not None and not any(b == atom or atom in dom.A.deps[b] for b in p.atoms()):
                why.append(x)
        if S.is_point():
            return 'part of the value is ignored'       # only asked after the term without it has been seen
        return 'part of the value is ignored: ' + ', '.join(why) if why else True
    return spec


SMALL = [1, 2, 3, -1, -2, 5, 0, 7, -3]


def build(tier):
    obls = []
    reps = WIDE
    pols = ('safe', 'fast', 'default') if tier == 'quick' else tuple(POL)
    H = ['size_t', 'size_t']
    for rep in reps:
        R = ct(rep)
        cand = dict(p=SMALL, q=SMALL, k=SMALL, l=SMALL, w=[0, 1, -1, 3])
        cand = {x: [v for v in vs if v >= rng(rep)[0]] for x, vs in cand.items()}
        for pn in pols:
            F = 'fr::fraction<%s, %s>' % (R, POL[pn])
            M = 'fr::mixed_number<%s, %s, %s>' % (R, R, POL[pn])

            def nz(S):
                return not (S.zero(S.q) or S.zero(S.k) or S.zero(S.l))

            def nzw(S):
                return nz(S) and S.lt(S.abs(S.p), S.abs(S.q)) and \
                    (S.zero(S.w) or S.zero(S.p) or S.pos(S.w) == S.pos(S.p * S.q))
            mul = '%s const ka = k * p, kb = k * q, la = l * p, lb = l * q; ' % R
            if REPS[rep][1] < 32:
                mul = 'using R = %s; R const ka = R(k * p), kb = R(k * q), la = R(l * p), lb = R(l * q); ' % R
            for hn, h in (('lib', 'fr::hash(%s)'), ('std', 'std::hash<std::decay_t<decltype(%s)>>()(%s)')):
                def call(e, h=h):
                    return h % ((e,) * h.count('%s'))
                obls.append(mk('c20_%s_%s_%s_f' % (rep, pn, hn), rep, ['p', 'q', 'k', 'l'],
                               mul + '*o0 = %s; *o1 = %s;' % (call(F + '(ka, kb)'), call(F + '(la, lb)')), same_hash, nz,
                               '%s hash of kp/kq and lp/lq, fraction<%s,%s>' % (hn, R, pn), outs=H, cand=cand))
                obls.append(mk('c20_%s_%s_%s_m' % (rep, pn, hn), rep, ['w', 'p', 'q', 'k', 'l'],
                               mul + '*o0 = %s; *o1 = %s;' % (call('%s(w, %s(ka, kb))' % (M, F)),
                                                              call('%s(w, %s(la, lb))' % (M, F))), same_hash, nzw,
                               '%s hash of w + kp/kq and w + lp/lq, mixed_number<%s,%s>' % (hn, R, pn), outs=H, cand=cand))
                for t, v in (('f', F + '(a, b)'), ('m', '%s(%s(a, b))' % (M, F)), ('r', 'fr::raw_fraction<%s>(a, b)' % R)):
                    obls.append(mk('c20_%s_%s_%s_%s_u' % (rep, pn, hn, t), rep, ['a', 'b'], '*o0 = %s;' % call(v),
                                   lambda S: True, lambda S: S.zero(S.b),
                                   '%s hash of an undefined value, %s' % (hn, v), outs=['size_t']))
            # terms that are reduced already, so that reduction does not bring in the other term
            for t, v, ns in (('fn', F + '(a, 1)', 'a'), ('fd', F + '(1, b)', 'b'), ('mn', '%s(w, %s(0, 1))' % (M, F), 'w'),
                             ('md', '%s(w, %s(1, b))' % (M, F), 'wb'), ('r', 'fr::raw_fraction<%s>(a, b)' % R, 'ab')):
                obls.append(mk('c20_%s_%s_%s_dep' % (rep, pn, t), rep, list(ns), '*o0 = fr::hash(%s);' % v, depends(*ns),
                               lambda S, ns=ns: all(S.pos(S.I[x]) and not S.zero(S.I[x] - ONE) for x in ns),
                               'hash of %s depends on %s' % (v, ' and '.join(ns)), outs=['size_t']))
            wide = 'unsigned long long' if REPS[rep][2] else 'long long'
            het = [('h%d' % i, 'fr::mixed_number<%s, %s, %s>(w, fr::fraction<%s, %s>(a, b))' % (x, y, POL[pn], y, POL[pn]))
                   for i, (x, y) in enumerate(((R, wide), (wide, R)))] if REPS[rep][1] == 32 else []
            for t, v in [('f', F + '(a, b)'), ('m', '%s(w, %s(a, b))' % (M, F)), ('r', 'fr::raw_fraction<%s>(a, b)' % R)] + het:
                obls.append(mk('c20_%s_%s_%s_ls' % (rep, pn, t), rep, ['w', 'a', 'b'],
                               'auto const v = %s; *o0 = fr::hash(v); *o1 = std::hash<std::decay_t<decltype(v)>>()(v);' % v,
                               same_hash, None, 'library and standard hash of ' + v, outs=H))
    # equal fractions of two number types
    for l, r in (('i32', 'i64'), ('i16', 'i32'), ('i64', 'l64'), ('u32', 'u64')):
        L, R = ct(l), ct(r)
        cand = {x: [v for v in SMALL if v >= rng(l)[0]] for x in 'pqkl'}
        for pn in ('safe', 'default'):
            obls.append(mk('c20_%s_%s_%s_x' % (l, r, pn), l, ['p', 'q', 'k', 'l'],
                           'using L = %s; using R = %s; L const ka = L(k * p), kb = L(k * q); R const la = R(R(l) * R(p)), lb = R(R(l) * R(q)); '
                           '*o0 = fr::hash(fr::fraction<L, %s>(ka, kb)); *o1 = fr::hash(fr::fraction<R, %s>(la, lb));' % (L, R, POL[pn], POL[pn]),
                           same_hash, lambda S: not (S.zero(S.q) or S.zero(S.k) or S.zero(S.l)),
                           'hash of kp/kq over %s and lp/lq over %s, policy %s' % (L, R, pn), outs=H, cand=cand))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c20', size=20)))
