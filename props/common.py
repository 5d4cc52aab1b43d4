"""Shared vocabulary of the drivers."""
import copy
import re
from oblig import Obl, REPS, rng
from runner import Unit, run_units
from dom import C, V, ONE, ZERO
import dom

PRELUDE = '''
#include <ieme/ieme.hpp>
#include <type_traits>
#include <utility>
namespace fr = ieme;
namespace op = ieme::ops;
using rm = ieme::reduce_mode;
template <class R> struct pairof { R n, d; };
template <class P, class F> inline void put(P* o, F const& f) { o->n = f.numerator(); o->d = f.denominator(); }
template <class P, class F> inline void putr(P* o, F const& f) { o->n = f.numerator; o->d = f.denominator; }
'''

POL = {
    'safe': 'op::safe', 'fast': 'op::fast',
    'safe_i': 'op::safe_reduced_i', 'safe_o': 'op::safe_reduced_o', 'safe_io': 'op::safe_reduced_io',
    'fast_i': 'op::fast_reduced_i', 'fast_o': 'op::fast_reduced_o', 'fast_io': 'op::fast_reduced_io',
    'default': 'op::defaults',
}
POL_EXTRA = {
    'safe_in': 'op::reduced_input<op::safe, rm::normalize_signs>',
    'fast_in': 'op::reduced_input<op::fast, rm::normalize_signs>',
    'safe_oi': 'op::reduced_output<op::safe, rm::ignore_signs>',
    'fast_oi': 'op::reduced_output<op::fast, rm::ignore_signs>',
    'safe_ion': 'op::reduced_input<op::reduced_output<op::safe, rm::ignore_signs>, rm::normalize_signs>',
    'fast_oio': 'op::reduced_output<op::reduced_input<op::reduced_output<op::fast>>>',
}


def compositions(depth):
    """every stack of that many reducing layers over the two base policies: name -> (type, layers outermost first)"""
    out = {'safe': ('op::safe', ()), 'fast': ('op::fast', ())}
    for _ in range(depth):
        nxt = {}
        for pn, (P, layers) in out.items():
            for side in ('input', 'output'):
                for m, mode in (('n', 'normalize_signs'), ('g', 'ignore_signs')):
                    nxt['%s_%s%s' % (pn, side[0], m)] = ('op::reduced_%s<%s, rm::%s>' % (side, P, mode),
                                                         ((side, mode),) + layers)
        out = nxt
    return out


def all_policies(tier):
    p = dict(POL)
    p.update(POL_EXTRA)
    if tier == 'thorough':
        p.update({pn: P for pn, (P, _) in compositions(2).items()})
    return p


ARITH = {'plus': '+', 'minus': '-', 'times': '*', 'div': '/', 'mod': '%'}
CMP = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}


def policies(tier):
    p = dict(POL)
    if tier == 'thorough':
        p.update(POL_EXTRA)
    return p


def ct(rep):
    return REPS[rep][0]


def kw(rep):
    t, b, u = REPS[rep]
    return dict(width=b, unsigned=u)


# ---- operand shapes: (parameters, C++ operands, (a, b, c, d) as polynomials) --
def shape(sh, R, P):
    F = 'fr::fraction<%s, %s>' % (R, P)
    if sh == 'ff':
        return ['a', 'b', 'c', 'd'], F + '(a, b)', F + '(c, d)'
    if sh == 'fr':
        return ['a', 'b', 'c'], F + '(a, b)', 'c'
    if sh == 'rf':
        return ['a', 'c', 'd'], 'a', F + '(c, d)'
    raise KeyError(sh)


def operands(S, sh):
    a = S.a
    b = S.b if 'b' in S.I else ONE
    c = S.c
    d = S.d if 'd' in S.I else ONE
    return a, b, c, d


def defined_pre(sh, extra=None):
    def pre(S):
        a, b, c, d = operands(S, sh)
        if S.zero(b) or S.zero(d):
            return False
        return extra(S, a, b, c, d) if extra else True
    return pre


def exact(S, opn, a, b, c, d):
    """the exact value of a/b op c/d as a quotient of polynomials"""
    if opn == 'plus':
        return a * d + c * b, b * d
    if opn == 'minus':
        return a * d - c * b, b * d
    if opn == 'times':
        return a * c, b * d
    if opn == 'div':
        return a * d, b * c
    if opn == 'mod':
        return a * d - c * b * S.quot(a * d, c * b), b * d
    raise KeyError(opn)


def value_is(S, n, d, rn, rd):
    """n/d is defined and equals rn/rd"""
    if S.zero(d):
        return 'undefined result'
    return True if S.eq(n * rd, d * rn) else 'wrong value'


def chunk(obls, name, prelude=PRELUDE, size=40, flags=()):
    out = []
    for i in range(0, len(obls), size):
        out.append(Unit('%s-%d' % (name, i // size), prelude, obls[i:i + size], flags))
    return out


def wrap(fn, outs, params, body):
    """driver function; outs: list of C++ types of leading out pointers"""
    ps = ['%s* o%d' % (t, i) for i, t in enumerate(outs)] + ['%s %s' % p for p in params]
    return 'extern "C" void %s(%s) { %s }' % (fn, ', '.join(ps), body)


# ---- obligation families ---------------------------------------------------
def mk(fn, rep, ps, body, spec, pre, desc, outs=None, **k):
    R = ct(rep)
    outs = ['pairof<%s>' % R] if outs is None else outs
    kk = dict(kw(rep))
    kk.update(k)
    o = Obl(fn, wrap(fn, outs, [(R, p) for p in ps], body), [(p, rep) for p in ps], spec, pre,
            outs=len(outs), desc=desc, **kk)
    o.sz = REPS[rep][1] // 8
    return o


def arith_obls(pid, rep, pn, P, specf, pref, shapes=('ff', 'fr', 'rf'), assign=('ff', 'fr'), ops=None, **k):
    R = ct(rep)
    out = []
    for on, sym in ARITH.items():
        if ops and on not in ops:
            continue
        for sh in shapes:
            ps, l, r = shape(sh, R, P)
            out.append(mk('%s_%s_%s_%s_%s' % (pid, rep, pn, on, sh), rep, ps, 'put(o0, (%s) %s (%s));' % (l, sym, r),
                          specf(on, sh), pref(on, sh), '%s on fraction<%s,%s>:%s' % (sym, R, pn, sh), **k))
        for sh in assign:
            ps, l, r = shape(sh, R, P)
            out.append(mk('%s_%s_%s_%s_%s_as' % (pid, rep, pn, on, sh), rep, ps,
                          'auto x = %s; x %s= %s; put(o0, x);' % (l, sym, r),
                          specf(on, sh), pref(on, sh), '%s= on fraction<%s,%s>:%s' % (sym, R, pn, sh), **k))
    return out


def unary_obls(pid, rep, pn, P, specf, pref, **k):
    R = ct(rep)
    out = []
    for un, sym, f in (('neg', '-', -1), ('pos', '+', 1)):
        if f < 0 and REPS[rep][2]:
            continue
        out.append(mk('%s_%s_%s_%s' % (pid, rep, pn, un), rep, ['a', 'b'],
                      'put(o0, %sfr::fraction<%s, %s>(a, b));' % (sym, R, P), specf(f), pref,
                      'unary %s on fraction<%s,%s>' % (sym, R, pn), **k))
    return out


def cmp_obls(pid, rep, pn, P, specf, pref, shapes=('ff', 'fr', 'rf'), **k):
    R = ct(rep)
    out = []
    for cn, sym in CMP.items():
        for sh in shapes:
            ps, l, r = shape(sh, R, P)
            out.append(mk('%s_%s_%s_%s_%s' % (pid, rep, pn, cn, sh), rep, ps, '*o0 = (%s) %s (%s);' % (l, sym, r),
                          specf(cn, sh), pref(cn, sh), '%s on fraction<%s,%s>:%s' % (sym, R, pn, sh),
                          outs=['bool'], **k))
    return out


def compare(S, cn, x, sg=ONE):
    """truth of `x*sg cn 0` for a polynomial x"""
    p = x * sg
    if cn == 'eq':
        return S.zero(p)
    if cn == 'ne':
        return not S.zero(p)
    if cn == 'lt':
        return S.neg(p)
    if cn == 'gt':
        return S.pos(p)
    if cn == 'le':
        return not S.pos(p)
    return not S.neg(p)


def same(S, got, want, what='wrong result'):
    return True if got == want else what


def query_obls(pid, rep, kinds, queries, outs=None, params=('a', 'b'), unary_pre=None):
    """one obligation per boolean query, over fractions and raw fractions"""
    R = ct(rep)
    out = []
    for q, truth in queries.items():
        for kind, ty in kinds.items():
            out.append(mk('%s_%s_%s_%s' % (pid, rep, kind, q), rep, ['a', 'b'], '*o0 = fr::%s(%s(a, b));' % (q, ty),
                          lambda S, truth=truth: same(S, S.true(S.out(0, 0)), truth(S, S.a, S.b), 'wrong answer'),
                          unary_pre, '%s on %s' % (q, ty), outs=['bool']))
    return out


def kinds_for(rep, tier):
    R = ct(rep)
    k = {'raw': 'fr::raw_fraction<%s>' % R, 'safe': 'fr::fraction<%s, op::safe>' % R,
         'default': 'fr::fraction<%s>' % R}
    if tier == 'thorough':
        for pn, P in POL.items():
            k[pn] = 'fr::fraction<%s, %s>' % (R, P)
    return k


MAIN = ('i16', 'i32', 'i64', 'u16', 'u32', 'u64')
WIDE = ('i8', 'i16', 'i32', 'i64', 'l64', 'u8', 'u16', 'u32', 'u64')


def rep_policies(tier):
    """(number type, policy name, policy): in the quick tier the less common types with three policies only"""
    for rep in WIDE:
        for pn, P in all_policies(tier).items():
            if tier == 'thorough' or rep in MAIN or pn in ('safe', 'fast', 'default'):
                yield rep, pn, P


def reps_for(tier, quick=MAIN, thorough=WIDE):
    return quick if tier == 'quick' else thorough


# ---- bounds on intermediate results ------------------------------------------
def bounded(S, p, qs):
    if p.is_const() and abs(p.const()) <= 2:
        return True
    for q in qs:
        if p == q or p == -q:
            return True
    for q in qs:
        r = dom.poly_ratio(q, p)
        if r is not None and r.t and dom.integral(S.ctx, r):
            return True
    sp = S.ctx.signs(p)
    for q in qs:
        for y in (q, -q):
            if -1 not in S.ctx.signs(y) and all(-1 not in S.ctx.signs(y - x) for x, s in ((p, 1), (-p, -1)) if s in sp):
                return True
    return False


def in_range(S, p, qs):
    """p is representable when every q in qs is: the lowest number has no opposite"""
    if p.is_const() and abs(p.const()) <= 2:
        return True
    if not S.pos(p):
        return bounded(S, p, qs)
    for q in qs:
        if p == q:
            return True
        sq = S.ctx.signs(q)
        if -1 not in sq and -1 not in S.ctx.signs(q - p):
            return True
        if 1 not in sq and S.ctx.signs(-q - p) == {1}:
            return True
    return False


def strict_spec(allowed, bits, unsigned):
    """every arithmetic result is representable when all of allowed(S) are, the lowest number included"""
    lo, hi = (0, (1 << bits) - 1) if unsigned else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)

    def spec(S):
        qs = [S.n(q) for q in allowed(S)]
        ops = [(S.n(p), w) for _, w, p, _ in S.st.log]
        if S.is_point():
            if any(not lo <= q.const() <= hi for q in qs):
                return True
            for p, w in ops:
                if w == bits and not lo <= p.const() <= hi:
                    return 'an intermediate result overflows although every allowed term is representable'
            return True
        for p, w in ops:
            if w <= bits and not in_range(S, p, qs):
                return 'intermediate %s is not bounded by an allowed term' % dom.show(p)
        return True
    return spec


def lean_spec(allowed, bits, unsigned):
    """every arithmetic result is bounded by one of allowed(S)"""
    hi = (1 << bits) - 1 if unsigned else (1 << (bits - 1)) - 1

    def spec(S):
        qs = [S.n(q) for q in allowed(S)]
        ops = [(S.n(p), w) for _, w, p, _ in S.st.log]
        if S.is_point():
            if any(abs(q.const()) > hi or unsigned and q.const() < 0 for q in qs):
                return True
            for p, w in ops:
                if w == bits and abs(p.const()) > hi:
                    return 'an intermediate result overflows although every allowed term is representable'
            return True
        for p, w in ops:
            if w <= bits and not bounded(S, p, qs):
                return 'intermediate %s is not bounded by an allowed term' % dom.show(p)
        return True
    return spec


BIG32 = [0, 1, -1, (1 << 31) - 2, 1 << 30, 3, 2, 3, 46341, 65536, 65535, 98304, 131072, 1 << 30, 3 << 29, (1 << 31) - 1, -(1 << 30), -65536,
         1 << 20, 1 << 24, 40000, 6, 1000000007, 715827882, 2 * 715827882]
BIG64 = [0, 1, -1, (1 << 63) - 2, 2, 3, 1 << 32, 3037000500, (1 << 32) - 1, 3 << 32, 1 << 62, 3 << 61, (1 << 63) - 1, -(1 << 62),
         -(1 << 32), 1 << 40, 1 << 48, 6, 3074457345618258602, 2 * 3074457345618258602]
BIG16 = [0, 1, -1, (1 << 15) - 2, 2, 3, 181, 182, 256, 255, 384, 512, 1 << 14, 3 << 13, (1 << 15) - 1, -(1 << 14), -256, 10007, 6,
         10922, 21844]


def lean(obls, allowed, strict=False):
    """the same computations again, asking that no intermediate result leaves the allowed bounds"""
    out = []
    for o in obls:
        n = copy.copy(o)
        n.fn = o.fn + '_lean'
        n.code = o.code.replace(o.fn + '(', n.fn + '(')
        bits, u = o.width, o.unsigned
        c = {16: BIG16, 32: BIG32, 64: BIG64}.get(bits)
        if c is None:
            continue
        if u:
            c = [v for v in c if v >= 0] + [(1 << bits) - 1, 1 << bits - 1]
        if strict and not u:
            c = c + [-(1 << (bits - 1)), 1 - (1 << (bits - 1))]
        n.cand = {k: c for k, _ in o.ins}
        n.spec = (strict_spec if strict else lean_spec)(allowed, bits, u)
        n.log, n.fits = 'strict' if strict else True, False
        n.desc = o.desc + ' (size of intermediate results)'
        out.append(n)
    return out


REDUCES_INPUT = {'safe_i', 'safe_io', 'fast_i', 'fast_io', 'default', 'safe_in', 'fast_in', 'safe_ion', 'fast_oio'}


def budget(S, on, sh, pn):
    a, b, c, d = operands(S, sh)
    base = [a, b, c, d]
    if pn in REDUCES_INPUT:
        if sh in ('ff', 'fr'):
            g = S.gcd(a, b)
            a, b = S.quot(a, g), S.quot(b, g)
        if sh in ('ff', 'rf'):
            g = S.gcd(c, d)
            c, d = S.quot(c, g), S.quot(d, g)
        base += [a, b, c, d]
    safe = pn.startswith('safe') or pn == 'default'
    if on == 'times':
        return base + [a * c, b * d]
    if on == 'div':
        return base + [a * d, b * c]
    if sh == 'ff' and safe:
        L = S.lcm(b, d)
        x, y = S.quot(L, b) * a, S.quot(L, d) * c
    else:
        L, x, y = b * d, a * d, b * c
    out = base + [x, y]
    if on in ('plus', 'minus', 'mod'):
        out.append(L)
    elif sh == 'ff' and safe:
        out.append(L)
    if on == 'plus':
        out.append(x + y)
    if on == 'minus':
        out.append(x - y)
    return out


def policy_lean(on, sh, pn, bits, unsigned):
    return lean_spec(lambda S: budget(S, on, sh, pn), bits, unsigned)


def lean_options(rep):
    t, bits, u = REPS[rep]
    cand = BIG32 if bits == 32 else BIG64
    return bits, u, dict(log=True, cand={k: [v for v in cand if v >= 0 or not u] for k in 'abcd'}, fits=False)


def lean_arith(pid, rep, pn, P):
    bits, u, k = lean_options(rep)

    def pre(on, sh):
        if on in ('div', 'mod'):
            return defined_pre(sh, lambda S, a, b, c, d: not S.zero(c))
        return defined_pre(sh)
    return arith_obls(pid + 'l', rep, pn, P, lambda on, sh: policy_lean(on, sh, pn, bits, u), pre, **k)


def lean_cmp(pid, rep, pn, P):
    bits, u, k = lean_options(rep)
    return cmp_obls(pid + 'l', rep, pn, P, lambda on, sh: policy_lean(on, sh, pn, bits, u),
                    lambda on, sh: defined_pre(sh), **k)


# ---- operands of different number types --------------------------------------
RANK = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']


def common(l, r):
    lt, lb, lu = REPS[l]
    rt, rb, ru = REPS[r]
    if l == r:
        return l
    lb, lu = (lb, lu) if lb >= 32 else (32, False)
    rb, ru = (rb, ru) if rb >= 32 else (32, False)
    b = max(lb, rb)
    u = (lu and lb == b) or (ru and rb == b)
    return ('u' if u else 'i') + str(b)


def cand_for(rep, other):
    lo, hi = rng(rep)
    lo2, hi2 = rng(other)
    vs = [1, 2, 3, -1, 5, 0]
    for x in (hi2, hi2 + 1, hi2 + 2, hi2 + 3, lo2 - 1, (1 << 32), (1 << 32) + 1, 1 << 31, 40000, 70000, hi // 3):
        if lo <= x <= hi and x not in vs:
            vs.append(x)
    return [v for v in vs if lo <= v <= hi]


def pairs(tier):
    p = [('i32', 'i32'), ('i64', 'i64'), ('i16', 'i64'), ('i64', 'i16'), ('i32', 'i64'), ('i64', 'i32'), ('i8', 'i32'), ('i32', 'i8'),
         ('u32', 'i64'), ('i64', 'u32'), ('i16', 'u8'), ('u8', 'i16'), ('i32', 'u64')]
    if tier == 'thorough':
        p += [('u64', 'i32'), ('u16', 'i32'), ('i32', 'u16'), ('u32', 'u64'), ('u64', 'u32'), ('i8', 'i16'),
              ('i16', 'i8'), ('u8', 'u64'), ('i8', 'i64'), ('i64', 'i8'), ('u16', 'u8'), ('i16', 'i32'),
              ('i32', 'i16')]
    return p


def nonneg_needed(l, r, cm):
    return REPS[cm][2] and not (REPS[l][2] and REPS[r][2])


MIXED = {'ff': (['a', 'b', 'c', 'd'], 'fr::fraction<{L}, {P}>(a, b)', 'fr::fraction<{R}, {P}>(c, d)'),
         'fr': (['a', 'b', 'c'], 'fr::fraction<{L}, {P}>(a, b)', 'c'),
         'rf': (['a', 'c', 'd'], 'a', 'fr::fraction<{R}, {P}>(c, d)')}


def mixed_obls(pid, l, r, pn, P, specf, pref, ops=(), cmps=(), assign=(), **k):
    """operators on operands whose number types differ; specf and pref as for one number type"""
    cm = common(l, r)
    L, R, K = ct(l), ct(r), ct(cm)
    nn = nonneg_needed(l, r, cm)
    cand = {'a': cand_for(l, r), 'b': cand_for(l, r), 'c': cand_for(r, l), 'd': cand_for(r, l)}
    out = []

    def one(on, sh, tag, outs, body, tys, width, unsigned, desc):
        inner = pref(on, sh) or (lambda S: True)

        def pre(S):
            if nn and not all(S.nonneg(x) for x in operands(S, sh) if not x.is_const()):
                return False
            return inner(S)
        ps = MIXED[sh][0]
        fn = '%s_%s_%s_%s_%s_%s%s' % (pid, l, r, pn, on, sh, tag)
        kk = dict(cand={p: cand[p] for p in ps}, width=width, unsigned=unsigned)
        kk.update(k)
        o = Obl(fn, wrap(fn, outs, [(L if p in tys[0] else R, p) for p in ps], body),
                [(p, l if p in tys[0] else tys[1]) for p in ps], specf(on, sh), pre, outs=len(outs), desc=desc, **kk)
        o.sz = (REPS[l][1] if tag else REPS[cm][1]) // 8
        out.append(o)
    fm = dict(L=L, R=R, P=P)
    for sh in MIXED:
        ls, rs = MIXED[sh][1].format(**fm), MIXED[sh][2].format(**fm)
        left = 'a' if sh == 'rf' else 'ab'
        for on in ops:
            if not (nn and on == 'minus'):
                one(on, sh, '', ['pairof<%s>' % K], 'put(o0, (%s) %s (%s));' % (ls, ARITH[on], rs), (left, r),
                    REPS[cm][1], REPS[cm][2], '%s on fraction<%s,%s> and %s:%s' % (ARITH[on], L, pn, R, sh))
        for cn in cmps:
            one(cn, sh, '', ['bool'], '*o0 = (%s) %s (%s);' % (ls, CMP[cn], rs), (left, r),
                REPS[cm][1], REPS[cm][2], '%s on fraction<%s,%s> and %s:%s' % (CMP[cn], L, pn, R, sh))
        lo, hi = max(rng(l)[0], rng(r)[0]), min(rng(l)[1], rng(r)[1])
        for on in assign:
            if sh != 'rf' and not (nn and on == 'minus') and REPS[l][1] >= 16:
                one(on, sh, '_as', ['pairof<%s>' % L], 'auto x = %s; x %s= (%s); put(o0, x);' % (ls, ARITH[on], rs),
                    (left, (lo, hi)), REPS[l][1], REPS[l][2],
                    '%s= on fraction<%s,%s> and %s:%s' % (ARITH[on], L, pn, R, sh))
    return out


def lean_mixed(pid, l, r, pn, P, **what):
    """the size of intermediate results, over the common type"""
    cm = common(l, r)
    bits, u, _ = lean_options(cm)
    cand = {}
    for ps, t in (('ab', l), ('cd', r)):
        lo, hi = rng(t)
        base = (BIG32 if bits == 32 else BIG64) + BIG16 + [hi, hi - 1, hi // 3, hi // 3 * 2]
        for x in ps:
            cand[x] = list(dict.fromkeys(v for v in base if lo <= v <= hi))

    def pre(on, sh):
        if on in ('div', 'mod'):
            return defined_pre(sh, lambda S, a, b, c, d: not S.zero(c))
        return defined_pre(sh)
    return mixed_obls(pid, l, r, pn, P, lambda on, sh: policy_lean(on, sh, pn, bits, u), pre,
                      log=True, cand=cand, fits=False, **what)


def every_pair(tier):
    """all ordered pairs of distinct number types; the flag says whether to cover them in full"""
    full = pairs(tier)
    return [(l, r, (l, r) in full) for l in RANK + ['l64'] for r in RANK + ['l64'] if l != r]
