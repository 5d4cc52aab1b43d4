"""Purity."""
import os
import multiprocessing as mp
from common import *
import effects
import llir
from oblig import Scratch, compile_ir, CompileError

LEVEL = 'proof'
RULE = ('no function on any path of the call graph below an operation refers to a mutable or thread-local global, throws, '
        'allocates, synchronises, calls through a pointer, or calls an external function known to share state; every '
        'operation is a noexcept expression and, where it is declared constexpr, a constant expression')
ASSUMPTIONS = ['the C library functions memcpy, memmove, memset, memcmp, abs and floor are pure',
               'calls from the standard library headers to their own throwing helpers (string_view::substr) are not counted '
               'against an operation: whether they are reached is decided where the operation itself is (C01 to C23)']

EPRE = PRELUDE + '''
template <class F, class G, class R, class M> struct env { F f; G g; R r; M m; };
'''

# name -> (expression over f, g (fractions), r (number), m (mixed number), constexpr?, noexcept?)
BIN = {}
for _n, _s in list(ARITH.items()) + list(CMP.items()):
    BIN[_n + '_ff'] = 'f %s g' % _s
    BIN[_n + '_fr'] = 'f %s r' % _s
    BIN[_n + '_rf'] = 'r %s g' % _s
for _n, _s in ARITH.items():
    BIN[_n + '_as_f'] = 'f %s= g' % _s
    BIN[_n + '_as_r'] = 'f %s= r' % _s
QUERIES = ('is_defined', 'is_undefined', 'is_zero', 'is_positive', 'is_negative', 'is_non_negative', 'is_non_positive', 'is_proper',
           'is_improper', 'is_integer', 'is_unit_fraction', 'is_reduced', 'is_reduced_ignore_signs')
UNARY = ('reciprocal', 'normalize_signs', 'reduce', 'reduce_normalize_signs', 'reduce_ignore_signs', 'abs', 'to_whole', 'trunc', 'ceil',
         'floor', 'round')


def expressions(rep, P):
    R = ct(rep)
    e = dict(BIN)
    for q in QUERIES:
        e[q] = 'fr::%s(f)' % q
        e[q + '_raw'] = 'fr::%s(f.raw())' % q
    e['identical'] = 'fr::are_identical(f, g)'
    e['different'] = 'fr::are_different(f, g)'
    for u in UNARY:
        e[u] = 'fr::%s(f)' % u
    for u in UNARY[:5]:
        e[u + '_raw'] = 'fr::%s(f.raw())' % u
    for m in ('trunc', 'ceil', 'floor', 'round'):
        e['to_whole_' + m] = 'fr::to_whole(f, fr::round_mode::%s)' % m
        e['redenominate_' + m] = 'fr::redenominate(f, r, fr::round_mode::%s)' % m
        e[m + '_redenominate'] = 'fr::%s_redenominate(f, r)' % m
    for m in ('normalize_signs', 'ignore_signs'):
        e['reduce_mode_' + m] = 'fr::reduce(f, rm::%s)' % m
    e['positive'] = '+f'
    e['negative'] = '-f'
    e['default'] = 'F()'
    e['construct1'] = 'F(r)'
    e['construct2'] = 'F(r, r)'
    e['construct_raw'] = 'F(f.raw())'
    e['construct_ratio'] = 'F(std::ratio<3, 4>())'
    e['convert_rep'] = 'fr::fraction<long, %s>(f)' % P
    e['convert_ops'] = 'fr::fraction<%s, op::fast>(f)' % R
    e['convert_ops2'] = 'fr::fraction<short, op::safe_reduced_o>(f)'
    e['accessors'] = 'f.numerator() = f.denominator() = f.num() = f.den() = g.num()'
    e['raw'] = 'f.raw() = g.raw()'
    if rep in ('i32', 'i64', 'l64'):
        e['pow2'] = 'fr::pow2<%s, %s>(-3)' % (R, P)
        e['pow'] = 'fr::pow<%s, %s>(r, -3)' % (R, P)
    e['m_default'] = 'M()'
    e['m_construct'] = 'M(r, f)'
    e['m_whole'] = 'M(r)'
    e['m_fraction'] = 'M(f)'
    e['m_fraction_ops'] = 'M(fr::fraction<%s, op::fast_reduced_i>(f))' % R
    e['m_as_fraction'] = 'm.as_fraction()'
    e['m_convert'] = 'static_cast<F>(m)'
    e['m_parts'] = 'm.whole() == m.fractional().num()'
    e['m_positive'] = '+m'
    if rep[0] != 'u':
        e['m_negative'] = '-m'
    e['m_plus_mm'] = 'm + m'
    e['m_plus_mf'] = 'm + f'
    e['m_plus_fm'] = 'f + m'
    e['m_plus_mr'] = 'm + r'
    e['m_plus_rm'] = 'r + m'
    e['to_float'] = 'fr::to_float(f)'
    e['to_double'] = 'fr::to_double(f)'
    e['to_long_double'] = 'fr::to_long_double(f)'
    for k in ('min', 'max', 'smallest', 'undefined'):
        e['limits_' + k] = 'fr::limits<F>::%s()' % k
        e['m_limits_' + k] = 'fr::limits<M>::%s()' % k
    for k in ('min', 'max', 'lowest', 'epsilon', 'quiet_NaN'):
        e['std_limits_' + k] = 'std::numeric_limits<F>::%s()' % k
        e['m_std_limits_' + k] = 'std::numeric_limits<M>::%s()' % k
    e['hash_combine'] = 'fr::hash_combine(1u, 2u)'
    run = {'hash': 'fr::hash(f)', 'hash_raw': 'fr::hash(f.raw())', 'hash_mixed': 'fr::hash(m)', 'std_hash': 'std::hash<F>()(f)',
           'std_hash_raw': 'std::hash<fr::raw_fraction<%s>>()(f.raw())' % R, 'std_hash_mixed': 'std::hash<M>()(m)'}
    if rep in ('i32', 'i64', 'l64'):
        run['from_float'] = 'fr::to_fraction<%s, %s>(1.5f)' % (R, P)
    if rep in ('i64', 'l64'):
        run['from_double'] = 'fr::to_fraction<%s, %s>(1.5)' % (R, P)
    return e, run


def types(rep, P):
    R = ct(rep)
    return 'using R = %s; using F = fr::fraction<%s, %s>; using M = fr::mixed_number<%s, %s, %s>;' % (R, R, P, R, R, P)


def work(a):
    rep, pn, P = a
    c, r = expressions(rep, P)
    code, names = [], []
    T = types(rep, P)
    for n, x in {**c, **r}.items():
        fn = 'e_%s' % n
        names.append((fn, x))
        R, F = ct(rep), 'fr::fraction<%s, %s>' % (ct(rep), P)
        M = 'fr::mixed_number<%s, %s, %s>' % (R, R, P)
        code.append('extern "C" void %s(%s& f, %s& g, %s& r, %s& m) { %s (void) (%s); }' % (fn, F, F, R, M, T, x))
    try:
        with Scratch() as d:
            mod = llir.Module(compile_ir(EPRE + '\n'.join(code) + '\n', d, 'fx'))
    except CompileError as e:
        return rep, pn, str(e), [], []
    fx = effects.analyse(mod)
    out, seen = [], set()
    for fn, x in names:
        pred = effects.reach(fx, fn)
        seen.update(pred)
        bad = unk = None
        for g in pred:
            for k, t, w in fx[g].effects:
                bad = bad or ('%s %s' % (k, t), mod.where(w) if w else '', effects.path(mod, pred, g))
            for k, t, w in fx[g].unknown:
                if k != 'throws':
                    unk = unk or '%s %s' % (k, t)
        out.append((fn, x, bad, unk, len(pred)))
    dm = mod.demangle_all()
    return rep, pn, None, out, sorted({dm.get(g, g) for g in seen if g.startswith(effects.OWN)})


def asserts(tier):
    out = []
    for rep in WIDE:
        for pn, P in (policies('quick') if tier == 'quick' else policies('thorough')).items():
            c, r = expressions(rep, P)
            for n, x in c.items():
                body = '[] { %s F f(R(3), R(4)), g(R(5), R(6)); R r = 2; M m(r, f); (void) (%s); return true; }()' % (types(rep, P), x)
                if rep[0] == 'u' and n in UNSIGNED_SKIP:
                    continue
                out.append(('%d' % len(out), body, 'constant expression %s, %s' % (x, pn + ' ' + ct(rep))))
            for n, x in {**c, **r}.items():
                body = '[] { %s F f, g; R r = 2; M m; return noexcept(%s); }()' % (types(rep, P), x)
                out.append(('%d' % len(out), body, 'noexcept %s, %s' % (x, pn + ' ' + ct(rep))))
    # declarations may depend on the number type: the other types under one policy (all of them in the thorough tier)
    for rep in ('i8', 'u8', 'i16', 'u16', 'u64', 'l64'):
        for pn, P in ({'default': POL['default'], 'fast': POL['fast']} if tier == 'quick' else policies('thorough')).items():
            c, r = expressions(rep, P)
            for n, x in {**c, **r}.items():
                body = '[] { %s F f, g; R r = 2; M m; return noexcept(%s); }()' % (types(rep, P), x)
                out.append(('%d' % len(out), body, 'noexcept %s, %s' % (x, pn + ' ' + ct(rep))))
    # operands of two number types
    for pn, P in (policies('quick') if tier == 'quick' else policies('thorough')).items():
        for a, b in (('int', 'long long'), ('short', 'int'), ('long long', 'short')):
            t = ('using R = %s; using F = fr::fraction<%s, %s>; using G = fr::fraction<%s, %s>; using M = fr::mixed_number<%s, %s, %s>; '
                 'using N = fr::mixed_number<%s, %s, %s>;' % (b, a, P, b, P, a, a, P, b, a, P))
            e = dict(BIN)
            if a == 'long long':
                e = {k: x for k, x in e.items() if '_as_' in k}
            e.update(h_convert='G(f)', h_convert2='F(g)', h_identical='G(f) == g')
            e.update(h_mm='m + n', h_nm='n + m', h_mg='m + g', h_gm='g + m', h_nf='n + f', h_mr='m + r', h_rm='r + m',
                     h_whole='N(r, f)', h_from='N(f)', h_from2='N(G(f))', h_as='n.as_fraction()', h_neg='-n')
            for n, x in e.items():
                body = '[] { %s F f(1, 2); G g(1, 3); R r = 2; M m(1, f); N n(r, f); (void) (%s); return true; }()' % (t, x)
                out.append(('%d' % len(out), body, 'constant expression %s for %s and %s, %s' % (x, a, b, pn)))
                body = '[] { %s F f; G g; R r = 2; M m; N n; return noexcept(%s); }()' % (t, x)
                out.append(('%d' % len(out), body, 'noexcept %s for %s and %s, %s' % (x, a, b, pn)))
    return out


UNSIGNED_SKIP = ('negative',)


def configs(tier):
    reps = WIDE
    return [(r, pn, P) for r in reps for pn, P in policies(tier).items()]


def run(rep, tier):
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(work, configs(tier), chunksize=1)
    for r, pn, err, out, nf in res:
        rep.units += 1
        rep.functions |= set(nf)
        if err:
            from runner import first_error
            rep.errors.append('the drivers for %s %s do not compile: %s' % (r, pn, first_error(err)))
            continue
        for fn, x, bad, unk, n in out:
            desc = '%s for %s, policy %s (%d functions below it)' % (x, ct(r), pn, n)
            if bad:
                rep.check(False, desc, bad[1], bad[0], 'effect', bad[2])
            elif unk:
                rep.undecide(desc, unk)
            else:
                rep.check(True, desc)
    from runner import static_asserts
    static_asserts(rep, EPRE, asserts(tier))
