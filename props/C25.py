"""Headers."""
import os
import re
import multiprocessing as mp
from common import *
import llir
import oblig
from oblig import Scratch, compile_ir, CompileError, syntax_ok, gcc_ok, REPO
from runner import first_error, error_where

LEVEL = 'proof'
RULE = ('a program made of each header alone, and of each ordered pair of headers, and a use of what those headers declare is '
        'accepted by the type checker; a program that includes and uses every header defines no symbol with strong external '
        'linkage and leaves none of the library undefined')
ASSUMPTIONS = ['rejection by the type checker of clang is confirmed by g++ before a violation is reported',
               'C++20, which the build configuration of the library asks for']

DIR = os.path.join(REPO, 'include', 'ieme')

# a use of everything a header declares; each is a function template over a dummy so that nothing is emitted twice
USES = {
    'numbers': 'static_assert(ieme::_0<int> == 0 && ieme::_1<long> == 1 && ieme::_2<int> == 2 && ieme::_10<short> == 10 && ieme::number<7, int> == 7);',
    'reduce_mode': 'static_assert(ieme::reduce_mode::normalize_signs != ieme::reduce_mode::ignore_signs);',
    'math_utilities': '''inline int USE(int a) { namespace m = ieme::math_utilities;
  return m::abs(a) + m::pow2(a) + m::pow(a, a) + int(m::abs(1LL * a) + m::pow2(1LL * a) + m::pow(1LL * a, 1LL * a)); }''',
    'raw_fraction': '''inline int USE(int a) { ieme::raw_fraction<int> r(a, a), s; ieme::raw_fraction<long> l(r); s = r;
  return s.numerator + s.denominator + int(l.numerator); }''',
    'raw_fraction_queries': '''inline bool USE(int a) { ieme::raw_fraction<int> r(a, a), s(a, 1);
  return is_defined(r) && is_undefined(r) && is_zero(r) && is_positive(r) && is_negative(r) && is_non_positive(r) && is_non_negative(r)
    && is_proper(r) && is_improper(r) && is_integer(r) && is_unit_fraction(r) && is_reduced(r) && is_reduced_ignore_signs(r)
    && are_identical(r, s) && are_different(r, s); }''',
    'raw_fraction_math': '''inline int USE(int a) { ieme::raw_fraction<int> r(a, a); return reciprocal(r).numerator + normalize_signs(r).numerator
    + reduce(r).numerator + reduce(r, ieme::reduce_mode::ignore_signs).numerator + reduce_normalize_signs(r).numerator
    + reduce_ignore_signs(r).numerator; }''',
    'ops': '''template <class Ops> inline bool USE2(int a) { ieme::raw_fraction<int> const r(a, a); auto u = [](auto const& x) { return x.numerator; };
  return u(Ops::negate(r)) && u(Ops::plus(r, r)) && u(Ops::plus(r, a)) && u(Ops::plus(a, r)) && u(Ops::minus(r, r)) && u(Ops::minus(r, a))
    && u(Ops::minus(a, r)) && u(Ops::multiplies(r, r)) && u(Ops::multiplies(r, a)) && u(Ops::multiplies(a, r)) && u(Ops::divides(r, r))
    && u(Ops::divides(r, a)) && u(Ops::divides(a, r)) && u(Ops::modulus(r, r)) && u(Ops::modulus(r, a)) && u(Ops::modulus(a, r))
    && Ops::equal_to(r, r) && Ops::equal_to(r, a) && Ops::equal_to(a, r) && Ops::not_equal_to(r, r) && Ops::not_equal_to(r, a)
    && Ops::not_equal_to(a, r) && Ops::less(r, r) && Ops::less(r, a) && Ops::less(a, r) && Ops::less_equal(r, r) && Ops::less_equal(r, a)
    && Ops::less_equal(a, r) && Ops::greater(r, r) && Ops::greater(r, a) && Ops::greater(a, r) && Ops::greater_equal(r, r)
    && Ops::greater_equal(r, a) && Ops::greater_equal(a, r); }
inline bool USE(int a) { namespace o = ieme::ops; return USE2<o::safe>(a) && USE2<o::fast>(a) && USE2<o::safe_reduced_i>(a) && USE2<o::safe_reduced_o>(a)
    && USE2<o::safe_reduced_io>(a) && USE2<o::fast_reduced_i>(a) && USE2<o::fast_reduced_o>(a) && USE2<o::fast_reduced_io>(a) && USE2<o::defaults>(a); }''',
    'fraction': '''inline bool USE(int a, std::ostream& o, std::istream& i) { ieme::fraction<int> f(a, a), g; ieme::fraction<long> l(f); f = a; g = f;
  ieme::fraction<int, ieme::ops::safe> s(f); ieme::fraction<int> q(std::ratio<1, 2>{});
  o << f; i >> g; f += g; f -= g; f *= g; f /= g; f %= g; f += a; f -= a; f *= a; f /= a; f %= a;
  return f + g == g - f && f * g != f / g && f % g < -f && +f <= g && f > g && f >= g && f + a == a - f && f * a != a / f && f % a < a
    && a % f <= a && f > a && f >= a && a == f && a != f && a < f && a <= f && a > f && a >= f && f == l && s == s && q == q && l + f == l; }''',
    'fraction_queries': '''inline bool USE(int a) { ieme::fraction<int> r(a, a), s(a, 1);
  return is_defined(r) && is_undefined(r) && is_zero(r) && is_positive(r) && is_negative(r) && is_non_positive(r) && is_non_negative(r)
    && is_proper(r) && is_improper(r) && is_integer(r) && is_unit_fraction(r) && is_reduced(r) && is_reduced_ignore_signs(r)
    && are_identical(r, s) && are_different(r, s); }''',
    'fraction_math': '''inline bool USE(int a) { ieme::fraction<int> const f(a, a); using m = ieme::round_mode;
  return f == reciprocal(f) && f == normalize_signs(f) && f == reduce(f) && f == reduce(f, ieme::reduce_mode::ignore_signs)
    && f == reduce_normalize_signs(f) && f == reduce_ignore_signs(f) && f == abs(f) && to_whole(f) && to_whole(f, m::ceil) && trunc(f)
    && ceil(f) && floor(f) && round(f) && f == redenominate(f, a) && f == redenominate(f, a, m::floor) && f == trunc_redenominate(f, a)
    && f == ceil_redenominate(f, a) && f == floor_redenominate(f, a) && f == round_redenominate(f, a) && f == ieme::pow2<int>(a)
    && f == ieme::pow(a, a); }''',
    'limits': '''inline bool USE() { using F = ieme::fraction<int>; using M = ieme::mixed_number<int>; using A = ieme::limits<F>; using B = ieme::limits<M>;
  using C = std::numeric_limits<F>; using D = std::numeric_limits<M>; auto w = [](M const& m) { return m.whole(); };
  return A::min() == A::max() && A::smallest() == A::undefined() && w(B::min()) && w(B::max()) && w(B::smallest()) && w(B::undefined())
    && C::min() == C::max() && C::lowest() == C::epsilon() && C::quiet_NaN() == C::infinity() && w(D::min()) && w(D::max()) && w(D::lowest())
    && w(D::epsilon()) && w(D::quiet_NaN()) && C::digits == D::digits; }''',
    'hash': '''inline std::size_t USE(int a) { ieme::raw_fraction<int> r(a, a); ieme::fraction<int> f(a, a); ieme::mixed_number<int> m(a);
  return ieme::hash(r) + ieme::hash(f) + ieme::hash(m) + std::hash<ieme::raw_fraction<int>>()(r) + std::hash<ieme::fraction<int>>()(f)
    + std::hash<ieme::mixed_number<int>>()(m) + ieme::hash_combine(1, 2); }''',
    'mixed_number': '''inline bool USE(int a) { ieme::mixed_number<int> m(a), n; ieme::fraction<int> f(a, a); ieme::mixed_number<int> p(f), q(a, f);
  ieme::fraction<int> g = m; n = m + q; n = m + f; n = f + m; n = m + a; n = a + m; n = +m; n = -m;
  ieme::mixed_number<int> s(ieme::fraction<int, ieme::ops::fast>(a, a));
  return n.whole() == a && m.fractional() == f && m.as_fraction() == g && p.whole() == s.whole(); }''',
    'floating_point': '''inline bool USE(float a, double b, std::string_view s) { auto f = ieme::to_fraction<long long>(a); auto g = ieme::to_fraction<long long>(b);
  return to_float(f) == a && to_double(g) == b && to_long_double(f) == b && ieme::floating_point_string_to_fraction<long long>(s) == f; }''',
    'parse_utilities': '''inline bool USE(std::string_view s) { namespace p = ieme::parse_utilities; auto r = p::scan_floating_point_string(s);
  return r && r->base == 10 && r->exponent_sign == p::sign::positive && p::is_valid_digit_sequence(s, 10) && p::digit_sequence_to_int<int>(s, 10); }''',
    'fraction_literals': '''inline bool USE(int a) { using namespace ieme::literals; return 3 / 4_fr == a / -5_fr && 1.25_dec == 3 / +4_fr; }''',
    'chrono': '''inline bool USE() { namespace c = ieme::chrono; using std::chrono::seconds; c::seconds s = c::to_fractional(seconds(3)); c::minutes m = s;
  c::nanoseconds a = s; c::microseconds b = s; c::milliseconds d = s; c::hours h = s; auto t = c::to_fractional(std::chrono::system_clock::now());
  using W = c::clock_wrapper<std::chrono::steady_clock, std::ratio<1>>;
  return m == s && a == b && d == h && t == t && W::now() == W::now() && W::is_steady; }''',
}
USES['ieme'] = '\n'.join(USES[k].replace('USE', 'USE_ieme_' + k) for k in USES)


def headers():
    return sorted(f[:-4] for f in os.listdir(DIR) if f.endswith('.hpp'))


def use(h, tag=''):
    return USES.get(h, '').replace('USE', 'USE_%s%s' % (h, tag))


def inc(h):
    return '#include <ieme/%s.hpp>\n' % h


def jobs(tier):
    hs = headers()
    out = []
    for h in hs:
        out.append(('the header %s.hpp alone' % h, inc(h) + use(h), h, True))
        out.append(('the header %s.hpp twice' % h, inc(h) + use(h) + '\n' + inc(h), h, False))
    for a in hs:
        for b in hs:
            if a != b:
                out.append(('%s.hpp before %s.hpp' % (a, b), inc(a) + inc(b) + use(a) + '\n' + use(b), b, False))
    if tier == 'thorough':
        import itertools
        core = [h for h in hs if h not in ('ieme', 'numbers', 'reduce_mode', 'parse_utilities', 'math_utilities')]
        for t in itertools.permutations(core, 3):
            out.append((' before '.join(x + '.hpp' for x in t), ''.join(map(inc, t)) + '\n'.join(map(use, t)), t[-1], False))
    out.append(('every header, in alphabetical order', ''.join(map(inc, hs)) + '\n'.join(map(use, hs)), 'ieme', True))
    out.append(('every header, in reverse order', ''.join(map(inc, reversed(hs))) + '\n'.join(map(use, hs)), 'ieme', True))
    for lib in ('algorithm', 'cmath', 'chrono', 'complex', 'functional', 'iostream', 'limits', 'numeric', 'string', 'vector', 'ranges', 'thread'):
        out.append(('ieme.hpp before <%s>' % lib, inc('ieme') + '#include <%s>\n' % lib + use('ieme'), 'ieme', False))
        out.append(('ieme.hpp after <%s>' % lib, '#include <%s>\n' % lib + inc('ieme') + use('ieme'), 'ieme', False))
    return out


def work(j):
    desc, src, h, both = j
    with Scratch() as d:
        ok, diag = syntax_ok(src + '\n', d, 'h')
        g = True
        if both or not ok:
            g = gcc_ok(src + '\n', d, 'hg')
    return desc, h, ok, g, diag


LINK = re.compile(r'\b(linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally|common|external|extern_weak)\b')


def linkage(rep):
    hs = headers()
    src = ''.join(map(inc, hs)) + '\n'.join(map(use, hs)) + '\nnamespace tu { void* keep[] = {'
    # take the address of every use so that everything is emitted
    fns = []
    for h in hs:
        fns += re.findall(r'^inline (?:bool|int|std::size_t) (USE_\w+)\(', use(h), re.M)
    src += ', '.join('(void*) &%s' % f for f in fns) + '}; }\n'
    with Scratch() as d:
        try:
            mod = llir.Module(compile_ir(src, d, 'link'))
        except CompileError as e:
            rep.errors.append('the program of every header does not compile: ' + first_error(str(e)))
            return
    dm = mod.demangle_all()
    n = 0
    for nm, f in mod.funcs.items():
        if nm.startswith(('_GLOBAL__', '__cxx_global')):
            continue
        n += 1
        head = f.header.split('@')[0]
        rep.functions.add(nm)
        rep.check(bool(LINK.search(head)), 'the definition of %s may be repeated in other translation units' % dm.get(nm, nm)[:200],
                  mod.func_where(nm), 'defined with strong external linkage', 'linkage')
    for nm, s in mod.globals.items():
        if nm.startswith(('llvm.', '_ZN2tu')):
            continue
        n += 1
        head = s.split('{')[0].split('"')[0]
        ok = bool(LINK.search(head))
        rep.check(ok, 'the definition of %s may be repeated in other translation units' % dm.get(nm, nm)[:200], DIR,
                  'defined with strong external linkage', 'linkage')
    # everything the uses call must be defined by the headers: a function of the library that is only declared does not link
    for nm in mod.decls:
        if '4ieme' not in nm:
            continue
        n += 1
        rep.check(False, '%s is defined by the headers' % dm.get(nm, nm)[:200], DIR, 'declared and used but never defined: does not link',
                  'linkage')
    rep.check(True, 'every function of the library that the uses reach is defined by the headers')


def run(rep, tier):
    js = jobs(tier)
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(work, js, chunksize=1)
    for desc, h, ok, g, diag in res:
        rep.units += 1
        if ok and g:
            rep.check(True, desc)
        elif not g:
            rep.check(False, desc + ' compile and are usable', error_where(diag) or os.path.join(DIR, h + '.hpp'),
                      first_error(diag) if not ok else 'rejected by g++', 'inclusion')
        else:
            rep.undecide(desc, 'rejected by clang only: ' + first_error(diag))
    linkage(rep)
