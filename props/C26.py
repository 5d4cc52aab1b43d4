"""Default policy."""
import multiprocessing as mp
from common import *
import llir
from oblig import Scratch, compile_ir, CompileError
from runner import static_asserts_many, first_error

LEVEL = 'proof'
RULE = ('in each configuration the policy that every template, literal and alias of the library uses when none is given is the '
        'named one, by type identity; the code of the named policies themselves is the same in every configuration')
ASSUMPTIONS = ['at most one configuration macro is defined and it is defined before the first header of the library',
               'what each named policy does is decided by C01 to C07']

NAMES = ('safe', 'safe_reduced_i', 'safe_reduced_o', 'safe_reduced_io', 'fast', 'fast_reduced_i', 'fast_reduced_o', 'fast_reduced_io')
CPRE = '''
#include <ieme/%s.hpp>
#include <type_traits>
#include <utility>
namespace fr = ieme; namespace op = ieme::ops;
#include <ieme/ieme.hpp>
using namespace ieme::literals;
namespace ic = ieme::chrono;
template <class A, class B> constexpr bool same = std::is_same_v<A, B>;
template <class T> using T_ = std::remove_cv_t<std::remove_reference_t<T>>;
using EXPECTED = op::%s;
'''

DEFAULTED = [
    ('ops::defaults', 'op::defaults'),
    ('fraction<int>', 'typename fr::fraction<int>::ops_type'),
    ('fraction<long long>', 'typename fr::fraction<long long>::ops_type'),
    ('mixed_number<int>', 'typename fr::mixed_number<int>::ops_type'),
    ('mixed_number<int, long>', 'typename fr::mixed_number<int, long>::ops_type'),
    ('the fractional part of mixed_number<int>', 'typename fr::mixed_number<int>::fractional_type::ops_type'),
    ('denominator_literal<true>', 'typename fr::denominator_literal<true>::ops_type'),
    ('denominator_literal<false>', 'typename fr::denominator_literal<false>::ops_type'),
    ('4_fr', 'typename decltype(4_fr)::ops_type'),
    ('-4_fr', 'typename decltype(-4_fr)::ops_type'),
    ('3/4_fr', 'typename decltype(3 / 4_fr)::ops_type'),
    ('3/-4_fr', 'typename decltype(3 / -4_fr)::ops_type'),
    ('fraction<int>()/4_fr', 'typename decltype(fr::fraction<int>() / 4_fr)::ops_type'),
    ('1.5_dec', 'typename decltype(1.5_dec)::ops_type'),
    ('to_fraction<long>(float)', 'typename decltype(fr::to_fraction<long>(1.f))::ops_type'),
    ('to_fraction<long>(double)', 'typename decltype(fr::to_fraction<long>(1.))::ops_type'),
    ('floating_point_string_to_fraction<long>', 'typename decltype(fr::floating_point_string_to_fraction<long>("1"))::ops_type'),
    ('pow2<int>', 'typename decltype(fr::pow2<int>(1))::ops_type'),
    ('pow<int>', 'typename decltype(fr::pow<int>(1, 1))::ops_type'),
    ('chrono::duration', 'typename ic::duration<int, std::ratio<1>>::rep::ops_type'),
    ('chrono::duration_like', 'typename ic::duration_like<std::chrono::seconds>::rep::ops_type'),
    ('chrono::time_point', 'typename ic::time_point<std::chrono::system_clock, int, std::ratio<1>>::duration::rep::ops_type'),
    ('chrono::time_point_like', 'typename ic::time_point_like<std::chrono::system_clock::time_point>::duration::rep::ops_type'),
    ('chrono::clock_wrapper', 'typename ic::clock_wrapper<std::chrono::system_clock>::ops_type'),
    ('to_fractional(duration)', 'typename decltype(ic::to_fractional(std::chrono::seconds(1)))::rep::ops_type'),
    ('to_fractional(time_point)', 'typename decltype(ic::to_fractional(std::chrono::system_clock::time_point()))::duration::rep::ops_type'),
] + [('chrono::' + u, 'typename ic::%s::rep::ops_type' % u) for u in ('nanoseconds', 'microseconds', 'milliseconds', 'seconds', 'minutes', 'hours')]


def asserts(cfg):
    out = [('%d' % i, 'same<T_<%s>, EXPECTED>' % t, 'the policy of %s with %s' % (n, cfg)) for i, (n, t) in enumerate(DEFAULTED)]
    for i, a in enumerate(NAMES):
        out.append(('d' + a, ' && '.join('!same<op::%s, op::%s>' % (a, b) for b in NAMES if b != a), '%s is a policy of its own with %s' % (a, cfg)))
    return out


def explicit(tier):
    """drivers of every policy by name: their code may not depend on the configuration"""
    code = []
    for n in NAMES:
        F = 'fr::fraction<long long, op::%s>' % n
        b = []
        for on, sym in list(ARITH.items()) + list(CMP.items()):
            b.append('extern "C" auto x_%s_%s(%s const& f, %s const& g) { return f %s g; }' % (n, on, F, F, sym))
            b.append('extern "C" auto x_%s_%s_r(%s const& f, long long g) { return f %s g; }' % (n, on, F, sym))
            b.append('extern "C" auto x_%s_%s_l(long long g, %s const& f) { return g %s f; }' % (n, on, F, sym))
        b.append('extern "C" auto x_%s_neg(%s const& f) { return -f; }' % (n, F))
        b.append('extern "C" auto x_%s_abs(%s const& f) { return abs(f); }' % (n, F))
        b.append('extern "C" auto x_%s_red(%s const& f) { return reduce(f); }' % (n, F))
        b.append('extern "C" auto x_%s_round(%s const& f) { return round(f); }' % (n, F))
        b.append('extern "C" auto x_%s_mix(%s const& f) { return fr::mixed_number<long long, long long, op::%s>(f) + f; }' % (n, F, n))
        b.append('extern "C" double x_%s_dbl(%s const& f) { return fr::to_double(f); }' % (n, F))
        b.append('extern "C" auto x_%s_fd(double f) { return fr::to_fraction<long long, op::%s>(f); }' % (n, n))
        b.append('extern "C" auto x_%s_fs(std::string_view f) { return fr::floating_point_string_to_fraction<long long, op::%s>(f); }' % (n, n))
        b.append('extern "C" auto x_%s_hash(%s const& f) { return fr::hash(f); }' % (n, F))
        b.append('extern "C" void x_%s_out(%s const& f, std::ostream& s) { s << f; }' % (n, F))
        b.append('extern "C" void x_%s_in(%s& f, std::istream& s) { s >> f; }' % (n, F))
        code += b
    return PRELUDE + '\n'.join(code) + '\n'


def ir(a):
    name, flags, src = a
    try:
        with Scratch() as d:
            mod = llir.Module(compile_ir(src, d, 'x', flags))
    except CompileError as e:
        return name, None, first_error(str(e))
    body = {}
    for nm, f in mod.funcs.items():
        body[nm] = (f.header.split(' !dbg')[0].split(' #')[0],
                    tuple(re.sub(r' #\d+', '', re.sub(r', ![\w.]+ !\d+', '', l)) for l in f.lines if 'llvm.dbg' not in l))
    return name, body, {nm: mod.func_where(nm) for nm in mod.funcs}


def configs():
    return [('no macro', (), 'safe_reduced_io')] + [('IEME_DEFAULT_OPS_' + n.upper(), ('-DIEME_DEFAULT_OPS_' + n.upper(),), n) for n in NAMES]


def run(rep, tier):
    firsts = ('ieme', 'fraction_literals', 'fraction') if tier == 'quick' else ('ieme', 'fraction_literals', 'fraction', 'ops', 'chrono', 'limits',
                                                                               'mixed_number', 'floating_point', 'hash')
    jobs = []
    for cfg, flags, want in configs():
        for h in firsts:
            jobs.append((CPRE % (h, want), asserts(cfg + (', %s.hpp included first' % h if h != 'ieme' else '')), flags))
        if flags:
            pre = '#define %s\n' % flags[0][2:] + CPRE % ('ieme', want)
            jobs.append((pre, asserts(cfg + ' defined in the source')))
    static_asserts_many(rep, jobs)
    src = explicit(tier)
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(ir, [(cfg, flags, src) for cfg, flags, _ in configs()], chunksize=1)
    base = res[0]
    for name, body, wh in res:
        rep.units += 1
        if body is None:
            rep.errors.append('the drivers do not compile with %s: %s' % (name, wh))
            continue
        if name == base[0] or base[1] is None:
            rep.functions |= set(body)
            continue
        for nm, b in body.items():
            ok = base[1].get(nm) == b
            if ok:
                rep.check(True, '%s is the same with %s' % (nm, name))
            else:
                rep.undecide('%s is the same with %s' % (nm, name), 'its code differs from that without a macro')
