"""Time."""
from common import *

LEVEL = 'proof'
RULE = ('for every disjunct the count of the converted duration, times its period, equals the given count times the '
        'given period; types, periods and steadiness are compared by the type checker')
ASSUMPTIONS = ['the counts and their products with the ratio of the periods are representable in the number type']

CPRE = PRELUDE + '''
#include <chrono>
namespace ic = ieme::chrono;
extern "C" long long ticks() noexcept;
template <class Rep, class Per, bool Steady> struct clk {
  using rep = Rep; using period = Per; using duration = std::chrono::duration<Rep, Per>;
  using time_point = std::chrono::time_point<clk>; static constexpr bool is_steady = Steady;
  static time_point now() noexcept { return time_point(duration(static_cast<Rep>(ticks()))); } };
'''

UNITS = {'ns': ('nanoseconds', 1, 10 ** 9), 'us': ('microseconds', 1, 10 ** 6), 'ms': ('milliseconds', 1, 1000),
         's': ('seconds', 1, 1), 'min': ('minutes', 60, 1), 'h': ('hours', 3600, 1)}
ODD = {'third': ('std::ratio<1, 3>', 1, 3), 'day': ('std::ratio<86400>', 86400, 1), 'r57': ('std::ratio<5, 7>', 5, 7)}


def h_ticks(I, st, vals, x):
    return [(st, dom.A.var('t', *TICK[0]))]


TICK = [(-(1 << 63), (1 << 63) - 1)]


def ob(fn, ps, outs, body, spec, desc, rep='i64', pre=None, ticks=None):
    R = ct(rep)
    o = Obl(fn, wrap(fn, outs, [(ct(r), p) for p, r in ps], body), ps, spec, pre, outs=len(outs), desc=desc, **kw(rep))
    o.sz = REPS[rep][1] // 8
    o.cand = {p: [1, 2, 3, 5, 7, -1, -2, 59, 60, 61, 1000, 999, 3600, 86400, 10 ** 6, 10 ** 9 + 1, 10 ** 12] for p, _ in ps}
    if ticks:
        def h(I, st, vals, x):
            return [(st, dom.A.var('t', *rng(ticks)))]
        o.handlers = {'ticks': h}

        def setup(ob_, st):
            from interp import Mem, Ptr
            args = []
            for i in range(len(outs)):
                st.mem[('out', i)] = Mem({})
                args.append(Ptr(('out', i), 0))
            return {'t': dom.A.var('t', *rng(ticks))}, args
        o.setup = setup
    return o


def eqv(S, n, d, rn, rd):
    return value_is(S, n, d, rn, rd)


def build(tier):
    obls = []
    pols = ('default', 'safe', 'fast') if tier == 'quick' else tuple(POL)
    reps = ('i64', 'i32') if tier == 'quick' else ('i64', 'i32', 'l64', 'u32', 'u64')
    for rep in reps:
        R = ct(rep)
        pr = 'pairof<%s>' % R
        for pn in pols:
            P = POL[pn]
            units = dict(UNITS)
            pers = {u: ('std::chrono::%s::period' % nm, a, b) for u, (nm, a, b) in units.items()}
            pers.update(ODD)
            for u, (per, un, ud) in pers.items():
                D = 'std::chrono::duration<%s, %s>' % (R, per)
                FD = 'ic::duration<%s, %s, %s>' % (R, per, P)
                t = '%s_%s_%s' % (rep, pn, u)

                def keep(S):
                    n, d = S.out(0, 0), S.out(0, S.sz)
                    return True if S.eq(n, S.t) and S.eq(d, ONE) else 'the tick count changes'
                obls.append(ob('c23_%s_d' % t, [('t', rep)], [pr],
                               ('auto const x = ic::to_fractional(%s(t)); put(o0, x.count());' % D) if pn == 'default' else
                               'ic::duration_like<%s, %s> const x{%s(t)}; put(o0, x.count());' % (D, P, D), keep,
                               'to_fractional of a duration<%s,%s>, policy %s' % (R, u, pn), rep))
                TP = 'std::chrono::time_point<std::chrono::system_clock, %s>' % D
                obls.append(ob('c23_%s_p' % t, [('t', rep)], [pr],
                               ('auto const x = ic::to_fractional(%s(%s(t))); put(o0, x.time_since_epoch().count());' % (TP, D)) if pn == 'default' else
                               'ic::time_point_like<%s, %s> const x{%s(%s(t))}; put(o0, x.time_since_epoch().count());' % (TP, P, TP, D), keep, 'to_fractional of a time_point<%s,%s>, policy %s' % (R, u, pn), rep))
                # wrapper of a clock: same instant in the chosen period
                C_ = 'clk<%s, %s, true>' % (R, per)
                for w, (wper, wn, wd) in (('own', ('typename %s::period' % C_, un, ud)), ('s', ('std::ratio<1>', 1, 1)),
                                          ('min', ('std::ratio<60>', 60, 1)), ('ms', ('std::milli', 1, 1000))):
                    def inst(S, un=un, ud=ud, wn=wn, wd=wd):
                        n, d = S.out(0, 0), S.out(0, S.sz)
                        return eqv(S, n.scale(wn), d.scale(wd), S.t.scale(un), C(ud))
                    if REPS[rep][1] == 32 and w != 'own':
                        continue
                    obls.append(ob('c23_%s_c%s' % (t, w), [], [pr],
                                   'auto const x = ic::clock_wrapper<%s, %s, %s>::now(); put(o0, x.time_since_epoch().count());'
                                   % (C_, wper.replace('typename ', ''), P), inst,
                                   'clock_wrapper of a %s clock of %s read in %s, policy %s' % (u, R, w, pn), rep, ticks=rep))
            small = ('s', 'min', 'h', 'ms', 'third', 'r57', 'us') if tier == 'quick' else tuple(pers)
            for u in small:
                for v in small:
                    if u == v or (REPS[rep][1] == 32 and not {u, v} <= {'s', 'min', 'h', 'third', 'ms'}):
                        continue
                    (pu, un, ud), (pv, vn, vd) = pers[u], pers[v]
                    FU, FV = ('ic::duration<%s, %s, %s>' % (R, p, P) for p in (pu, pv))
                    F = 'fr::fraction<%s, %s>' % (R, P)
                    t = '%s_%s_%s_%s' % (rep, pn, u, v)

                    def conv(S, un=un, ud=ud, vn=vn, vd=vd):
                        n, d = S.out(0, 0), S.out(0, S.sz)
                        if S.zero(S.b):
                            return True
                        return eqv(S, n.scale(vn * ud), d, S.a.scale(un * vd), S.b)
                    obls.append(ob('c23_%s_i' % t, [('a', rep), ('b', rep)], [pr],
                                   '%s const x = %s(%s(a, b)); put(o0, x.count());' % (FV, FU, F), conv,
                                   'conversion of a duration<fraction<%s,%s>> from %s to %s' % (R, pn, u, v), rep))
                    if tier == 'thorough' or pn == 'default':
                        obls.append(ob('c23_%s_k' % t, [('a', rep), ('b', rep)], [pr],
                                       'auto const x = std::chrono::duration_cast<%s>(%s(%s(a, b))); put(o0, x.count());' % (FV, FU, F),
                                       conv, 'duration_cast of a duration<fraction<%s,%s>> from %s to %s' % (R, pn, u, v), rep))
    return obls


def asserts(tier):
    out = []

    def add(c, t):
        out.append(('%d' % len(out), c, t))
    pols = ('default', 'safe', 'fast', 'safe_io') if tier == 'quick' else tuple(policies(tier))
    PP = policies('thorough')
    for u, (nm, a, b) in UNITS.items():
        D = 'std::chrono::' + nm
        add('std::is_same_v<ic::%s, std::chrono::duration<fr::fraction<typename %s::rep>, typename %s::period>>' % (nm, D, D),
            'the fractional unit %s' % nm)
        for pn in pols:
            P = PP[pn]
            FD = 'std::chrono::duration<fr::fraction<typename %s::rep, %s>, typename %s::period>' % (D, P, D)
            if pn == 'default':
                add('std::is_same_v<%s, decltype(ic::to_fractional(std::declval<%s>()))>' % (FD, D), 'type of to_fractional of %s, policy %s' % (nm, pn))
            add('std::is_same_v<%s, ic::duration_like<%s, %s>>' % (FD, D, P), 'duration_like of %s, policy %s' % (nm, pn))
            add('std::is_same_v<std::chrono::time_point<std::chrono::system_clock, %s>, '
                'ic::time_point_like<std::chrono::time_point<std::chrono::system_clock, %s>, %s>>' % (FD, D, P),
                'time_point_like of %s, policy %s' % (nm, pn))
            if pn == 'default':
                add('std::is_same_v<std::chrono::time_point<std::chrono::system_clock, %s>, '
                    'decltype(ic::to_fractional(std::declval<std::chrono::time_point<std::chrono::system_clock, %s>>()))>' % (FD, D), 'type of to_fractional of a time point in %s, policy %s' % (nm, pn))
    for pn in pols:
        P = PP[pn]
        F = 'fr::fraction<long long, %s>' % P
        for r in WIDE:
            G = 'fr::fraction<%s, %s>' % (ct(r), P)
            add('std::chrono::treat_as_floating_point_v<%s>' % G, 'durations of %s convert implicitly, policy %s' % (G, pn))
            for a, b in (('std::ratio<1>', 'std::ratio<60>'), ('std::ratio<60>', 'std::ratio<1>'), ('std::milli', 'std::ratio<1>'), ('std::ratio<2, 3>', 'std::ratio<5, 7>')):
                D1, D2 = ('ic::duration<%s, %s, %s>' % (ct(r), x, P) for x in (a, b))
                add('std::is_convertible_v<%s, %s> && std::is_same_v<%s, std::chrono::duration<%s, %s>>' % (D1, D2, D1, G, a),
                    'durations of %s in %s convert implicitly to %s, policy %s' % (G, a, b, pn))
                add('std::is_convertible_v<std::chrono::time_point<std::chrono::system_clock, %s>, std::chrono::time_point<std::chrono::system_clock, %s>>'
                    % (D1, D2), 'time points of %s in %s convert implicitly to %s, policy %s' % (G, a, b, pn))
        for st in ('true', 'false'):
            for per in ('std::ratio<1>', 'std::nano', 'std::ratio<60>', 'std::ratio<2, 6>'):
                for r in ('int', 'long long', 'long'):
                    K = 'clk<%s, %s, %s>' % (r, per, st)
                    W = 'ic::clock_wrapper<%s, typename %s::period, %s>' % (K, K, P)
                    add('%s::is_steady == %s' % (W, st), 'steadiness of ' + W)
                    add('std::is_same_v<typename %s::rep, fr::fraction<%s, %s>>' % (W, r, P), 'rep of ' + W)
                    add('std::is_same_v<typename %s::period, typename %s::type>' % (W, per), 'period of ' + W)
                    add('std::is_same_v<typename %s::duration, std::chrono::duration<fr::fraction<%s, %s>, typename %s::type>>'
                        % (W, r, P, per), 'duration of ' + W)
                    add('std::is_same_v<typename %s::time_point, std::chrono::time_point<%s, typename %s::duration>>' % (W, K, W),
                        'time_point of ' + W)
                    add('std::is_same_v<decltype(%s::now()), typename %s::time_point>' % (W, W), 'type of now of ' + W)
        # a period other than the clock's own
        for st in ('true', 'false'):
            for per in ('std::ratio<1>', 'std::nano', 'std::ratio<2, 6>'):
                for wper in ('std::ratio<1>', 'std::milli', 'std::ratio<3600>', 'std::ratio<4, 6>'):
                    K = 'clk<long long, %s, %s>' % (per, st)
                    W = 'ic::clock_wrapper<%s, %s, %s>' % (K, wper, P)
                    add('%s::is_steady == %s' % (W, st), 'steadiness of ' + W)
                    add('std::is_same_v<typename %s::rep, fr::fraction<long long, %s>> && std::is_same_v<typename %s::period, typename %s::type> && '
                        'std::is_same_v<typename %s::duration, std::chrono::duration<fr::fraction<long long, %s>, typename %s::type>> && '
                        'std::is_same_v<typename %s::time_point, std::chrono::time_point<%s, typename %s::duration>> && '
                        'std::is_same_v<decltype(%s::now()), typename %s::time_point>' % (W, P, W, wper, W, P, wper, W, K, W, W, W), 'types of ' + W)
        for c in ('system_clock', 'steady_clock', 'high_resolution_clock'):
            K = 'std::chrono::' + c
            W = 'ic::clock_wrapper<%s, typename %s::period, %s>' % (K, K, P)
            add('%s::is_steady == %s::is_steady && std::is_same_v<typename %s::period, typename %s::period> && '
                'std::is_same_v<typename %s::rep, fr::fraction<typename %s::rep, %s>>' % (W, K, W, K, W, K, P), 'clock_wrapper of ' + c)
    return out


MPRE = CPRE


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c23', CPRE, size=40)))
    from runner import static_asserts
    static_asserts(rep, CPRE, asserts(tier))
