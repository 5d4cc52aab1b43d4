"""Stream insertion and extraction."""
from common import *
import streams

LEVEL = 'proof'
RULE = ('the characters written are the numerator, a slash and the denominator; reading what was written gives the same '
        'components and no failure; after a failed or malformed read the stream has failed and every component is one '
        'that was there, was read, or is the zero of a failed extraction; the stream itself is returned')
ASSUMPTIONS = ['the standard library formats and parses integers as specified (streams are modelled as token queues)',
               'number types of at least 16 bits: character types are streamed as characters by the standard library',
               'default formatting flags']

SPRE = PRELUDE + '#include <istream>\n#include <ostream>\n#include <sstream>\n'


def sob(fn, rep, ps, outs, body, tokens, spec, desc, flags=0, link=False):
    """the driver receives the stream as both an ostream and an istream"""
    R = ct(rep)
    names = [p for p in ps]

    def setup(ob, st):
        from interp import Mem, Ptr
        args = []
        for i in range(len(outs)):
            st.mem[('out', i)] = Mem({})
            args.append(Ptr(('out', i), 0))
        ins = {p: dom.A.var(p, *rng(rep)) for p in names}
        toks = [('n', ins[t]) if t in ins else ('c', t) for t in tokens]
        s = streams.init(st, toks, flags, link)
        return ins, args + [s, s] + [ins[p] for p in names]
    o = Obl(fn, wrap(fn, outs, [('std::ostream&', 'os'), ('std::istream&', 'is')] + [(R, p) for p in names], body),
            [], spec, None, outs=len(outs), desc=desc, setup=setup, handlers=streams.handlers(), **kw(rep))
    o.sz = REPS[rep][1] // 8
    return o


def build(tier):
    obls = []
    pols = ('default', 'fast') if tier == 'quick' else tuple(POL)
    reps = ('i16', 'i32', 'i64', 'u32', 'u64', 'l64', 'u16')
    for rep in reps:
        R = ct(rep)
        pr = 'pairof<%s>' % R
        kinds = {'raw': 'fr::raw_fraction<%s>' % R}
        for pn in pols:
            kinds[pn] = 'fr::fraction<%s, %s>' % (R, POL[pn])
        for kn, F in kinds.items():
            get = 'putr' if kn == 'raw' else 'put'
            t = '%s_%s' % (rep, kn)

            def written(S):
                w = streams.normal(S, S.st.user[0])
                want = [('n', S.a), ('t', '/'), ('n', S.b)]
                if len(w) != 3 or [x[0] for x in w] != ['n', 't', 'n'] or w[1] != want[1]:
                    return 'the text written is not numerator/denominator'
                if not (S.eq(w[0][1], S.a) and S.eq(w[2][1], S.b)):
                    return 'another number is written'
                return True if S.true(S.out(0, 0)) else 'another stream is returned'
            obls.append(sob('c22_%s_w' % t, rep, ['a', 'b'], ['bool'], '%s const v(a, b); *o0 = &(os << v) == &os;' % F,
                            [], written, 'writing %s' % F))

            def trip(S, ok=False):
                if S.true(S.out(2, 0)):
                    return 'reading what was written fails'
                if not S.true(S.out(1, 0)):
                    return 'another stream is returned'
                return True if S.eq(S.out(0, 0), S.a) and S.eq(S.out(0, S.sz), S.b) else 'another value is read back'
            obls.append(sob('c22_%s_t' % t, rep, ['a', 'b'], [pr, 'bool', 'bool'],
                            '%s const v(a, b); os << v; %s g; *o1 = &(is >> g) == &is; *o2 = is.fail(); %s(o0, g);' % (F, F, get),
                            [], trip, 'round trip of %s' % F, link=True))

            def seq(S):
                if S.true(S.out(2, 0)):
                    return 'reading what was written fails'
                for i, (n, d) in ((0, (S.a, S.b)), (1, (S.c, S.d))):
                    if not (S.eq(S.out(i, 0), n) and S.eq(S.out(i, S.sz), d)):
                        return 'another value is read back'
                return True
            for sp, sep in (('sp', "' '"), ('nl', "'\\n'")):
                obls.append(sob('c22_%s_s%s' % (t, sp), rep, ['a', 'b', 'c', 'd'], [pr, pr, 'bool'],
                                'os << %s(a, b) << %s << %s(c, d); %s g, h; is >> g >> h; *o2 = is.fail(); %s(o0, g); %s(o1, h);'
                                % (F, sep, F, F, get, get), [], seq, 'two values of %s in one stream' % F, link=True))
            for k, (n1, d1, n2, d2) in enumerate(((7, 3, 12, 345), (-12, 34, 0, -1), (0, 0, 1000, 10), (-1, -20, 6, 4))):
                if rng(rep)[0] == 0:
                    n1, d1, n2, d2 = (abs(v) for v in (n1, d1, n2, d2))

                def lits(S, w=(n1, d1, n2, d2)):
                    if S.true(S.out(2, 0)):
                        return 'reading what was written fails'
                    g = [S.out(0, 0), S.out(0, S.sz), S.out(1, 0), S.out(1, S.sz)]
                    return True if all(x == C(y) for x, y in zip(g, w)) else 'another value is read back'
                obls.append(sob('c22_%s_l%d' % (t, k), rep, [], [pr, pr, 'bool'],
                                'os << %s(%d, %d) << \' \' << %s(%d, %d); %s g(1, 1), h(1, 1); is >> g >> h; *o2 = is.fail(); %s(o0, g); %s(o1, h);'
                                % (F, n1, d1, F, n2, d2, F, get, get), [], lits, 'round trip of %s, digit by digit: %d/%d %d/%d' % (F, n1, d1, n2, d2),
                                link='spell'))
            for bn, txt in (('no_slash', '12 34'), ('other', '12:34'), ('cut', '12'), ('cut_den', '12/'), ('bad_den', '12/x'), ('letters', 'xy/34'), ('junk', '12x/34'), ('two', '12 3/4'),
                            ('word', '12 over/34'), ('lines', '5\n3/4'),
                            ('sign', '-/3'), ('den_sign', '3/-')):
                def failc(S):
                    return True if S.true(S.out(0, 0)) else 'a failed read is not reported'
                obls.append(sob('c22_%s_x_%s' % (t, bn), rep, [], ['bool'], '%s g(1, 1); is >> g; *o0 = is.fail();' % F,
                                list(txt), failc, 'reading %s from the text %r' % (F, txt)))
            bad = {'empty': [], 'word': ['x'], 'num_only': ['a'], 'no_den': ['a', '/'], 'bad_den': ['a', '/', 'x'],
                   'bad_num': ['x', '/', 'b'], 'no_slash': ['a', ' ', 'b'], 'no_num': ['/', 'b'], 'other': ['a', ':', 'b'],
                   'failed': ['a', '/', 'b']}
            for bn, toks in bad.items():
                def failed(S, toks=toks):
                    if not S.true(S.out(1, 0)):
                        return 'a failed read is not reported'
                    for off, nm in ((0, 'c'), (S.sz, 'd')):
                        v = S.out(0, off)
                        ok = [getattr(S, nm), ZERO] + [getattr(S, x) for x in toks if x in 'ab' and (x == 'a') == (off == 0)]
                        if v not in ok and not any(S.eq(v, x) for x in ok):
                            return 'a value is invented by a failed read'
                    return True
                obls.append(sob('c22_%s_f_%s' % (t, bn), rep, ['a', 'b', 'c', 'd'], [pr, 'bool'],
                                '%s g(c, d); is >> g; *o1 = is.fail(); %s(o0, g);' % (F, get),
                                toks, failed, 'reading %s from malformed input: %s' % (F, bn), flags=4 if bn == 'failed' else 0))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c22', SPRE, size=40)))


MPRE = SPRE
