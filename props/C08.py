"""Fractions of different policies never mix silently."""
from common import *
from runner import Scratch, syntax_ok, gcc_ok, first_error

LEVEL = 'proof'
RULE = ('overload resolution finds no viable, accessible, non-deleted candidate for any operator, comparison, assignment '
        'or implicit conversion between two policies (or instantiating the chosen one is ill-formed), while the explicit '
        'conversion exists and leaves the components unchanged in every disjunct')
ASSUMPTIONS = ['the components are representable in the target number type']

CP = PRELUDE + '''
#define IEME_TWO(name, expr) template <class A, class B> concept name = requires(A& a, B const& b) { expr; };
'''
EXPRS = {}
for _n, _s in list(ARITH.items()) + list(CMP.items()):
    EXPRS[_n] = 'a %s b' % _s
    EXPRS[_n + 'c'] = 'const_cast<A const&>(a) %s b' % _s
for _n, _s in ARITH.items():
    EXPRS[_n + '_as'] = 'a %s= b' % _s
EXPRS['assign'] = 'a = b'
for _n, _e in EXPRS.items():
    CP += 'IEME_TWO(can_%s, %s)\n' % (_n, _e)


def cases(tier):
    pols = dict(POL)
    pols.pop('default')
    if tier == 'thorough':
        pols.update(POL_EXTRA)
    reps = [('int', 'int'), ('int', 'long long'), ('unsigned', 'unsigned'), ('short', 'int')] if tier == 'quick' else \
        [('int', 'int'), ('int', 'long long'), ('long long', 'int'), ('unsigned', 'unsigned'), ('short', 'int')]
    out = []
    for an, A in pols.items():
        for bn, B in pols.items():
            if an == bn:
                continue
            for x, y in reps:
                fa, fb = 'fr::fraction<%s, %s>' % (x, A), 'fr::fraction<%s, %s>' % (y, B)
                ma, mb = 'fr::mixed_number<%s, %s, %s>' % (x, x, A), 'fr::mixed_number<%s, %s, %s>' % (y, y, B)
                lab = '%s:%s / %s:%s' % (x, an, y, bn)
                for n in EXPRS:
                    out.append((fa, fb, n, 'fraction %s, %s' % (EXPRS[n], lab)))
                for l, r, t in ((ma, mb, 'mixed, mixed'), (ma, fb, 'mixed, fraction'), (fa, mb, 'fraction, mixed')):
                    for n in ('plus', 'assign', 'eq', 'lt', 'plus_as'):
                        out.append((l, r, n, '%s: %s, %s' % (t, EXPRS[n], lab)))
                out.append((fa, fb, None, 'implicit conversion, %s' % lab))
                out.append((fa, mb, None, 'implicit conversion fraction -> mixed, %s' % lab))
                out.append((ma, fb, None, 'implicit conversion mixed -> fraction, %s' % lab))
                out.append((ma, mb, None, 'implicit conversion mixed -> mixed, %s' % lab))
    return out


def use(a, b, n, k):
    """one line that instantiates the expression"""
    if n is None:
        return 'void sink%d(%s const&); void f%d(%s const& a) { sink%d(a); }' % (k, b, k, a, k)
    return 'template <class A, class B> void g%d(A& a, B const& b) { (void)(%s); } ' \
        'template void g%d<%s, %s>(%s&, %s const&);' % (k, EXPRS[n], k, a, b, a, b)


def instantiate(base, cs, ks, d):
    """the indices whose instantiation shows no error in a joint program"""
    left = set(ks)
    while left:
        todo = sorted(left)
        src = base + '\n' + '\n'.join(use(*cs[k][:3], k) for k in todo) + '\n'
        off = len(base.split('\n'))
        ok, diag = syntax_ok(src, d, 'in', ['-ferror-limit=0'])
        hit = set()
        for m in re.finditer(r'in\.cpp:(\d+):', diag):
            i = int(m.group(1)) - off - 1
            if 0 <= i < len(todo):
                hit.add(todo[i])
        if ok or not hit:
            return left
        left -= hit
    return left


def decide(rep, tier):
    cs = cases(tier)
    lines = []
    for a, b, n, t in cs:
        lines.append('static_assert(!%s, "");' % ('std::is_convertible_v<%s, %s>' % (a, b) if n is None else
                                                 'can_%s<%s, %s>' % (n, a, b)))
    with Scratch() as d:
        base = CP.rstrip('\n')
        off = len(base.split('\n'))
        flags = ['-ferror-limit=0']
        ok, diag = syntax_ok(base + '\n' + '\n'.join(lines) + '\n', d, 'sa', flags)
        rep.units += 1
        bad = set()
        if not ok:
            if not syntax_ok(base, d, 'pre')[0]:
                rep.errors.append('the headers do not compile')
                return
            for l in diag.splitlines():
                if ': error:' not in l:
                    continue
                m = re.search(r'sa\.cpp:(\d+):\d+: error: (.*)', l)
                k = int(m.group(1)) - off - 1 if m else -1
                if 0 <= k < len(cs):
                    bad.add(k)
                elif not m:
                    bad |= set(range(len(cs)))      # instantiation errors: decide each expression by itself
        # an expression that overload resolution accepts may still be ill-formed when instantiated
        mixing = 0
        suspects = instantiate(base, cs, sorted(bad), d)
        for k, (a, b, n, t) in enumerate(cs):
            if k not in suspects:
                rep.check(True, t)
                continue
            src = base + '\n' + use(a, b, n, 0) + '\n'
            ok1 = syntax_ok(src, d, 'one')[0]
            if ok1:
                mixing += 1
                rep.check(gcc_ok(src, d, 'og') is False, t, where=n or 'conversion',
                          text='mixing two policies compiles', kind='accepted program')
            else:
                rep.check(True, t)
            if mixing > 40:
                break


def verbatim(tier):
    obls = []
    pols = dict(POL)
    pols.pop('default')
    for an, A in pols.items():
        for bn, B in pols.items():
            if an == bn:
                continue
            for x, y in (('i32', 'i32'), ('i32', 'i64'), ('u32', 'u32')) if tier == 'quick' else \
                    (('i32', 'i32'), ('i32', 'i64'), ('i64', 'i32'), ('u32', 'u32')):
                X, Y = ct(x), ct(y)
                sz = REPS[y][1] // 8

                def spec(S, sz=sz):
                    return same(S, (S.eq(S.out(0, 0), S.a), S.eq(S.out(0, sz), S.b)), (True, True),
                                'the explicit conversion changes the components')
                o = Obl('c08_%s_%s_%s_%s' % (an, bn, x, y),
                        wrap('c08_%s_%s_%s_%s' % (an, bn, x, y), ['pairof<%s>' % Y], [(X, 'a'), (X, 'b')],
                             'put(o0, fr::fraction<%s, %s>(fr::fraction<%s, %s>(a, b)));' % (Y, B, X, A)),
                        [('a', x), ('b', x)], spec, None, outs=1,
                        desc='explicit conversion fraction<%s,%s> -> fraction<%s,%s>' % (X, an, Y, bn),
                        width=min(REPS[x][1], REPS[y][1]), unsigned=REPS[x][2])
                obls.append(o)
    return obls


build = verbatim


def run(rep, tier):
    decide(rep, tier)
    rep.add_units(run_units(chunk(verbatim(tier), 'c08')))
