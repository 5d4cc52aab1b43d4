"""Floating-point strings to fractions."""
from common import *
import itertools

LEVEL = 'proof'
RULE = ('the characters of each string shape are symbolic (digits 0..9, letters, or any character); for every disjunct a '
        'string of the grammar of floating-point literals gives its exact value, any other string an undefined fraction, '
        'and no character outside the string is read')
ASSUMPTIONS = ['the digits and the powers of the base are representable in the number type',
               'number types at least as wide as int', 'strings up to the listed shapes and their single-character insertions and replacements']
LO, HI = -128, 127


# ---- reference reading of a string, independent of the library -------------
def is_in(S, c, lo, hi):
    return S.le(C(ord(lo)), c) and S.le(c, C(ord(hi)))


def classify(S, c, base):
    """('d', value) digit, or ('c', character) or None"""
    c = S.n(c)
    if c.is_const():
        v = c.const()
        ch = chr(v) if 0 <= v < 128 else '\0'
        if ch.isdigit() and v < 128:
            return ('d', C(v - 48))
        if base == 16 and ch in 'abcdefABCDEF':
            return ('d', C(int(ch, 16)))
        return ('c', ch)
    if is_in(S, c, '0', '9'):
        return ('d', c - C(48))
    if base == 16:
        if is_in(S, c, 'a', 'f'):
            return ('d', c - C(87))
        if is_in(S, c, 'A', 'F'):
            return ('d', c - C(55))
    for ch in ".'+-eEpP":
        if S.eq(c, C(ord(ch))):
            return ('c', ch)
    return None


def digits(ts):
    """digit values of a digit sequence with separators between digits, or None"""
    out, prev = [], False
    for t in ts:
        if t == ('c', "'"):
            if not prev:
                return None
            prev = False
        elif t is not None and t[0] == 'd':
            out.append(t[1])
            prev = True
        else:
            return None
    return out if prev else None


def read(S, chars):
    """None, or (digits of the number, digits after the point, exponent sign, exponent digits, base)"""
    base = 10
    if len(chars) > 2 and S.eq(chars[0], C(48)) and (S.eq(chars[1], C(ord('x'))) or S.eq(chars[1], C(ord('X')))):
        base = 16
        chars = chars[2:]
    mark = 'eE' if base == 10 else 'pP'
    # the exponent starts at the first marker; its digits are decimal
    ts = []
    ex = None
    for i, c in enumerate(chars):
        t = classify(S, c, base)
        if t is not None and t[0] == 'c' and t[1] in mark:
            ex = [classify(S, x, 10) for x in chars[i + 1:]]
            break
        ts.append(t)
    dots = [i for i, t in enumerate(ts) if t == ('c', '.')]
    if len(dots) > 1 or (not dots and ex is None) or (base == 16 and ex is None):
        return None
    w, f = (ts[:dots[0]], ts[dots[0] + 1:]) if dots else (ts, [])
    dw = digits(w) if w else []
    df = digits(f) if f else []
    if dw is None or df is None or not (dw or df):
        return None
    sg, de = 1, []
    if ex is not None:
        if ex and ex[0] in (('c', '+'), ('c', '-')):
            sg = -1 if ex[0][1] == '-' else 1
            ex = ex[1:]
        de = digits(ex)
        if de is None:
            return None
    return dw, df, sg, de, base


def spec_for(chars):
    def pre(S):
        r = read(S, chars(S))
        if r is None:
            return True
        dw, df, sg, de, base = r
        # exponents are enumerated, not symbolic, and small
        if not all(d.is_const() for d in de):
            return False
        e = 0
        for d in de:
            e = 10 * e + d.const()
        cap = 4 if S.ob.width <= 32 else (12 if base == 10 else 30)
        return e <= cap and len(dw) + len(df) <= (17 if e == 0 else 12)

    def spec(S):
        n, d = S.out(0, 0), S.out(0, S.sz)
        r = read(S, chars(S))
        if r is None:
            return True if S.zero(d) else 'a malformed string becomes a defined fraction'
        dw, df, sg, de, base = r
        v = ZERO
        for x in dw + df:
            v = v.scale(base) + x
        e = 0
        for x in de:
            e = 10 * e + x.const()
        m = (10 if base == 10 else 2) ** e
        rn, rd = v, C(base ** len(df))
        if sg > 0:
            rn = rn.scale(m)
        else:
            rd = rd.scale(m)
        return value_is(S, n, d, rn, rd)
    return pre, spec


KIND = {'D': (48, 57), 'h': (97, 102), 'H': (65, 70), '?': (LO, HI)}


def obl(pid, rep, pn, sh, tag):
    """sh: shape; D digit, h/H letters a-f/A-F, ? any character, \\x literal otherwise"""
    sh = tuple(sh)

    def setup(ob, st):
        from interp import Mem, Ptr
        st.mem[('out', 0)] = Mem({})
        ins, cells = {}, {}
        for i, k in enumerate(sh):
            if k in KIND:
                v = ins['c%d' % i] = dom.A.var('c%d' % i, *KIND[k])
            else:
                v = C(ord(k))
            cells[i] = (1, v)
        st.mem[('str', 0)] = Mem(cells, True, len(sh))
        return ins, [Ptr(('out', 0), 0), Ptr(('str', 0), 0), C(len(sh))]

    def chars(S):
        return [S.n(S.I['c%d' % i]) if k in KIND else C(ord(k)) for i, k in enumerate(sh)]
    pre, spec = spec_for(chars)
    R = ct(rep)
    fn = 'c19_%s_%s_%s' % (rep, pn, tag)
    cand = {}
    for i, k in enumerate(sh):
        if k == '?':
            cand['c%d' % i] = [ord(c) for c in "5.e'+-Epx \0zX0P9aAfFgG/:@`"] + [-1, -128]
        elif k == 'D':
            cand['c%d' % i] = [ord(c) for c in '12570839']
    o = Obl(fn, wrap(fn, ['pairof<%s>' % R], [('char const*', 's'), ('unsigned long', 'n')],
                     'put(o0, fr::floating_point_string_to_fraction<%s, %s>(std::string_view(s, n)));' % (R, POL[pn])),
            [], spec, pre, outs=1, desc='parse<%s,%s> of %s' % (R, pn, ''.join(sh)), setup=setup, cand=cand, **kw(rep))
    o.sz = REPS[rep][1] // 8
    o.max_steps = 3000000
    o.max_regions = 40000
    return o


def shapes(tier):
    """complete strings of the grammar and near misses"""
    W = ['', 'D', 'DD', "D'D"]
    F = ['', 'D', 'DD', "D'D"]
    E = ['', 'e0', 'e2', 'E+1', 'e-1', 'E-2']
    out = []
    for w in W:
        for f in F:
            for dot in ('.', ''):
                if f and not dot:
                    continue
                for e in E:
                    out.append(w + dot + f + e)
    HW = ['', 'D', 'h', 'HD', "h'D"]
    HF = ['', 'D', 'H', 'Dh', "h'D"]
    HE = ['', 'p0', 'P3', 'p+1', 'p-4', 'P-1']
    for x in ('0x', '0X'):
        for w in HW:
            for f in HF:
                for dot in ('.', ''):
                    if f and not dot:
                        continue
                    for e in HE:
                        if x == '0X' and tier == 'quick' and e not in ('', 'p-4'):
                            continue
                        out.append(x + w + dot + f + e)
    out += ["D.De1'2", "DDD.DDD", "D'DDD'DDD.DDD'DDD'D", ".D'D'D'D'D", "0x.h'D'H'Dp1", "D'D'D.D'D", "D'DD.DD'D", "DD'D.D'DDe2", "D.D'D'De-1", "0xD'hh.HD'Dp-3", "0XHD'D.D'Hhp2", "0x.h'D'Dp5", "DDDD.", ".DDDD", "D.De-1'0", 'DDDe3', "0xDhH.Dp1'0", '0xhhhhp0', "D..D", "D.D.D", "DeDe1",
            "D.e1.", "'D.D", "D'.D", "D.'D", "D.D'", "D''D.D", "D.De", "D.De+", "D.De-", "D.De'1", "D.De1'", "D.De+-1", "+D.D", "-D.D", " D.D",
            "D.D ", "D.Df", "0xD.D", "0xp1", "0x.p1", "0x", "0X", "x.1", "0", ".", "", "e", "e1", ".e1", "DD", "D", "0xDe1", "0xD.hep1",
            "D.DE1e1", "D.De1E1", "DE1e1", "0xDP1p1", "0xD.P1p1", "D.Dp1", "DDDDDDD.DD",
            "D" * 17 + ".", "." + "D" * 17, "DDDDDDDDD.DDDDDDDD", "DDDDDDDDDDDD.e4", "0xhhhhhhhhhhhhhhp0"]
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
    return seen


def corrupted(tier):
    """one character of a well-formed shape replaced by, or extended with, any character"""
    base = ["D.De2", "D'D.D", "0xh.Dp-1", "De1", ".De+1", "D.", "0xDp3"]
    if tier == 'thorough':
        base += ["DD.DDe-2", "0xDh.HDp1", ".D'D", "D.e1", "D'De2", "0X.Hp+4", "D.D'DE-1'0", "0xD'hp1"]
    out = []
    for b in base:
        for i in range(len(b)):
            out.append(b[:i] + '?' + b[i + 1:])
        for i in range(len(b) + 1):
            out.append(b[:i] + '?' + b[i:])
    out += ['?', '??', '0??', '?.?', 'D?', '??D']
    if tier == 'thorough':
        out += ['D??', '???', '0x??', '0x???', '???D', 'D.??', '.???', 'D.D??', 'De??', 'D.De??']
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
    return seen


def build(tier):
    obls = []
    plan = [('i64', 'default', shapes(tier) + corrupted(tier))]
    if tier == 'quick':
        plan += [('i32', 'safe', [s for s in shapes(tier) if len(s) <= 5]), ('i64', 'fast', shapes('quick')[::3]),
                 ('u64', 'default', shapes('quick')[1::3]), ('u32', 'safe_io', [s for s in shapes(tier) if len(s) <= 4]),
                 ('i16', 'default', [s for s in shapes(tier) if len(s) <= 4])]
    else:
        plan += [('i32', 'safe', shapes(tier)), ('i32', 'default', shapes(tier)), ('i32', 'fast', shapes(tier)),
                 ('u64', 'default', shapes(tier)), ('i16', 'default', [s for s in shapes(tier) if len(s) <= 4])]
        plan += [('i64', p, shapes(tier) + corrupted('quick')) for p in POL if p != 'default']
    for rep, pn, shs in plan:
        for k, s in enumerate(shs):
            if rep in ('i32', 'u32', 'i16') and (s.count('D') + s.lower().count('h') > 3 or "1'" in s):
                continue
            obls.append(obl('c19', rep, pn, s, '%d' % k))
    return obls


def run(rep, tier):
    rep.add_units(run_units(chunk(build(tier), 'c19', PRELUDE + '#include <string_view>\n', size=25), limit=60 if tier == 'quick' else 400))
    from runner import static_asserts
    static_asserts(rep, PRELUDE + """
template <class R, class P = op::defaults> constexpr bool is(std::string_view s, R n, R d)
{ auto const f = fr::floating_point_string_to_fraction<R, P>(s); return f.numerator() == n && f.denominator() == d; }
template <class R> constexpr bool undef(std::string_view s)
{ return fr::floating_point_string_to_fraction<R>(s).denominator() == 0; }
""", extremes())


def extremes():
    """the longest representable digit sequences and powers, evaluated by the type checker"""
    out = []
    for t, bits in (('int', 32), ('long long', 64)):
        top = (1 << (bits - 1)) - 1
        p10 = 0
        while 10 ** (p10 + 1) <= top:
            p10 += 1
        for v in (top, top - 1, top // 10, 10 ** p10):
            for s in ('%d.' % v, '%d.0' % (v // 10), '%de0' % v, '0x%xp0' % v, '0X%X.p+0' % v, "0%d." % v, '%d.e-0' % v):
                w = v // 10 if s.endswith('.0') else v
                out.append((s, 'is<%s>("%s", %d, 1)' % (t, s, w), 'parse<%s> of %s' % (t, s)))
        out.append(('p', 'is<%s>("1e%d", %d, 1)' % (t, p10, 10 ** p10), 'parse<%s> of 1e%d' % (t, p10)))
        out.append(('p', 'is<%s>("1e-%d", 1, %d)' % (t, p10, 10 ** p10), 'parse<%s> of 1e-%d' % (t, p10)))
        out.append(('p', 'is<%s>("0.%s1", 1, %d)' % (t, '0' * (p10 - 1), 10 ** p10), 'parse<%s> of 1e-%d spelt out' % (t, p10)))
        out.append(('p', 'is<%s>("0x1p%d", %d, 1)' % (t, bits - 2, 1 << (bits - 2)), 'parse<%s> of 0x1p%d' % (t, bits - 2)))
        out.append(('p', 'is<%s>("0x1p-%d", 1, %d)' % (t, bits - 2, 1 << (bits - 2)), 'parse<%s> of 0x1p-%d' % (t, bits - 2)))
        out.append(('u', 'undef<%s>("%d")' % (t, top), 'parse<%s> of an integer without point or exponent' % t))
    return out
