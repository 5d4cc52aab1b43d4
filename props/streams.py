"""An abstract model of standard character streams for the interpreter.

The stream is a queue of tokens: ('n', p) the decimal text of the value p, and
single characters.  State: (written tokens, tokens to read, position, flags).
"""
import dom
from dom import C, Poly, ZERO, ONE, Unsupported, Fr
from interp import Mem, Ptr, Stop

EOF_, FAIL, BAD = 2, 4, 1
BITS = {'s': 16, 't': 16, 'i': 32, 'j': 32, 'l': 64, 'm': 64, 'x': 64, 'y': 64}
OBJ = ('stream', 0)
OFF = 64        # of the virtual base in the stream object


def init(st, tokens=(), flags=0, link=False):
    """both kinds of stream share the object; link: what is written can be read"""
    st.mem[OBJ] = Mem({0: (8, Ptr(('vt', 0), 24)), 8: (8, ZERO), OFF: (8, ZERO)})
    st.mem[('vt', 0)] = Mem({0: (8, C(OFF))}, True)
    st.user = ((), tuple(tokens), 0, flags, link)
    return Ptr(OBJ, 0)


def is_stream(p):
    return isinstance(p, Ptr) and p.obj == OBJ


def upd(st, **k):
    w, q, pos, fl, link = st.user
    st = st.copy()
    st.user = (k.get('w', w), k.get('q', q), k.get('pos', pos), k.get('fl', fl), link)
    return st


def write(st, tok):
    w, q, pos, fl, link = st.user
    if fl:
        return upd(st, fl=fl | FAIL)
    return upd(st, w=w + (tok,), q=q + (tok,) if link else q)


def h_num(bits):
    def h(I, st, vals, x):
        if not is_stream(vals[0]):
            return NotImplemented
        v = st.ctx.norm(I.as_poly(vals[1]))
        if v.is_const() and st.user[4] == 'spell':
            for ch in str(v.const()):
                st = write(st, ('c', ch))
            return [(st, vals[0])]
        return [(write(st, ('n', I.as_poly(vals[1]))), vals[0])]
    return h


def h_chr(I, st, vals, x):
    if not is_stream(vals[0]):
        return NotImplemented
    c = st.ctx.norm(I.as_poly(vals[1]))
    return [(write(st, ('c', chr(c.const() % 256)) if c.is_const() else ('p', c)), vals[0])]


def text(I, st, p, n=None):
    out = ''
    i = 0
    while n is None or i < n:
        c = st.ctx.norm(I.as_poly(I.load(st, Ptr(p.obj, p.off + i), ('i', 8))))
        if not c.is_const():
            raise Unsupported('text')
        if n is None and c.const() == 0:
            break
        out += chr(c.const() % 256)
        i += 1
    return out


def h_str(I, st, vals, x):
    if not is_stream(vals[0]):
        return NotImplemented
    for ch in text(I, st, vals[1]):
        st = write(st, ('c', ch))
    return [(st, vals[0])]


def h_write(I, st, vals, x):
    n = st.ctx.norm(I.as_poly(vals[2]))
    for ch in text(I, st, vals[1], n.const()):
        st = write(st, ('c', ch))
    return [(st, vals[0])]


def sentry(st, skip=True):
    """(state, ok)"""
    w, q, pos, fl, link = st.user
    if fl:
        return upd(st, fl=fl | FAIL), False
    if skip:
        while pos < len(q) and q[pos][0] == 'c' and q[pos][1] in ' \t\n':
            pos += 1
        if pos == len(q):
            return upd(st, pos=pos, fl=fl | FAIL | EOF_), False
        st = upd(st, pos=pos)
    return st, True


def h_get_num(bits):
    def h(I, st, vals, x):
        if not is_stream(vals[0]):
            return NotImplemented
        st, ok = sentry(st)
        if not ok:
            return [(st, vals[0])]
        w, q, pos, fl, link = st.user
        st = st.copy()
        tok = q[pos]
        if tok[0] == 'r':
            raise Unsupported('rest of a number')
        if tok[0] == 'n':
            pos += 1
            if pos < len(q) and q[pos][0] == 'n':
                raise Unsupported('adjacent numbers')
            I.store(st, vals[1], tok[1], ('i', bits))
            return [(upd(st, pos=pos, fl=fl | (EOF_ if pos == len(q) else 0)), vals[0])]
        if tok[0] == 'c' and tok[1] in '+-0123456789':
            t = ''
            while pos < len(q) and q[pos][0] == 'c' and q[pos][1] in ('+-0123456789' if not t else '0123456789'):
                t += q[pos][1]
                pos += 1
            if pos < len(q) and q[pos][0] != 'c':
                raise Unsupported('adjacent numbers')
            v = int(t) if t[-1].isdigit() else None
            ok = v is not None and -(1 << (bits - 1)) <= v < 1 << bits
            if v is not None and not ok:
                raise Unsupported('number out of range')
            I.store(st, vals[1], C(v) if ok else ZERO, ('i', bits))
            return [(upd(st, pos=pos, fl=fl | (EOF_ if pos == len(q) else 0) | (0 if ok else FAIL)), vals[0])]
        I.store(st, vals[1], ZERO, ('i', bits))
        return [(upd(st, fl=fl | FAIL), vals[0])]
    return h


def peek(st):
    w, q, pos, fl, link = st.user
    if pos >= len(q):
        return None
    if q[pos][0] != 'c':
        raise Unsupported('character of a number')
    return q[pos][1]


def firsts(st):
    """states whose next character is known: a number starts with a sign or a digit, the rest of it stays unknown"""
    w, q, pos, fl, link = st.user
    if pos == len(q) or q[pos][0] != 'n':
        return [st]
    v = st.ctx.norm(q[pos][1])
    if v.is_const():
        return [upd(st, q=q[:pos] + tuple(('c', k) for k in str(v.const())) + q[pos + 1:])]
    return [upd(st, q=q[:pos] + (('c', k), ('r',)) + q[pos + 1:]) for k in '-0123456789']


def h_get_chr(I, st, vals, x):
    """stream >> char"""
    if not is_stream(vals[0]):
        return NotImplemented
    st, ok = sentry(st)
    if not ok:
        return [(st, vals[0])]
    out = []
    for t in firsts(st):
        c = peek(t)
        t = upd(t, pos=t.user[2] + 1)
        I.store(t, vals[1], C(ord(c)), ('i', 8))
        out.append((t, vals[0]))
    return out


def h_get(ref):
    def h(I, st, vals, x):
        st, ok = sentry(st, False)
        if ok:
            w, q, pos, fl, link = st.user
            if pos == len(q):
                st = upd(st, fl=fl | FAIL | EOF_)
                ok = False
        if ok:
            out = []
            for t in firsts(st):
                c = C(ord(peek(t)))
                t = upd(t, pos=t.user[2] + 1)
                if ref:
                    I.store(t, vals[1], c, ('i', 8))
                out.append((t, vals[0] if ref else c))
            return out
        return [(st, vals[0] if ref else C(-1))]
    return h


def h_peek(I, st, vals, x):
    st, ok = sentry(st, False)
    if not ok:
        return [(st, C(-1))]
    w, q, pos, fl, link = st.user
    if pos == len(q):
        return [(upd(st, fl=fl | EOF_), C(-1))]
    return [(t, C(ord(peek(t)))) for t in firsts(st)]


def h_back(I, st, vals, x):
    w, q, pos, fl, link = st.user
    fl &= ~EOF_
    if fl or pos == 0:
        return [(upd(st, fl=fl | FAIL | (BAD if not fl else 0)), vals[0])]
    return [(upd(st, pos=pos - 1, fl=fl), vals[0])]


def h_ignore(k):
    def h(I, st, vals, x):
        st, ok = sentry(st, False)
        if not ok:
            return [(st, vals[0])]
        n = st.ctx.norm(I.as_poly(vals[1])).const() if k > 0 else 1
        d = st.ctx.norm(I.as_poly(vals[2])).const() if k > 1 else -1
        w, q, pos, fl, link = st.user
        if n >= (1 << 63) - 1:
            n = 1 << 70
        while n > 0:
            if pos == len(q):
                fl |= EOF_
                break
            t = q[pos]
            if t[0] == 'n':
                if n < 1 << 60 or 48 <= d <= 57 or d == 45:
                    raise Unsupported('part of a number')
                pos += 1
                continue
            if t[0] in 'pr':
                raise Unsupported('symbolic character')
            pos += 1
            n -= 1
            if ord(t[1]) == d:
                break
        return [(upd(st, pos=pos, fl=fl), vals[0])]
    return h


def h_ws(I, st, vals, x):
    w, q, pos, fl, link = st.user
    if fl:
        return [(upd(st, fl=fl | FAIL), vals[0])]
    while pos < len(q) and q[pos][0] == 'c' and q[pos][1] in ' \t\n':
        pos += 1
    if pos == len(q):
        fl |= EOF_
    return [(upd(st, pos=pos, fl=fl), vals[0])]


def h_flag(f):
    def h(I, st, vals, x):
        if not is_stream(vals[0]):
            return NotImplemented
        return [(st, C(1 if f(st.user[3]) else 0))]
    return h


def h_state(I, st, vals, x):
    return [(st, C(st.user[3]))]


def h_setstate(clear):
    def h(I, st, vals, x):
        v = st.ctx.norm(I.as_poly(vals[1])).const()
        return [(upd(st, fl=v if clear else st.user[3] | v), None)]
    return h


def handlers():
    H = {}
    for k, b in BITS.items():
        H['_ZNSols' + 'E' + k] = h_num(b)
        H['_ZNSirsERE' + k] = h_get_num(b)
        H['_ZNSirsER' + k] = h_get_num(b)
    for k in 'cah':
        H['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_' + k] = h_chr
    H['_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'] = h_str
    H['_ZNSo3putEc'] = h_chr
    H['_ZNSo5writeEPKcl'] = h_write
    H['_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_'] = h_get_chr
    H['_ZNSi3getEv'] = h_get(False)
    H['_ZNSi3getERc'] = h_get(True)
    H['_ZNSi4peekEv'] = h_peek
    H['_ZNSi5ungetEv'] = H['_ZNSi7putbackEc'] = h_back
    H['_ZNSi6ignoreEv'] = h_ignore(0)
    H['_ZNSi6ignoreEl'] = h_ignore(1)
    H['_ZNSi6ignoreEli'] = h_ignore(2)
    H['_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_'] = h_ws
    b = '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
    H[b + '4failEv'] = h_flag(lambda f: f & (FAIL | BAD))
    H[b + '4goodEv'] = h_flag(lambda f: not f)
    H[b + '3eofEv'] = h_flag(lambda f: f & EOF_)
    H[b + '3badEv'] = h_flag(lambda f: f & BAD)
    H[b + 'cvbEv'] = h_flag(lambda f: not f & (FAIL | BAD))
    H[b + 'ntEv'] = h_flag(lambda f: f & (FAIL | BAD))
    H[b + '7rdstateEv'] = h_state
    n = '_ZNSt9basic_iosIcSt11char_traitsIcEE'
    H[n + '8setstateESt12_Ios_Iostate'] = h_setstate(False)
    H[n + '5clearESt12_Ios_Iostate'] = h_setstate(True)
    return H


def normal(S, toks):
    """numbers normalised, constants spelt, characters joined"""
    out = []
    for t in toks:
        if t[0] == 'n':
            p = S.n(t[1])
            out.append(('n', p))
        elif t[0] == 'c':
            if out and out[-1][0] == 't':
                out[-1] = ('t', out[-1][1] + t[1])
            else:
                out.append(('t', t[1]))
        else:
            out.append(t)
    return out
