"""Reader for the textual LLVM IR (opaque pointers, LLVM 18) that clang emits
for the driver translation units.  Function bodies are parsed on demand."""
import re, subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glo>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_$.][-\w.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot tokenize: ' + s[i:i + 60])
        out.append(m.group(0))
        i = m.end()
    return out


# ---- types --------------------------------------------------------------
# ints: ('i', bits); ('ptr',); ('f','float'|'double'|'x86_fp80'); ('void',)
# arrays: ('arr', n, T); structs: ('st', (T...), packed); named: ('nm', name)

class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'nm':
            t = self.named[t[1]]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = t[1]
            n = 1
            while n * 8 < b:
                n *= 2
            return n, min(n, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'f':
            return {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16),
                    'half': (2, 2), 'fp128': (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'st':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise ParseError('size of %r' % (t,))

    def size(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        if t[0] == 'arr':
            return i * self.size(t[2]), t[2]
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise ParseError('field')

    def leaves(self, t, base=0):
        """[(offset, scalar type)]"""
        t = self.resolve(t)
        if t[0] == 'arr':
            s = self.size(t[2])
            r = []
            for i in range(t[1]):
                r += self.leaves(t[2], base + i * s)
            return r
        if t[0] == 'st':
            r = []
            for i in range(len(t[1])):
                o, f = self.field_offset(t, i)
                r += self.leaves(f, base + o)
            return r
        return [(base, t)]


LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak',
           'common', 'appending', 'extern_weak', 'linkonce_odr', 'weak_odr',
           'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected',
           'default', 'unnamed_addr', 'local_unnamed_addr', 'thread_local',
           'constant', 'global', 'externally_initialized', 'dllimport',
           'dllexport', 'fastcc', 'ccc', 'coldcc'}
PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias',
               'nocapture', 'readonly', 'readnone', 'writeonly', 'returned',
               'nest', 'immarg', 'swiftself', 'inalloca', 'noreturn',
               'nofpclass', 'dead_on_unwind', 'writable', 'allocptr',
               'allocalign', 'nofree', 'swifterror', 'tail', 'musttail',
               'notail', 'nounwind', 'range'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
               'align', 'elementtype', 'preallocated', 'byref', 'nofpclass',
               'range', 'captures'}


class P:
    def __init__(self, toks, types):
        self.t, self.i, self.types = toks, 0, types

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def is_type_start(self):
        x = self.peek()
        if x is None:
            return False
        return (x in ('ptr', 'void', 'float', 'double', 'x86_fp80', 'half',
                      'fp128', 'label', 'metadata', 'token', '[', '{', '<')
                or re.fullmatch(r'i\d+', x) or x[0] == '%')

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.i += 4
        elif x in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            t = ('f', x)
        elif x in ('void', 'label', 'metadata', 'token', 'opaque'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('st', tuple(fs), False)
        elif x == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x[0] == '%':
            t = ('nm', x[1:].strip('"'))
        else:
            raise ParseError('type? ' + x + ' in ' + ' '.join(self.t))
        if self.peek() == '(' and False:
            pass
        return t

    def skip_attrs(self):
        attrs = {}
        while True:
            x = self.peek()
            if x in PAREN_ATTRS and self.peek(1) == '(':
                name = self.next()
                self.next()
                if name in ('sret', 'byval', 'elementtype', 'byref'):
                    attrs[name] = self.type()
                    self.expect(')')
                else:
                    depth = 1
                    while depth:
                        y = self.next()
                        depth += (y == '(') - (y == ')')
            elif x == 'align':
                self.next()
                self.next()
            elif x in PARAM_ATTRS:
                attrs[self.next()] = True
            elif x and x[0] == '#':
                self.next()
            elif x and x[0] == '"':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return attrs

    def value(self, ty):
        """operand of known type"""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x[1:].strip('"'))
        if c == '@':
            return ('g', x[1:].strip('"'))
        if x in ('true', 'false'):
            return ('c', 1 if x == 'true' else 0)
        if x in ('null',):
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'none':
            return ('undef',)
        if c in '0123456789-' or (c == '-' and len(x) > 1):
            if ty[0] == 'i':
                return ('c', int(x))
            return ('fc', x)
        if c == 'c' and len(x) > 1 and x[1] == '"':
            raw = x[2:-1]
            bs, i = [], 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i + 1] == '\\':
                        bs.append(92)
                        i += 2
                    else:
                        bs.append(int(raw[i + 1:i + 3], 16))
                        i += 3
                else:
                    bs.append(ord(raw[i]))
                    i += 1
            return ('bytes', bytes(bs))
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                els = self.elems('}')
                self.expect('>')
                return ('agg', els)
            return ('agg', self.elems(close))
        if x == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            t = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cexpr', x, t, v, t2)
        if x in ('sub', 'add'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        raise ParseError('value? %s in %s' % (x, ' '.join(self.t)))

    def elems(self, close):
        els = []
        if self.accept(close):
            return els
        while True:
            t = self.type()
            self.skip_attrs()
            els.append((t, self.value(t)))
            if self.accept(close):
                return els
            self.expect(',')


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res, ty, a, dbg, text):
        self.op, self.res, self.ty, self.a, self.dbg, self.text = op, res, ty, a, dbg, text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, mod, name, header, lines):
        self.mod, self.name, self.header, self.lines = mod, name, header, lines
        self._parsed = False
        self.attrs_line = header

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        mod = self.mod
        p = P(tokenize(self.header), mod.types)
        p.next()  # define
        while p.peek() in LINKAGE:
            p.next()
        p.skip_attrs()
        self.ret_ty = p.type()
        p.next()  # name
        p.expect('(')
        self.params = []
        if not p.accept(')'):
            n = 0
            while True:
                if p.peek() == '...':
                    p.next()
                    p.expect(')')
                    break
                t = p.type()
                at = p.skip_attrs()
                nm = p.next()[1:].strip('"') if p.peek() and p.peek()[0] == '%' else str(n)
                self.params.append((t, nm, at))
                n += 1
                if p.accept(')'):
                    break
                p.expect(',')
        self.blocks, self.order = {}, []
        cur = None
        i = 0
        L = self.lines
        while i < len(L):
            ln = L[i]
            i += 1
            st = ln.strip()
            if not st or st[0] == ';':
                continue
            m = re.match(r'^(?:"([^"]*)"|([-\w.$]+)):', ln)
            if m and not ln.startswith(' '):
                nm = m.group(1) or m.group(2)
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                nm = str(len(self.params))
                # unnamed entry takes the next number among unnamed values
                nm = str(sum(1 for _, q, _ in self.params if q.isdigit()))
                cur = []
                self.blocks[nm] = cur
                self.order.append(nm)
            if st.startswith('switch'):
                while ']' not in st.split('[', 1)[-1]:
                    st += ' ' + L[i].strip()
                    i += 1
            elif st.startswith('invoke') or ' = invoke' in st:
                if ' unwind label' not in st:
                    st += ' ' + L[i].strip()
                    i += 1
            elif 'landingpad' in st:
                while i < len(L) and L[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    st += ' ' + L[i].strip()
                    i += 1
            ins = self.instr(st)
            if ins is not None:
                cur.append(ins)
        return self

    def instr(self, st):
        dbg = None
        m = re.search(r', !dbg (!\d+)', st)
        if m:
            dbg = m.group(1)
        core = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', st)
        res = None
        m = re.match(r'%("[^"]*"|[-\w.$]+) = ', core)
        body = core
        if m:
            res = m.group(1).strip('"')
            body = core[m.end():]
        try:
            toks = tokenize(body)
            p = P(toks, self.mod.types)
            op = p.next()
            if op in ('tail', 'musttail', 'notail'):
                op = p.next()
            f = getattr(self, 'p_' + op, None)
            if f is None:
                if op in BIN:
                    f = self.p_bin
                elif op in CAST:
                    f = self.p_cast
                else:
                    return Instr('unsupported', res, None, op, dbg, st)
            ty, a = f(p, op)
            if op in BIN:
                kind = 'bin'
                a = (op,) + a
            elif op in CAST:
                kind = 'cast'
                a = (op,) + a
            else:
                kind = op
            return Instr(kind, res, ty, a, dbg, st)
        except (ParseError, IndexError) as e:
            return Instr('unsupported', res, None, 'parse: %s' % e, dbg, st)

    def p_bin(self, p, op):
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz',
                           'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            flags.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return t, (a, b, frozenset(flags))

    def p_fneg(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
            p.next()
        t = p.type()
        return t, p.value(t)

    def p_cast(self, p, op):
        p.accept('nneg')
        t = p.type()
        v = p.value(t)
        p.expect('to')
        t2 = p.type()
        return t2, (t, v)

    def p_alloca(self, p, op):
        p.accept('inalloca')
        t = p.type()
        n = None
        if p.accept(','):
            if p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
        return ('ptr',), (t, n)

    def p_load(self, p, op):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        return t, p.value(pt)

    def p_store(self, p, op):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        return None, (t, v, p.value(pt))

    def p_getelementptr(self, p, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return ('ptr',), (t, base, idx)

    def p_icmp(self, p, op):
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('i', 1), (pred, t, a, b)

    def p_fcmp(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract', 'arcp', 'afn', 'reassoc'):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('i', 1), (pred, t, a, b)

    def p_select(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        return t, (c, a, b)

    def p_phi(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
        return t, inc

    def p_freeze(self, p, op):
        t = p.type()
        return t, p.value(t)

    def p_extractvalue(self, p, op):
        t = p.type()
        v = p.value(t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        et = t
        for i in idx:
            et = self.mod.types.field_offset(et, i)[1]
        return et, (t, v, idx)

    def p_insertvalue(self, p, op):
        t = p.type()
        v = p.value(t)
        p.expect(',')
        t2 = p.type()
        v2 = p.value(t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return t, (t, v, t2, v2, idx)

    def p_ret(self, p, op):
        t = p.type()
        if t == ('void',):
            return t, None
        return t, p.value(t)

    def p_br(self, p, op):
        if p.accept('label'):
            return None, (None, p.next()[1:].strip('"'), None)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        b = p.next()[1:].strip('"')
        return None, (c, a, b)

    def p_switch(self, p, op):
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1:].strip('"')))
        return None, (t, v, d, cases)

    def p_unreachable(self, p, op):
        return None, None

    def p_resume(self, p, op):
        return None, None

    def p_landingpad(self, p, op):
        return p.type(), None

    def p_call(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'contract'):
            p.next()
        while p.peek() in LINKAGE:
            p.next()
        p.skip_attrs()
        t = p.type()
        if p.peek() == '(':  # function type
            depth = 0
            while True:
                y = p.next()
                depth += (y == '(') - (y == ')')
                if depth == 0:
                    break
        if p.peek() == 'asm':
            return t, ('asm', [])
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at == ('metadata',):
                    # skip metadata operand
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        y = p.next()
                        depth += (y in '([{') - (y in ')]}')
                    args.append((at, None, {}))
                else:
                    aa = p.skip_attrs()
                    args.append((at, p.value(at), aa))
                if p.accept(')'):
                    break
                p.expect(',')
        if op == 'invoke':
            p.skip_attrs()
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            n = p.next()[1:].strip('"')
            p.expect('unwind')
            p.expect('label')
            u = p.next()[1:].strip('"')
            return t, (callee, args, n, u)
        return t, (callee, args)

    p_invoke = p_call


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor',
       'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp',
        'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}


class Module:
    def __init__(self, text):
        self.types = Types()
        self.funcs, self.decls, self.globals, self.aliases = {}, {}, {}, {}
        self.meta = {}
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                nm = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[nm] = Function(self, nm, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                self.decls[m.group(1).strip('"')] = ln
            elif ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)$', ln)
                if m:
                    if m.group(2).strip() != 'opaque':
                        self.types.named[m.group(1).strip('"')] = P(tokenize(m.group(2)), self.types).type()
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', ln)
                self.globals[m.group(1).strip('"')] = ln[m.start(2):]
            elif ln.startswith('!'):
                m = re.match(r'(!\d+) = (.*)$', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        self._gl = {}
        self._dem = None

    def global_init(self, name):
        """(type, value or None, is_constant)"""
        if name in self._gl:
            return self._gl[name]
        s = self.globals[name]
        s = re.sub(r', comdat.*$', '', s)
        s = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', s)
        s = re.sub(r', align \d+$', '', s)
        p = P(tokenize(s), self.types)
        const, ext = False, False
        while True:
            x = p.peek()
            if x == 'constant':
                const = True
                p.next()
                break
            if x == 'global':
                p.next()
                break
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'alias':
                self._gl[name] = (('ptr',), None, True)
                return self._gl[name]
            p.next()
            if x == 'thread_local' and p.peek() == '(':
                p.next(); p.next(); p.next()
        t = p.type()
        v = None if ext else p.value(t)
        self._gl[name] = (t, v, const)
        return self._gl[name]

    def where(self, dbg):
        """file:line of a !dbg reference"""
        if dbg is None:
            return '?'
        seen = 0
        m = re.search(r'line: (\d+)', self.meta.get(dbg, ''))
        line = m.group(1) if m else '?'
        s = self.meta.get(dbg, '')
        sc = re.search(r'scope: (!\d+)', s)
        f = '?'
        cur = sc.group(1) if sc else None
        while cur and seen < 20:
            seen += 1
            d = self.meta.get(cur, '')
            m = re.search(r'file: (!\d+)', d)
            if m:
                mm = re.search(r'filename: "([^"]*)"', self.meta.get(m.group(1), ''))
                if mm:
                    f = mm.group(1)
                    break
            m = re.search(r'scope: (!\d+)', d)
            cur = m.group(1) if m else None
        return '%s:%s' % (f, line)

    def func_where(self, name):
        m = re.search(r'!dbg (!\d+)', self.funcs[name].header)
        if not m:
            return '?'
        return self.where_sp(m.group(1))

    def where_sp(self, ref):
        d = self.meta.get(ref, '')
        l = re.search(r'[ (]line: (\d+)', d)
        fm = re.search(r'file: (!\d+)', d)
        f = '?'
        if fm:
            mm = re.search(r'filename: "([^"]*)"', self.meta.get(fm.group(1), ''))
            f = mm.group(1) if mm else '?'
        return '%s:%s' % (f, l.group(1) if l else '?')

    def demangle_all(self):
        if self._dem is None:
            names = list(self.funcs) + list(self.decls)
            r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names),
                               capture_output=True, text=True)
            self._dem = dict(zip(names, r.stdout.split('\n')))
        return self._dem
