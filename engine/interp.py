"""Abstract interpreter for LLVM IR.

Forward dataflow over the CFG of each function, callees analysed in the
caller's abstract state, one set of disjuncts (State) per program point,
exact joins at control-flow merges.  No concrete execution, no solver.
"""
import re
import struct
import dom
from dom import (Poly, C, V, ZERO, ONE, Ctx, NeedSplit, Infeasible, Unsupported,
                 mk_gcd, mk_lcm, mk_quot, mk_rem, mk_trunc, mk_op, mk_pow2,
                 mk_floor_div_pow2, mk_abs)


class Drop(Exception):
    """the disjunct is outside the obligation's precondition"""


class Stop(Exception):
    """control does not continue: (kind, text)"""

    def __init__(self, kind, text):
        self.kind, self.text = kind, text


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


NULL = Ptr(None, 0)


class FP:
    """floating-point term"""
    __slots__ = ('op', 'ty', 'args', '_h')

    def __init__(self, op, ty, args):
        self.op, self.ty, self.args = op, ty, args
        self._h = hash((op, ty, args))

    def __eq__(self, o):
        return isinstance(o, FP) and (self.op, self.ty, self.args) == (o.op, o.ty, o.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s:%s%r' % (self.op, self.ty, self.args)


class Undef:
    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Packed:
    """several memory cells moved by one wide load"""
    __slots__ = ('size', 'cells')

    def __init__(self, size, cells):
        self.size, self.cells = size, tuple(cells)

    def __eq__(self, o):
        return isinstance(o, Packed) and (self.size, self.cells) == (o.size, o.cells)

    def __hash__(self):
        return hash((self.size, self.cells))

    def __repr__(self):
        return 'packed%r' % (self.cells,)


class Agg:
    __slots__ = ('els',)

    def __init__(self, els):
        self.els = tuple(els)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.els == o.els

    def __hash__(self):
        return hash(self.els)

    def __repr__(self):
        return 'agg%r' % (self.els,)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Mem:
    """offset -> (size, value); kept sorted on demand"""
    __slots__ = ('cells', 'const', 'size')

    def __init__(self, cells=None, const=False, size=None):
        self.cells, self.const, self.size = cells or {}, const, size

    def copy(self):
        return Mem(dict(self.cells), self.const, self.size)

    def __eq__(self, o):
        return self.cells == o.cells

    def __hash__(self):
        return hash(frozenset(self.cells.items()))


class State:
    __slots__ = ('ctx', 'mem', 'trace', 'log', 'user')

    def __init__(self, ctx=None):
        self.ctx = ctx or Ctx()
        self.mem = {}
        self.trace = ()
        self.log = ()
        self.user = None

    def copy(self):
        s = State.__new__(State)
        s.ctx = self.ctx.copy()
        s.mem = dict(self.mem)
        s.trace = self.trace
        s.log = self.log
        s.user = self.user
        return s

    def with_ctx(self, ctx):
        s = self.copy()
        s.ctx = ctx
        return s


MAXSTATES = 6000


class Interp:
    def __init__(self, mod, width=32, unsigned=False, log=False, handlers=None,
                 max_visits=400, max_steps=400000, steps_per_fn=None):
        self.mod = mod
        self.W = width
        self.unsigned = unsigned
        self.keep_log = log
        self.handlers = handlers or {}
        self.stops = []           # (kind, text, where, state)
        self.steps = 0
        self.max_steps = max_steps
        self.forbid = ()
        self.max_visits = max_visits
        self.functions = set()    # demangled names analysed
        self.sites = set()
        self.ops = set()          # all arithmetic results (width, poly)
        self.cur_dbg = None
        self.depth = 0
        self.loopvisits = 0
        self.callstack = []
        self.live_cache = {}
        self.partial = False      # something was not analysed
        self.notes = []
        self.holes = []           # regions given up: (reason, where, state)
        self.path = False         # keep the branch trace (no merging)

    # -- memory -----------------------------------------------------------
    def obj_for_global(self, st, name):
        oid = ('g', name)
        if oid in st.mem:
            return oid
        if name in self.mod.funcs or name in self.mod.decls:
            return None
        if name not in self.mod.globals:
            raise Unsupported('global ' + name)
        t, v, const = self.mod.global_init(name)
        if v is None or not const:
            h = self.handlers.get('global:' + name)
            if h is None:
                st.mem[oid] = Mem({}, False)
                return oid
        cells = {}
        self.init_cells(st, t, v, 0, cells)
        st.mem[oid] = Mem(cells, True)
        return oid

    def init_cells(self, st, t, v, off, cells):
        t = self.mod.types.resolve(t)
        k = v[0]
        if k == 'zero':
            for o, lt in self.mod.types.leaves(t):
                cells[off + o] = (self.mod.types.size(lt), self.zero_of(lt))
            return
        if k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, C(b - 256 if b > 127 else b))
            return
        if k == 'agg':
            for i, (et, e) in enumerate(v[1]):
                o, _ = self.mod.types.field_offset(t, i)
                self.init_cells(st, et, e, off + o, cells)
            return
        cells[off] = (self.mod.types.size(t), self.operand(st, {}, v, t))

    def zero_of(self, t):
        if t[0] == 'i':
            return ZERO
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'f':
            return FP('const', t[1], ('0x0',))
        raise Unsupported('zero of %r' % (t,))

    def load(self, st, ptr, ty):
        if not isinstance(ptr, Ptr):
            raise Unsupported('load through %r' % (ptr,))
        if ptr.obj is None:
            raise Stop('null dereference', '')
        ty = self.mod.types.resolve(ty)
        if ty[0] in ('st', 'arr'):
            els = []
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            for i in range(n):
                o, f = self.mod.types.field_offset(ty, i)
                els.append(self.load(st, Ptr(ptr.obj, ptr.off + o), f))
            return Agg(els)
        m = st.mem.get(ptr.obj)
        if m is None:
            raise Unsupported('load from unknown object %r' % (ptr.obj,))
        n = self.mod.types.size(ty)
        if m.size is not None and not (0 <= ptr.off and ptr.off + n <= m.size):
            raise Stop('read out of bounds', '%d bytes at offset %d of an object of %d' % (n, ptr.off, m.size))
        c = m.cells.get(ptr.off)
        if c is not None and c[0] == n:
            v = c[1]
            return self.retype(st, v, ty)
        lo, hi = ptr.off, ptr.off + n
        parts = []
        for o, (s, v) in m.cells.items():
            if o < hi and o + s > lo:
                if o < lo or o + s > hi:
                    if isinstance(v, Poly) and v.is_const() and ty[0] == 'i' and o <= lo and o + s >= hi:
                        return self.const_bytes(v, lo - o, n)
                    if isinstance(v, Poly) and ty[0] == 'i' and o <= lo and o + s >= hi:
                        y = mk_floor_div_pow2(st.ctx, v, 8 * (lo - o))
                        return mk_trunc(st.ctx, y, 8 * n)
                    if isinstance(v, Poly) and v.is_const():
                        l2, h2 = max(o, lo), min(o + s, hi)
                        parts.append((l2 - lo, h2 - l2, self.const_bytes(v, l2 - o, h2 - l2)))
                        continue
                    raise Unsupported('partial load')
                parts.append((o - lo, s, v))
        parts.sort(key=lambda x: x[0])
        if not parts:
            return UNDEF
        if all(isinstance(p[2], Poly) and p[2].is_const() for p in parts) and ty[0] == 'i' \
                and sum(p[1] for p in parts) == n:
            x = 0
            for o, s, v in parts:
                x |= (v.const() & ((1 << (8 * s)) - 1)) << (8 * o)
            if x >= 1 << (8 * n - 1):
                x -= 1 << (8 * n)
            return C(x)
        return Packed(n, parts)

    def const_bytes(self, v, off, n):
        """n bytes of a constant cell as a value of the analysed number type"""
        x = (v.const() >> (8 * off)) & ((1 << (8 * n)) - 1)
        if not self.unsigned and x >> (8 * n - 1):
            x -= 1 << (8 * n)
        return C(x)

    def retype(self, st, v, ty):
        if ty[0] == 'i' and isinstance(v, FP):
            if v.op == 'bits':
                return v.args[0]
            raise Unsupported('bits of a floating-point term')
        if ty[0] == 'f' and isinstance(v, Poly):
            return FP('bits', ty[1], (v,))
        if ty[0] == 'ptr' and isinstance(v, Poly) and v == ZERO:
            return NULL
        return v

    def store(self, st, ptr, v, ty):
        if not isinstance(ptr, Ptr):
            raise Unsupported('store through %r' % (ptr,))
        if ptr.obj is None:
            raise Stop('null dereference', '')
        ty = self.mod.types.resolve(ty)
        if isinstance(v, Agg):
            for i, e in enumerate(v.els):
                o, f = self.mod.types.field_offset(ty, i)
                self.store(st, Ptr(ptr.obj, ptr.off + o), e, f)
            return
        m = st.mem.get(ptr.obj)
        if m is None:
            raise Unsupported('store to unknown object')
        if m.const:
            raise Unsupported('store to a constant')
        if ptr.obj[0] == 'g':
            st.trace = st.trace + (('global-write', ptr.obj[1]),)
        m = m.copy()
        st.mem[ptr.obj] = m
        if isinstance(v, Packed):
            self.clear(m, ptr.off, v.size)
            for o, s, x in v.cells:
                m.cells[ptr.off + o] = (s, x)
            return
        n = self.mod.types.size(ty)
        self.clear(m, ptr.off, n)
        if isinstance(v, Undef):
            return
        m.cells[ptr.off] = (n, v)

    def clear(self, m, off, n):
        for o in [o for o, (s, _) in m.cells.items() if o < off + n and o + s > off]:
            s, v = m.cells[o]
            if o < off or o + s > off + n:
                if not (isinstance(v, Poly) and v.is_const()):
                    raise Unsupported('partial overwrite')
                del m.cells[o]
                if o < off:
                    m.cells[o] = (off - o, self.const_bytes(v, 0, off - o))
                if o + s > off + n:
                    k = off + n - o
                    m.cells[off + n] = (s - k, self.const_bytes(v, k, s - k))
                continue
            del m.cells[o]

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        sm = st.mem.get(src.obj)
        if sm is None or dst.obj not in st.mem:
            raise Unsupported('memcpy of unknown object')
        if sm.size is not None and not (0 <= src.off and src.off + n <= sm.size):
            raise Stop('read out of bounds', '%d bytes at offset %d of an object of %d' % (n, src.off, sm.size))
        cells = []
        for o, (s, v) in sm.cells.items():
            if o < src.off + n and o + s > src.off:
                if o < src.off or o + s > src.off + n:
                    if not (isinstance(v, Poly) and v.is_const()):
                        raise Unsupported('memcpy splits a cell')
                    lo, hi = max(o, src.off), min(o + s, src.off + n)
                    v, o, s = self.const_bytes(v, lo - o, hi - lo), lo, hi - lo
                cells.append((o - src.off, s, v))
        m = st.mem[dst.obj].copy()
        st.mem[dst.obj] = m
        self.clear(m, dst.off, n)
        for o, s, v in cells:
            m.cells[dst.off + o] = (s, v)

    # -- operands -----------------------------------------------------------
    def operand(self, st, regs, v, ty):
        k = v[0]
        if k == 'r':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        if k == 'c':
            return C(v[1])
        if k == 'g':
            if v[1] in self.mod.funcs or v[1] in self.mod.decls:
                return Fn(v[1])
            return Ptr(self.obj_for_global(st, v[1]), 0)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            t = self.mod.types.resolve(ty)
            if t[0] in ('st', 'arr'):
                n = len(t[1]) if t[0] == 'st' else t[1]
                return Agg([self.operand(st, regs, v, self.mod.types.field_offset(t, i)[1]) for i in range(n)])
            return self.zero_of(t)
        if k == 'agg':
            return Agg([self.operand(st, regs, e, et) for et, e in v[1]])
        if k == 'fc':
            return FP('const', ty[1], (v[1],))
        if k == 'gep':
            return self.gep(st, regs, v[1], v[2], v[3])
        if k == 'cexpr':
            x = self.operand(st, regs, v[3], v[2])
            if v[1] in ('bitcast', 'addrspacecast') or isinstance(x, Ptr):
                return x
            raise Unsupported('constant expression')
        raise Unsupported('operand %r' % (v,))

    def gep(self, st, regs, t, base, idx):
        b = self.operand(st, regs, base, ('ptr',))
        if not isinstance(b, Ptr):
            raise Unsupported('gep on %r' % (b,))
        off = b.off
        cur = t
        for n, (it, iv) in enumerate(idx):
            i = st.ctx.norm(self.as_poly(self.operand(st, regs, iv, it)))
            if not i.is_const():
                i = self.enumerate(st, i)
                if i is None:
                    raise Unsupported('symbolic index')
            i = i.const()
            if it[0] == 'i' and i >= 1 << (it[1] - 1):
                i -= 1 << it[1]
            if n == 0:
                off += i * self.mod.types.size(cur)
            else:
                cur = self.mod.types.resolve(cur)
                if cur[0] == 'st':
                    o, cur = self.mod.types.field_offset(cur, i)
                    off += o
                else:
                    off += i * self.mod.types.size(cur[2])
                    cur = cur[2]
        return Ptr(b.obj, off)

    def enumerate(self, st, p):
        """split until the value of a linear expression with a small range is known"""
        if p.is_const():
            return p
        ats = p.atoms()
        if len(ats) != 1 or len(p.t) > 2 or any(len(m) > 1 or (m and m[0][1] != 1) for m in p.t):
            return None
        (a,) = ats
        lo, hi, ex = st.ctx.interval(a)
        if hi - lo > 4096:
            return None
        mid = (lo + hi) // 2
        s = st.ctx.sign(V(a) - C(mid))
        if s == 0:
            return None
        raise Unsupported('enumeration')

    def as_poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Packed) and len(v.cells) == 1 and v.cells[0][0] == 0 and isinstance(v.cells[0][2], Poly):
            raise Unsupported('padded integer')
        if isinstance(v, Undef):
            raise Stop('use of an indeterminate value', '')
        raise Unsupported('integer expected, got %r' % (v,))

    # -- integer views ------------------------------------------------------
    def signed(self, st, p, bits):
        p = st.ctx.norm(p)
        lo, hi = st.ctx.poly_interval(p)
        if hi < 1 << (bits - 1) and lo >= -(1 << (bits - 1)):
            return p
        if p.is_const():
            x = p.const() % (1 << bits)
            return C(x - (1 << bits) if x >> (bits - 1) else x)
        if lo >= 0 and hi < 1 << bits and hi < dom.INF and (bits < self.W or self.unsigned and bits == self.W or self.structured(p)):
            # an unsigned representative that may have its top bit set
            q = p - C(1 << (bits - 1))
            return p if st.ctx.sign(q) < 0 else p - C(1 << bits)
        if self.unsigned and bits == self.W:
            # an unsigned value, which the proviso bounds by the type, read as a signed one
            q = p - C(1 << (bits - 1))
            return p if st.ctx.sign(q) < 0 else p - C(1 << bits)
        return p          # the proviso: the mathematical value fits

    def structured(self, p):
        return any(dom.A.kind[a] in ('TR', 'OP') for a in p.atoms())

    def unsigned_view(self, st, p, bits):
        p = st.ctx.norm(p)
        if p.is_const():
            return C(p.const() % (1 << bits))
        s = st.ctx.signs(p)
        if -1 not in s:
            return p
        if st.ctx.sign(p) >= 0:
            return p
        if self.unsigned and bits == self.W:
            raise Drop()
        return p + C(1 << bits)

    # -- running ----------------------------------------------------------
    def run(self, name, args, st):
        """all final states of function `name`: [(state, ret)]"""
        return self.call_function(name, args, st, ('t',))

    def rpo(self, f):
        if hasattr(f, '_rpo'):
            return f._rpo
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1] if ins else None
            s = []
            if t is not None:
                if t.op == 'br':
                    s = [x for x in t.a[1:] if x]
                elif t.op == 'switch':
                    s = [t.a[2]] + [x for _, x in t.a[3]]
                elif t.op == 'invoke':
                    s = [t.a[2]]
            succ[b] = s
        order, seen = [], set()
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        seen.add(f.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        f._rpo = {b: i for i, b in enumerate(order)}
        # liveness of SSA values at block entry
        use, defs = {}, {}
        phiuse = {}
        for b, ins in f.blocks.items():
            u, d = set(), set()
            for i in ins:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, lab in i.a:
                        if v[0] == 'r':
                            phiuse.setdefault(lab, set()).add(v[1])
                    continue
                for r in regs_of(i.a):
                    if r not in d:
                        u.add(r)
                if i.res:
                    d.add(i.res)
            use[b], defs[b] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse.get(b, ()))
                for s in succ[b]:
                    out |= live[s]
                n = use[b] | (out - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        f._live = live
        f._phidef = {b: [i for i in ins if i.op == 'phi'] for b, ins in f.blocks.items()}
        return f._rpo

    def call_function(self, name, args, st, frame):
        f = self.mod.funcs[name].parse()
        if self.depth > 120:
            raise Unsupported('call depth')
        self.functions.add(name)
        self.depth += 1
        self.callstack.append(name)
        try:
            return self._run_function(f, args, st, frame)
        finally:
            self.depth -= 1
            self.callstack.pop()

    def _run_function(self, f, args, st, frame):
        rpo = self.rpo(f)
        regs = {}
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                oid = ('byval', frame, nm)
                n = self.mod.types.size(at['byval'])
                st = st.copy()
                st.mem[oid] = Mem({})
                self.memcpy(st, Ptr(oid, 0), v, n)
                v = Ptr(oid, 0)
            regs[nm] = v
        pend = {f.order[0]: [(None, regs, st)]}
        visits = {}
        rets = []
        entrykeys = set(st.mem)
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            group = pend.pop(b)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > self.max_visits:
                for _, _, s in group:
                    self.holes.append(('loop bound', f.name, s))
                continue
            group = self.enter(f, b, group)
            for regs, s in group:
                for kind, payload, s2, regs2 in self.run_block(f, b, regs, s, frame):
                    if kind == 'goto':
                        pend.setdefault(payload, []).append((b, regs2, s2))
                    elif kind == 'ret':
                        rets.append((s2, payload))
            if sum(len(x) for x in pend.values()) + len(rets) > MAXSTATES:
                for g in pend.values():
                    for _, _, s in g:
                        self.holes.append(('too many disjuncts', f.name, s))
                pend = {}
        # dead locals
        out = []
        for s, r in rets:
            s2 = s.copy()
            for k in [k for k in s2.mem if k not in entrykeys and k[0] in ('a', 'byval') and k[1][:len(frame)] == frame]:
                if not points_to(r, k):
                    del s2.mem[k]
            out.append((s2, r))
        return self.merge_rets(out)

    def merge_rets(self, rets):
        groups = {}
        for s, r in rets:
            groups.setdefault((r, frozenset(s.mem.items()), s.trace, s.log, s.user), []).append(s)
        out = []
        for (r, *_), ss in groups.items():
            for s in self.join_list(ss):
                out.append((s, r))
        return out

    def join_list(self, ss):
        """exact joins of states that differ only in their context"""
        if len(ss) == 1:
            return ss
        ss = list(ss)
        changed = True
        while changed and len(ss) > 1:
            changed = False
            i = 0
            while i < len(ss):
                j = i + 1
                while j < len(ss):
                    c = ss[i].ctx.exact_join(ss[j].ctx)
                    if c is not None:
                        ss[i] = ss[i].with_ctx(c)
                        del ss[j]
                        changed = True
                    else:
                        j += 1
                i += 1
        return ss

    def enter(self, f, b, group):
        live = f._live[b]
        phis = f._phidef[b]
        res = []
        for prev, regs, s in group:
            n = {k: v for k, v in regs.items() if k in live}
            for p in phis:
                for v, lab in p.a:
                    if lab == prev:
                        n[p.res] = self.operand(s, regs, v, p.ty)
                        break
            res.append((n, s))
        if len(res) == 1:
            return res
        groups = {}
        for n, s in res:
            groups.setdefault((frozenset(n.items()), frozenset(s.mem.items()), s.trace, s.log, s.user), []).append((n, s))
        out = []
        for g in groups.values():
            for s in self.join_list([s for _, s in g]):
                out.append((g[0][0], s))
        return out

    def run_block(self, f, b, regs, st, frame):
        """yields ('goto', block, state, regs) / ('ret', value, state, regs)"""
        ins = f.blocks[b]
        start = 0
        while start < len(ins) and ins[start].op == 'phi':
            start += 1
        work = [(start, dict(regs), st)]
        out = []
        while work:
            i, regs, st = work.pop()
            while True:
                x = ins[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('analysis budget')
                if x.dbg:
                    self.cur_dbg = x.dbg
                op = x.op
                try:
                    if op == 'br':
                        c, a, bb = x.a
                        if c is None:
                            out.append(('goto', a, st, regs))
                        else:
                            v = st.ctx.norm(self.as_poly(self.operand(st, regs, c, ('i', 1))))
                            t = self.truth(st, v)
                            if self.path:
                                st = st.copy()
                                st.trace = st.trace + ((self.where(x, f), bool(t)),)
                            out.append(('goto', a if t else bb, st, regs))
                        break
                    if op == 'ret':
                        v = None if x.a is None else self.operand(st, regs, x.a, x.ty)
                        out.append(('ret', v, st, regs))
                        break
                    if op == 'switch':
                        t, v, d, cases = x.a
                        p = st.ctx.norm(self.as_poly(self.operand(st, regs, v, t)))
                        tgt = d
                        if t[1] == 1:
                            for cv, lab in cases:
                                if self.truth(st, p) == (cv & 1):
                                    tgt = lab
                                    break
                        else:
                            # runs of consecutive values with one destination, in ascending order
                            runs = []
                            for cv, lab in sorted(cases):
                                if runs and runs[-1][1] == cv - 1 and runs[-1][2] == lab:
                                    runs[-1][1] = cv
                                else:
                                    runs.append([cv, cv, lab])
                            sp = self.signed(st, p, t[1])

                            def below(d):
                                sg = st.ctx.signs(d)
                                return sg == {-1} or -1 in sg and st.ctx.sign(d) < 0
                            for lo, hi, lab in runs:
                                if len(runs) == 1 and lo == hi:
                                    if not st.ctx.nonzero(sp - C(lo)):
                                        tgt = lab
                                elif below(sp - C(lo)):
                                    break
                                elif not below(C(hi) - sp):
                                    tgt = lab
                                    break
                        out.append(('goto', tgt, st, regs))
                        break
                    if op == 'unreachable':
                        raise Stop('unreachable', 'control flows off the end or a noreturn call')
                    if op in ('call', 'invoke'):
                        dbg = x.dbg
                        rs = self.call(f, x, regs, st, frame)
                        first = True
                        nxt = []
                        for s2, rv in rs:
                            r2 = dict(regs)
                            if x.res is not None:
                                r2[x.res] = rv
                            nxt.append((r2, s2))
                        if op == 'invoke':
                            for r2, s2 in nxt:
                                out.append(('goto', x.a[2], s2, r2))
                            break
                        if not nxt:
                            break
                        for r2, s2 in nxt[1:]:
                            work.append((i + 1, r2, s2))
                        regs, st = nxt[0]
                        i += 1
                        continue
                    if op == 'store':
                        st = st.copy()
                        t, v, p = x.a
                        self.store(st, self.operand(st, regs, p, ('ptr',)), self.operand(st, regs, v, t), t)
                    elif op == 'alloca':
                        st = st.copy()
                        oid = ('a', frame, x.res)
                        st.mem[oid] = Mem({})
                        regs[x.res] = Ptr(oid, 0)
                    else:
                        regs[x.res] = self.eval(f, x, regs, st)
                    i += 1
                except NeedSplit as e:
                    cs = st.ctx.split(e.poly)
                    if not cs:
                        break
                    for c in cs[1:]:
                        work.append((i, dict(regs), st.with_ctx(c)))
                    st = st.with_ctx(cs[0])
                    regs = dict(regs)
                except Infeasible:
                    break
                except Drop:
                    break
                except Stop as e:
                    self.stops.append((e.kind, e.text, self.where(x, f), st))
                    break
                except Unsupported as e:
                    if str(e) == 'analysis budget':
                        raise
                    self.holes.append((str(e), self.where(x, f), st))
                    break
        return out

    def where(self, x, f):
        return self.mod.where(x.dbg or self.cur_dbg)

    def uid(self, f, x):
        ids = getattr(f, '_ids', None)
        if ids is None:
            f._ids = ids = {}
            for ins in f.blocks.values():
                for i in ins:
                    ids[id(i)] = len(ids)
        return ids[id(x)]

    def truth(self, st, v):
        if v.is_const():
            return v.const() & 1
        return 1 if st.ctx.nonzero(v) else 0

    # -- calls ------------------------------------------------------------
    def call(self, f, x, regs, st, frame):
        callee, args = x.a[0], x.a[1]
        if callee == 'asm':
            raise Unsupported('inline assembly')
        if callee[0] == 'g':
            name = callee[1]
        else:
            v = self.operand(st, regs, callee, ('ptr',))
            if isinstance(v, Fn):
                name = v.name
            else:
                raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            return self.intrinsic(f, x, name, regs, st)
        vals = []
        for t, v, at in args:
            vals.append(None if v is None else self.operand(st, regs, v, t))
        for key, h in self.handlers.items():
            if key == name or (key.endswith('*') and name.startswith(key[:-1])):
                r = h(self, st, vals, x)
                if r is not NotImplemented:
                    return r
        r = self.builtin(name, vals, st, x)
        if r is not NotImplemented:
            return r
        if name in self.mod.funcs:
            return self.call_function(name, vals, st, frame + (x.res or ('v', self.uid(f, x)),))
        raise Unsupported('external function ' + name)

    def builtin(self, name, vals, st, x):
        if name.startswith('_ZSt3gcdI') or name.startswith('_ZSt3lcmI'):
            if 'gcd' in self.forbid:
                raise Stop('hidden work', 'a greatest common divisor or least common multiple')
            a, b = self.as_poly(vals[0]), self.as_poly(vals[1])
            bits = x.ty[1]
            r = (mk_gcd if 'gcd' in name[:8] else mk_lcm)(st.ctx, a, b)
            if 'lcm' in name[:8] and bits >= self.W:
                self.record(st, r, bits, x, 'lcm')
            return [(st, r)]
        if name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '__assert_fail', '__cxa_throw',
                    '_ZSt17__throw_bad_allocv') or name.startswith('_ZSt24__throw') or \
                name.startswith('_ZSt20__throw') or name.startswith('_ZSt19__throw') or '__throw_' in name:
            raise Stop('throw' if 'throw' in name else 'abort', name)
        if name in ('__cxa_allocate_exception',):
            raise Stop('throw', name)
        if name == 'memchr' or name == '__builtin_memchr':
            p, c, n = vals[0], st.ctx.norm(self.as_poly(vals[1])), st.ctx.norm(self.as_poly(vals[2]))
            if not n.is_const():
                raise Unsupported('memchr length')
            for i in range(n.const()):
                ch = self.load(st, Ptr(p.obj, p.off + i), ('i', 8))
                if not st.ctx.nonzero(self.signed(st, self.as_poly(ch), 8) - self.signed(st, c, 8)):
                    return [(st, Ptr(p.obj, p.off + i))]
            return [(st, NULL)]
        if name in ('memcmp', '__builtin_memcmp', 'bcmp'):
            p, q, n = vals[0], vals[1], st.ctx.norm(self.as_poly(vals[2]))
            if not n.is_const():
                raise Unsupported('memcmp length')
            for i in range(n.const()):
                a = self.as_poly(self.load(st, Ptr(p.obj, p.off + i), ('i', 8)))
                b = self.as_poly(self.load(st, Ptr(q.obj, q.off + i), ('i', 8)))
                d = self.unsigned_view8(st, a) - self.unsigned_view8(st, b)
                s = st.ctx.sign(d)
                if s:
                    return [(st, C(s))]
            return [(st, ZERO)]
        if name == 'strlen':
            p = vals[0]
            i = 0
            while True:
                ch = self.as_poly(self.load(st, Ptr(p.obj, p.off + i), ('i', 8)))
                if not st.ctx.nonzero(ch):
                    return [(st, C(i))]
                i += 1
                if i > 200:
                    raise Unsupported('strlen')
        return NotImplemented

    def unsigned_view8(self, st, p):
        p = st.ctx.norm(p)
        return p if st.ctx.sign(p) >= 0 else p + C(256)

    def intrinsic(self, f, x, name, regs, st):
        args = x.a[1]
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental', 'llvm.assume', 'llvm.prefetch')):
            return [(st, None)]
        V_ = lambda i: self.operand(st, regs, args[i][1], args[i][0])
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = st.ctx.norm(self.as_poly(V_(2)))
            if not n.is_const():
                raise Unsupported('memcpy length')
            st = st.copy()
            self.memcpy(st, V_(0), V_(1), n.const())
            return [(st, None)]
        if name.startswith('llvm.memset'):
            n = st.ctx.norm(self.as_poly(V_(2)))
            v = st.ctx.norm(self.as_poly(V_(1)))
            if not n.is_const() or v != ZERO:
                raise Unsupported('memset')
            st = st.copy()
            p = V_(0)
            m = st.mem[p.obj].copy()
            st.mem[p.obj] = m
            self.clear(m, p.off, n.const())
            k = 8 if n.const() % 8 == 0 else (4 if n.const() % 4 == 0 else 1)
            for o in range(0, n.const(), k):
                m.cells[p.off + o] = (k, ZERO)
            return [(st, None)]
        if name.startswith('llvm.abs'):
            p = self.signed(st, self.as_poly(V_(0)), x.ty[1])
            return [(st, mk_abs(st.ctx, p))]
        m = re.match(r'llvm\.([su])(min|max)\.', name)
        if m:
            view = self.signed if m.group(1) == 's' else self.unsigned_view
            a, b = view(st, self.as_poly(V_(0)), x.ty[1]), view(st, self.as_poly(V_(1)), x.ty[1])
            s = st.ctx.sign(a - b)
            return [(st, a if (s < 0) == (m.group(2) == 'min') else b)]
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow', name)
        if m:
            a, b = self.as_poly(V_(0)), self.as_poly(V_(1))
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(2)]
            return [(st, Agg([r, ZERO]))]
        if name.startswith('llvm.is.fpclass'):
            return [(st, self.fpclass(st, V_(0), self.as_poly(V_(1)).const()))]
        if name.startswith('llvm.fabs'):
            k, p = self.real(st, V_(0))
            if k == 'nan' or (k == 'real' and st.ctx.sign(p) >= 0) or (k == 'inf' and p > 0):
                return [(st, V_(0))]
            return [(st, FP('fneg', x.ty[1], (V_(0),)))]
        if name.startswith('llvm.expect'):
            return [(st, V_(0))]
        if name.startswith('llvm.trap'):
            raise Stop('trap', name)
        if name.startswith('llvm.is.constant'):
            return [(st, ZERO)]
        raise Unsupported('intrinsic ' + name)

    # -- plain instructions -----------------------------------------------
    def record(self, st, p, bits, x, op):
        if bits >= 16 and not p.is_const():
            self.ops.add((bits, p))
            if self.keep_log:
                st.log = st.log + ((op, bits, p, x.dbg),)

    def eval(self, f, x, regs, st):
        op = x.op
        if op == 'load':
            return self.load(st, self.operand(st, regs, x.a, ('ptr',)), x.ty)
        if op == 'getelementptr':
            return self.gep(st, regs, *x.a)
        if op == 'bin':
            return self.binop(x, regs, st)
        if op == 'icmp':
            return self.icmp(x, regs, st)
        if op == 'cast':
            return self.cast(x, regs, st)
        if op == 'select':
            c, a, b = x.a
            t = self.truth(st, st.ctx.norm(self.as_poly(self.operand(st, regs, c, ('i', 1)))))
            return self.operand(st, regs, a if t else b, x.ty)
        if op == 'freeze':
            return self.operand(st, regs, x.a, x.ty)
        if op == 'extractvalue':
            t, v, idx = x.a
            a = self.operand(st, regs, v, t)
            for i in idx:
                if not isinstance(a, Agg):
                    if isinstance(a, Undef):
                        return UNDEF
                    raise Unsupported('extractvalue')
                a = a.els[i]
            return a
        if op == 'insertvalue':
            t, v, t2, v2, idx = x.a
            a = self.operand(st, regs, v, t)
            e = self.operand(st, regs, v2, t2)
            return self.insert(a, e, idx, t)
        if op == 'fcmp':
            pred, t, va, vb = x.a
            return self.fcmp(st, pred, self.operand(st, regs, va, t), self.operand(st, regs, vb, t))
        if op == 'fneg':
            v = self.operand(st, regs, x.a, x.ty)
            return FP('fneg', x.ty[1], (v,))
        if op in ('landingpad', 'resume'):
            raise Stop('unwind', '')
        if op == 'unsupported':
            raise Unsupported('instruction ' + str(x.a))
        raise Unsupported(op)

    def insert(self, a, e, idx, t):
        t = self.mod.types.resolve(t)
        n = len(t[1]) if t[0] == 'st' else t[1]
        els = list(a.els) if isinstance(a, Agg) else [UNDEF] * n
        if len(idx) == 1:
            els[idx[0]] = e
        else:
            els[idx[0]] = self.insert(els[idx[0]], e, idx[1:], self.mod.types.field_offset(t, idx[0])[1])
        return Agg(els)

    def binop(self, x, regs, st):
        op, va, vb, flags = x.a
        ctx = st.ctx
        a = self.operand(st, regs, va, x.ty)
        b = self.operand(st, regs, vb, x.ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return FP(op, x.ty[1], (a, b))
        bits = x.ty[1]
        if isinstance(a, Packed) or isinstance(b, Packed):
            return self.packed_bin(op, a, b, st, bits)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj:
            return C(a.off - b.off)
        a, b = ctx.norm(self.as_poly(a)), ctx.norm(self.as_poly(b))
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if bits <= 8:
                return C(r.const() % (1 << bits)) if r.is_const() else r
            if 16 <= bits < self.W and not r.is_const():
                # narrower than the number type: wraps around unless the bounds say otherwise
                lo, hi = ctx.poly_interval(r)
                if lo < -(1 << (bits - 1)) or hi >= 1 << bits:
                    return mk_trunc(ctx, r, bits)
            if bits >= self.W and not r.is_const():
                # a negation is as large as its operand, which is bounded on its own account
                if self.keep_log == 'strict' or self.keep_log and not (op == 'sub' and a.is_const() and not a.t) \
                        and not (op == 'mul' and (a == C(-1) or b == C(-1))):
                    st.log = st.log + ((op, bits, r, x.dbg),)
                self.ops.add((bits, r))
            return r
        if op in ('sdiv', 'srem'):
            a, b = self.signed(st, a, bits), self.signed(st, b, bits)
        if op in ('udiv', 'urem'):
            a, b = self.unsigned_view(st, a, bits), self.unsigned_view(st, b, bits)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if 'division' in self.forbid and not (a.is_const() and b.is_const()):
                raise Stop('hidden work', 'an integer division')
            if not ctx.nonzero(b):
                raise Stop('division by zero', op)
            r = mk_quot(ctx, a, b) if op[1:] == 'div' else mk_rem(ctx, a, b)
            return r
        if op == 'shl':
            if b.is_const():
                if b.const() >= bits:
                    raise Stop('shift out of range', '')
                return a.scale(1 << b.const())
            if 1 not in ctx.signs(b) and 0 not in ctx.signs(b):
                raise Stop('shift out of range', '')
            if a.is_const() or len(a.t) == 1:
                if ctx.sign(b) < 0:
                    if bits >= self.W:
                        pass
                    raise Stop('shift out of range', '')
                return a * mk_pow2(ctx, b)
            raise Unsupported('shl')
        if op in ('lshr', 'ashr'):
            if not b.is_const():
                b = self.enumerate(st, b)
                if b is None:
                    raise Unsupported('symbolic right shift')
            a = self.unsigned_view(st, a, bits) if op == 'lshr' else self.signed(st, a, bits)
            return mk_floor_div_pow2(ctx, a, b.const())
        if bits == 1:
            if a.is_const() and b.is_const():
                p, q = a.const() & 1, b.const() & 1
                return C({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
            if op == 'xor':
                p, q = self.truth(st, a), self.truth(st, b)
                return C(p ^ q)
            if op == 'and':
                return C(self.truth(st, a) & self.truth(st, b))
            return C(self.truth(st, a) | self.truth(st, b))
        if op == 'and':
            for p, q in ((a, b), (b, a)):
                if q.is_const():
                    m = q.const() % (1 << bits)
                    if m == 0:
                        return ZERO
                    if m & (m + 1) == 0:
                        k = m.bit_length()
                        if k == bits:
                            return p
                        if not self.fits_lin(p):
                            break
                        return p - mk_floor_div_pow2(ctx, p, k).scale(1 << k)
        if op in ('and', 'or', 'xor'):
            if op == 'xor':
                for p, q in ((a, b), (b, a)):
                    if q == C(-1) or q == C((1 << bits) - 1):
                        return -p - ONE
            if op in ('or', 'xor'):
                if a == ZERO:
                    return b
                if b == ZERO:
                    return a
                r = self.disjoint(ctx, a, b)
                if r is not None:
                    return r
            # small non-negative booleans
            if all(ctx.poly_interval(p)[0] >= 0 and ctx.poly_interval(p)[1] <= 1 for p in (a, b)):
                p, q = self.truth(st, a), self.truth(st, b)
                return C({'and': p & q, 'or': p | q, 'xor': p ^ q}[op])
            # signs are represented by mathematical integers: reduce first
            return mk_op(ctx, op, bits, self.cong(ctx, a, bits), self.cong(ctx, b, bits))
        raise Unsupported('binary ' + op)

    def cong(self, ctx, p, bits):
        return p

    def within(self, ctx, p, m):
        """is |p| at most m by what is known about signs? Divisors that are nonzero integers only make it smaller"""
        k, mono, rest = dom.content(p)
        if rest == ONE and len(mono) == 1 and mono[0][1] == 1 and dom.A.kind[mono[0][0]] == 'Q':
            # a truncated quotient is no larger than its dividend
            return self.within(ctx, ctx.norm(dom.A.args[mono[0][0]][0]).scale(k), m)
        q = rest.scale(k)
        for a, e in mono:
            if e > 0:
                q = q * dom.Poly({((a, e),): 1})
            elif 0 in ctx.atom_signs(a) or not dom.integral(ctx, V(a)):
                return False
        return -1 not in ctx.signs(C(m) - q) and -1 not in ctx.signs(q + C(m))

    def fits_lin(self, p):
        return True

    def disjoint(self, ctx, a, b):
        for p, q in ((a, b), (b, a)):
            lo, hi = ctx.poly_interval(p)
            if lo < 0 or hi == dom.INF:
                continue
            k = int(hi).bit_length()
            if all(dom.Fr(c).denominator == 1 and c % (1 << k) == 0 for c in q.t.values()) and \
                    all(e > 0 for m in q.t for _, e in m):
                return p + q
        return None

    def packed_bin(self, op, a, b, st, bits):
        if isinstance(a, Packed) and isinstance(b, Poly) and b.is_const() and op == 'lshr':
            k = b.const() // 8
            if b.const() % 8 == 0:
                cells = [(o - k, s, v) for o, s, v in a.cells if o >= k]
                if all(o + s <= k or o >= k for o, s, v in a.cells):
                    return Packed(a.size, cells)
        raise Unsupported('arithmetic on packed fields')

    def icmp(self, x, regs, st):
        pred, t, va, vb = x.a
        a = self.operand(st, regs, va, t)
        b = self.operand(st, regs, vb, t)
        if t[0] == 'ptr':
            if isinstance(a, Fn) or isinstance(b, Fn):
                eq = a == b
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    d = a.off - b.off
                    r = {'eq': d == 0, 'ne': d != 0, 'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0,
                         'uge': d >= 0, 'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}[pred]
                    return C(int(r))
                eq = False
            else:
                raise Unsupported('pointer comparison')
            if pred == 'eq':
                return C(int(eq))
            if pred == 'ne':
                return C(int(not eq))
            raise Unsupported('pointer order')
        bits = t[1]
        a, b = self.as_poly(a), self.as_poly(b)
        if pred in ('eq', 'ne'):
            a, b = st.ctx.norm(a), st.ctx.norm(b)
            if self.structured(a) or self.structured(b) or bits < self.W:
                # equality modulo 2^bits
                if a.is_const() or b.is_const():
                    other = b if a.is_const() else a
                    lo, hi = st.ctx.poly_interval(other)
                    if lo >= 0:
                        a, b = (C(a.const() % (1 << bits)) if a.is_const() else a,
                                C(b.const() % (1 << bits)) if b.is_const() else b)
                    else:
                        a, b = self.signed(st, a, bits), self.signed(st, b, bits)
            elif a.is_const() or b.is_const():
                c, o = (a, b) if a.is_const() else (b, a)
                if c.const() < 0 and -1 not in st.ctx.signs(o):
                    c = C(c.const() % (1 << bits))
                a, b = c, o
            d = a - b
            nz = st.ctx.nonzero(d)
            return C(int(nz == (pred == 'ne')))
        if pred[0] == 's':
            a, b = self.signed(st, a, bits), self.signed(st, b, bits)
        else:
            a, b = self.unsigned_view(st, a, bits), self.unsigned_view(st, b, bits)
        d = st.ctx.norm(a - b)
        s = st.ctx.signs(d)
        k = pred[1:]
        if k in ('lt', 'ge'):
            if s == {-1}:
                r = True
            elif -1 not in s:
                r = False
            else:
                r = st.ctx.sign(d) < 0
            return C(int(r == (k == 'lt')))
        if s == {1}:
            r = True
        elif 1 not in s:
            r = False
        else:
            r = st.ctx.sign(d) > 0
        return C(int(r == (k == 'gt')))

    def cast(self, x, regs, st):
        op, t, v = x.a
        a = self.operand(st, regs, v, t)
        to = x.ty
        if op in ('bitcast', 'addrspacecast'):
            return self.retype(st, a, to)
        if op == 'inttoptr':
            if isinstance(a, Ptr):
                return a
            raise Unsupported('inttoptr')
        if op == 'ptrtoint':
            if a == NULL:
                return ZERO
            return a
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(a, Packed):
                n = to[1] // 8
                if op == 'trunc':
                    cells = [c for c in a.cells if c[0] < n]
                    if all(c[0] + c[1] <= n for c in cells):
                        if len(cells) == 1 and cells[0][0] == 0 and cells[0][1] == n:
                            return cells[0][2]
                        return Packed(n, cells)
                raise Unsupported('cast of packed fields')
            if isinstance(a, Undef):
                return UNDEF
            if isinstance(a, Ptr):
                raise Unsupported('cast of a pointer')
            a = st.ctx.norm(self.as_poly(a))
        if op == 'trunc':
            bits = to[1]
            if bits == 1:
                lo, hi = st.ctx.poly_interval(a)
                if 0 <= lo and hi <= 1:
                    return a
                return mk_rem_mod2(st.ctx, a)
            if bits >= self.W:
                return a
            lo, hi = st.ctx.poly_interval(a)
            if lo >= -(1 << (bits - 1)) and hi < (1 << bits) or bits >= 16 and self.within(st.ctx, a, (1 << (bits - 1)) - 1):
                return a
            return mk_trunc(st.ctx, a, bits)
        if op == 'sext':
            return self.signed(st, a, t[1])
        if op == 'zext':
            return self.unsigned_view(st, a, t[1])
        if op in ('sitofp', 'uitofp'):
            a = st.ctx.norm(self.as_poly(a))
            a = self.signed(st, a, t[1]) if op[0] == 's' else self.unsigned_view(st, a, t[1])
            return FP('conv', to[1], (a,))
        if op in ('fpext', 'fptrunc'):
            return FP('fpcast', to[1], (a,))
        if op in ('fptosi', 'fptoui'):
            k, p = self.real(st, a)
            if k != 'real':
                raise Unsupported('conversion of a NaN or an infinity to an integer')
            if dom.integral(st.ctx, p):
                return p
            q = 1
            for c in p.t.values():
                q = q * dom.Fr(c).denominator // dom.igcd(q, dom.Fr(c).denominator)
            return mk_quot(st.ctx, p.scale(q), C(q))
        raise Unsupported(op)

    # -- floating-point terms of known value --------------------------------
    def real(self, st, f):
        """('nan', None), ('inf', sign) or ('real', exact value)"""
        if not isinstance(f, FP) or f.ty not in PRECISION:
            raise Unsupported('value of a floating-point term')
        n, prec = PRECISION[f.ty]
        if f.op == 'bits':
            p = st.ctx.norm(f.args[0])
            lo, hi = st.ctx.poly_interval(p)
            if lo == -dom.INF or hi == dom.INF or (lo >> n) != (hi >> n):
                raise Unsupported('unknown bit pattern')
            mb = prec - 1
            top = (lo % (1 << n)) >> mb
            if (hi % (1 << n)) >> mb != top:
                raise Unsupported('unknown exponent bits')
            m = p - C(((lo >> n) << n) + (top << mb))
            eb = n - 1 - mb
            e, s = top & ((1 << eb) - 1), (-1 if top >> eb else 1)
            bias = (1 << (eb - 1)) - 1
            if e == (1 << eb) - 1:
                if st.ctx.nonzero(m):
                    return 'nan', None
                return 'inf', s
            if e:
                m = m + C(1 << mb)
            return 'real', m.scale(dom.fr(dom.Fr(2) ** (max(e, 1) - bias - mb) * s))
        if f.op == 'conv':
            return 'real', dom.mk_round(st.ctx, f.args[0], prec)
        if f.op == 'fneg':
            k, p = self.real(st, f.args[0])
            return k, (None if k == 'nan' else -p)
        if f.op == 'fpcast':
            k, p = self.real(st, f.args[0])
            if k != 'real' or PRECISION[f.args[0].ty][1] <= prec:
                return k, p
            if dom.integral(st.ctx, p) and n > 16:
                return k, dom.mk_round(st.ctx, p, prec)
            raise Unsupported('rounding of a fractional floating-point value')
        if f.op == 'const':
            t = f.args[0]
            try:
                v = struct.unpack('<d', int(t, 16).to_bytes(8, 'little'))[0] if t.startswith('0x') else float(t)
            except (ValueError, OverflowError):
                raise Unsupported('floating-point constant')
            if v != v:
                return 'nan', None
            if v in (dom.INF, -dom.INF):
                return 'inf', (1 if v > 0 else -1)
            return 'real', C(dom.fr(dom.Fr(v)))
        raise Unsupported('value of a floating-point term')

    def fcmp(self, st, pred, f, g):
        if pred in ('true', 'false'):
            return C(int(pred == 'true'))
        (kf, p), (kg, q) = self.real(st, f), self.real(st, g)
        if kf == 'nan' or kg == 'nan':
            return C(int(pred[0] == 'u'))
        if pred in ('ord', 'uno'):
            return C(int(pred == 'ord'))
        if kf == 'real' and kg == 'real':
            s = st.ctx.sign(p - q)
        else:
            a, b = (p if kf == 'inf' else 0), (q if kg == 'inf' else 0)
            s = (a > b) - (a < b)
        return C(int({'eq': s == 0, 'ne': s != 0, 'gt': s > 0, 'ge': s >= 0, 'lt': s < 0, 'le': s <= 0}[pred[1:]]))

    def fpclass(self, st, f, mask):
        k, p = self.real(st, f)
        if k == 'nan':
            want = 3
        elif k == 'inf':
            want = 512 if p > 0 else 4
        else:
            want = 0x1f8
        if mask & want not in (0, want):
            raise Unsupported('class of a floating-point value')
        return C(int(mask & want != 0))


PRECISION = {'float': (32, 24), 'double': (64, 53)}


def mk_rem_mod2(ctx, a):
    return a - mk_floor_div_pow2(ctx, a, 1).scale(2)


def points_to(v, oid):
    if isinstance(v, Ptr):
        return v.obj == oid
    if isinstance(v, Agg):
        return any(points_to(e, oid) for e in v.els)
    if isinstance(v, Packed):
        return any(points_to(e[2], oid) for e in v.cells)
    return False


def regs_of(a):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == 'r' and isinstance(a[1], str):
            yield a[1]
            return
        for e in a:
            yield from regs_of(e)
    elif isinstance(a, list):
        for e in a:
            yield from regs_of(e)
