"""Proof obligations over the abstract semantics of a compiled driver.

An obligation names one function of a driver translation unit, the abstract
inputs, a precondition and a predicate over the abstract outputs.  It is
discharged when the predicate holds in every disjunct of the function's
abstract final state, refuted when it fails in a disjunct that is not empty
(a point of its concretisation is exhibited and re-evaluated in the abstract
terms), and undecided otherwise.
"""
import os
import random
import re
import shutil
import subprocess
import tempfile
import time
import itertools
import traceback
import dom
import llir
from dom import C, V, ONE, ZERO, Poly, Ctx, NeedSplit, Infeasible, Unsupported, Fr
from interp import Interp, State, Mem, Ptr, FP, Agg, Fn, UNDEF, Packed, Drop, Stop

REPO = os.environ.get('IEME_REPO', '/repo')
CXX = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt'
BASE = ['-std=c++20', '-I' + REPO + '/include', '-Wno-c++11-narrowing']
GXX = '/usr/bin/g++'

# name -> (C++ type, bits, unsigned)
REPS = {
    'i8': ('signed char', 8, False), 'i16': ('short', 16, False),
    'i32': ('int', 32, False), 'i64': ('long long', 64, False), 'l64': ('long', 64, False),
    'u8': ('unsigned char', 8, True), 'u16': ('unsigned short', 16, True),
    'u32': ('unsigned', 32, True), 'u64': ('unsigned long long', 64, True),
}


def rng(rep):
    _, b, u = REPS[rep]
    return (0, (1 << b) - 1) if u else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


class CompileError(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='ieme-sa-')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def compile_ir(source, scratch, name, flags=(), lang_flags=None):
    src = os.path.join(scratch, name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    ll = os.path.join(scratch, name + '.ll')
    cmd = [CXX] + (lang_flags or BASE) + ['-O0', '-g1', '-w', '-Xclang', '-disable-O0-optnone',
                                          '-S', '-emit-llvm', src, '-o', ll] + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr)
    out = os.path.join(scratch, name + '.m.ll')
    r = subprocess.run([OPT, '-passes=mem2reg', '-S', ll, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('opt: ' + r.stderr)
    with open(out) as f:
        t = f.read()
    os.unlink(ll)
    os.unlink(out)
    return t


def syntax_ok(source, scratch, name, flags=()):
    """(accepted, diagnostics) of the type checker alone"""
    src = os.path.join(scratch, name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    r = subprocess.run([CXX] + BASE + ['-fsyntax-only', '-w', '-ferror-limit=0', src] + list(flags),
                       capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def gcc_ok(source, scratch, name, flags=()):
    src = os.path.join(scratch, name + '.cpp')
    with open(src, 'w') as f:
        f.write(source)
    r = subprocess.run([GXX, '-std=c++20', '-I' + REPO + '/include', '-w', '-fsyntax-only', src] + list(flags),
                       capture_output=True, text=True)
    return r.returncode == 0


class Obl:
    """one obligation

    fn      driver function
    ins     [(name, rep or (lo, hi))] symbolic scalar parameters, in order after the outs
    outs    number of output objects passed as leading pointers
    spec    spec(S) -> bool, may raise NeedSplit through S
    pre     pre(S) -> bool restricting the inputs
    """

    def __init__(self, fn, code, ins, spec, pre=None, outs=1, width=32, unsigned=False, desc='',
                 stops_ok=(), cand=None, log=False, setup=None, handlers=None, ret_first=False,
                 max_visits=400, unsigned_drop=True, fits=True, anchor=None):
        self.code = code
        self.fn, self.ins, self.spec, self.pre, self.outs = fn, ins, spec, pre, outs
        self.width, self.unsigned, self.desc = width, unsigned, desc or fn
        self.stops_ok, self.cand, self.log, self.setup = stops_ok, cand or {}, log, setup
        self.handlers = handlers
        self.max_visits = max_visits
        self.fits = fits
        self.anchor = anchor


class S:
    """view of one disjunct given to specifications"""

    def __init__(self, ctx, st, ret, ins, ob, interp):
        self.ctx, self.st, self.ret, self.I, self.ob, self.interp = ctx, st, ret, ins, ob, interp
        self.sz = getattr(ob, "sz", 0)

    def __getattr__(self, k):
        try:
            return self.ctx.norm(self.I[k])
        except KeyError:
            raise AttributeError(k)

    def n(self, p):
        return self.ctx.norm(p)

    def is_point(self):
        return all(p.is_const() for p in (self.ctx.norm(x) for x in self.I.values()) if isinstance(p, Poly))

    def out(self, i=0, off=0):
        c = self.st.mem[('out', i)].cells.get(off)
        if c is None:
            raise BadOut('output %d+%d is not written' % (i, off))
        v = c[1]
        if isinstance(v, Poly):
            return self.ctx.norm(v)
        return v

    def outs(self, i=0):
        """all cells of an output object in offset order"""
        return [self.ctx.norm(c[1]) if isinstance(c[1], Poly) else c[1]
                for o, c in sorted(self.st.mem[('out', i)].cells.items())]

    def sign(self, p):
        return self.ctx.sign(p)

    def zero(self, p):
        return not self.ctx.nonzero(p)

    def pos(self, p):
        """p > 0, splitting only when needed"""
        s = self.ctx.signs(p)
        if s == {1}:
            return True
        if 1 not in s:
            return False
        return self.ctx.sign(p) > 0

    def neg(self, p):
        return self.pos(-p)

    def nonneg(self, p):
        return not self.pos(-p)

    def eq(self, p, q):
        return self.zero(p - q)

    def lt(self, p, q):
        return self.pos(q - p)

    def le(self, p, q):
        return self.nonneg(q - p)

    def abs(self, p):
        return dom.mk_abs(self.ctx, p)

    def gcd(self, p, q):
        return dom.mk_gcd(self.ctx, p, q)

    def lcm(self, p, q):
        return dom.mk_lcm(self.ctx, p, q)

    def quot(self, p, q):
        return dom.mk_quot(self.ctx, p, q)

    def true(self, v):
        """a boolean output"""
        if not isinstance(v, Poly):
            raise BadOut('boolean expected')
        return not self.zero(v)


class BadOut(Exception):
    pass


MAXREGIONS = 3000


def decide(ctx, st, ret, ins, ob, interp, fn):
    """evaluate predicate fn over every sub-disjunct: yields (verdict, ctx, why)"""
    work = [ctx]
    n = 0
    res = []
    while work:
        c = work.pop()
        n += 1
        if n > getattr(ob, 'max_regions', MAXREGIONS):
            res.append(('undecided', c, 'too many regions'))
            break
        try:
            r = fn(S(c, st, ret, ins, ob, interp))
            if r is True:
                res.append(('proved', c, ''))
            else:
                res.append(('failed', c, r if isinstance(r, str) else ''))
        except NeedSplit as e:
            cs = c.split(e.poly)
            if len(cs) == 1 and cs[0].key() == c.key():
                res.append(('undecided', c, 'no progress on ' + dom.show(e.poly)))
            else:
                work.extend(cs)
        except Infeasible:
            continue
        except Drop:
            continue
        except BadOut as e:
            res.append(('failed', c, str(e)))
        except Stop as e:
            res.append(('failed', c, 'depends on ' + e.kind))
        except Unsupported as e:
            res.append(('undecided', c, str(e)))
    return res


def point_ctx(env):
    return Ctx({}, {}, {a: C(v) for a, v in env.items()})


def holds(ctx, env):
    try:
        return dom.ctx_holds(ctx, dict(env))
    except dom.Undefined:
        return False


def small_values(lo, hi, extra):
    vals = []
    for v in (0, 1, -1, 2, -2, 3, -3, 4, 5, -4, -5, 6, 7, -6):
        if lo <= v <= hi:
            vals.append(v)
    for v in extra:
        if lo <= v <= hi and v not in vals:
            vals.append(v)
    if lo > -dom.INF and hi - lo < 12:
        for v in range(lo, hi + 1):
            if v not in vals:
                vals.append(v)
    for v in (lo, hi, lo + 1, hi - 1):
        if abs(v) < dom.INF and v not in vals and lo <= v <= hi:
            vals.append(v)
    for k in (8, 15, 16, 31, 32, 33, 48, 62):
        for v in (1 << k, (1 << k) + 1, -(1 << k) - 1):
            if lo <= v <= hi and v not in vals:
                vals.append(v)
    return vals


def constants_of(ctx):
    s = set()
    for p in ctx.pf:
        c = p.t.get((), 0)
        for x in list(p.t.values()):
            f = Fr(x)
            if f.denominator == 1 and abs(f) < 1 << 62:
                s.add(int(f))
                s.add(-int(f))
        s.add(int(Fr(c)))
    out = set()
    for v in s:
        out |= {v, v - 1, v + 1}
    return sorted(out, key=abs)[:12]


def witness(ctx, ins, ob, interp, budget=6000, accept=None):
    """a point of the concretisation of ctx, inputs within their types and every
    recorded arithmetic result within its width"""
    atoms = []
    for nm, p in ins.items():
        for a in p.atoms():
            if dom.A.kind[a] == 'in' and a not in [x for x, _ in atoms]:
                atoms.append((a, nm))
    for a in range(len(dom.A.kind)):
        if dom.A.kind[a] == 'in' and a not in [x for x, _ in atoms]:
            used = any(a in dom.A.deps[b] for p in ctx.pf for b in p.atoms()) or a in ctx.iv or a in ctx.sub
            if used:
                atoms.append((a, dom.A.args[a][0]))
    free = [(a, nm) for a, nm in atoms if a not in ctx.sub]
    solved = [(a, nm) for a, nm in atoms if a in ctx.sub]
    consts = constants_of(ctx)
    cands = []
    for a, nm in free:
        lo, hi, ex = ctx.interval(a)
        lo0, hi0 = dom.A.lo[a], dom.A.hi[a]
        lo, hi = max(lo, lo0), min(hi, hi0)
        c = ob.cand.get(nm)
        if c is not None:
            vals = [v for v in c if lo <= v <= hi] + small_values(lo, hi, consts)
        else:
            vals = small_values(lo, hi, consts)
        vals = [v for v in vals if v not in ex]
        if not vals:
            vals = [v for v in (lo, hi) if abs(v) < dom.INF]
        if not vals:
            return None
        cands.append(vals)
    total = 1
    for c in cands:
        total *= len(c)
    rnd = random.Random(1)

    def points():
        if total <= budget:
            # small values first
            yield from itertools.product(*cands)
        else:
            k = 3
            while True:
                m = [c[:k] for c in cands]
                t = 1
                for c in m:
                    t *= len(c)
                if t > budget // 2:
                    break
                if k > 3:
                    pass
                last = m
                yield from itertools.product(*m)
                k += 1
                if k > 9:
                    break
            for _ in range(budget):
                yield tuple(rnd.choice(c) for c in cands)

    for pt in points():
        env = {a: v for (a, _), v in zip(free, pt)}
        try:
            ok = True
            for a, nm in solved:
                v = dom.ev(ctx.sub[a], env)
                if isinstance(v, Fr) and v.denominator != 1:
                    ok = False
                    break
                v = int(v)
                if not (dom.A.lo[a] <= v <= dom.A.hi[a]):
                    ok = False
                    break
                env[a] = v
            if not ok:
                continue
            base = dict(env)
            if not dom.ctx_holds(ctx, env):
                continue
            if ob.fits and not all_fit(interp, base, ob):
                continue
        except dom.Undefined:
            continue
        if accept is None or accept(base):
            return base
    return None


def all_fit(interp, env, ob):
    e = dict(env)
    for bits, p in interp.ops:
        if bits >= 128:
            continue
        try:
            v = dom.ev(p, e)
        except dom.Undefined:
            continue
        if isinstance(v, Fr):
            continue
        if ob.unsigned:
            if not 0 <= v < 1 << bits:
                return False
        elif not -(1 << (bits - 1)) <= v < 1 << (bits - 1):
            return False
    return True


class Result:
    __slots__ = ('fn', 'desc', 'status', 'regions', 'proved', 'detail', 'functions', 'sites',
                 'steps', 'secs', 'unit', 'undecided')

    def __init__(self, ob):
        self.fn, self.desc = ob.fn, ob.desc
        self.status = 'proved'
        self.regions = self.proved = self.steps = 0
        self.detail = None
        self.functions = ()
        self.sites = 0
        self.secs = 0
        self.unit = ''
        self.undecided = []


def make_inputs(ob, st):
    ins = {}
    args = []
    for i in range(ob.outs):
        st.mem[('out', i)] = Mem({})
        args.append(Ptr(('out', i), 0))
    for nm, ty in ob.ins:
        if isinstance(ty, Poly):
            v = ty
        else:
            lo, hi = rng(ty) if isinstance(ty, str) else ty
            v = dom.A.var(nm, lo, hi)
        ins[nm] = v
        args.append(v)
    return ins, args


def start_states(ob, ins, st, interp):
    if ob.pre is None:
        return [st]
    out = []
    for verdict, c, why in decide(st.ctx, st, None, ins, ob, interp, ob.pre):
        if verdict == 'proved':
            out.append(st.with_ctx(c))
        elif verdict == 'undecided':
            raise Unsupported('precondition: ' + why)
    return out


def run_obligation(mod, ob, name_filter='ieme'):
    t0 = time.time()
    dom.reset()
    res = Result(ob)
    interp = Interp(mod, ob.width, ob.unsigned, log=ob.log, handlers=ob.handlers,
                    max_visits=ob.max_visits, max_steps=getattr(ob, 'max_steps', 400000))
    interp.forbid = getattr(ob, 'forbid', ())
    st = State()
    if ob.setup:
        ins, args = ob.setup(ob, st)
    else:
        ins, args = make_inputs(ob, st)
    try:
        starts = start_states(ob, ins, st, interp)
        if not starts:
            raise Unsupported('empty precondition')
        finals = []
        for s in starts:
            finals.extend(interp.run(ob.fn, args, s))
    except Unsupported as e:
        res.status = 'undecided'
        res.undecided.append(str(e))
        res.secs = time.time() - t0
        return finish(res, interp, mod)
    for reason, where, s in interp.holes:
        res.undecided.append('%s at %s' % (reason, where))
    viol = None
    for kind, text, where, s in interp.stops:
        if kind in ob.stops_ok:
            if callable(getattr(ob, 'stop_spec', None)):
                pass
            continue
        res.regions += 1
        if s.ctx.empty():
            continue
        w = witness(s.ctx, ins, ob, interp)
        if w is not None:
            viol = viol or dict(kind=kind, text=text, where=where, ctx=s.ctx, env=w, ret=None, st=s)
        else:
            res.undecided.append('%s at %s may be reachable' % (kind, where))
    if ob.spec is not None:
        for s, r in finals:
            if viol:
                break
            for verdict, c, why in decide(s.ctx, s, r, ins, ob, interp, ob.spec):
                res.regions += 1
                if verdict == 'proved':
                    res.proved += 1
                elif verdict == 'undecided':
                    res.undecided.append(why)
                elif c.empty():
                    res.proved += 1
                else:
                    def still(env, s=s, r=r):
                        return refutes(env, s, r, ins, ob, interp)
                    w = witness(c, ins, ob, interp, accept=still)
                    if w is not None:
                        viol = dict(kind='wrong result', text=why, where='', ctx=c, env=w, ret=r, st=s)
                        break
                    res.undecided.append('no point found for: ' + describe(c))
        if not finals and not viol and not interp.stops:
            res.undecided.append('no final state')
    if viol:
        res.status = 'violation'
        res.detail = report(mod, ob, ins, interp, viol)
    elif res.undecided:
        res.status = 'undecided'
    res.secs = time.time() - t0
    return finish(res, interp, mod)


def refutes(env, s, r, ins, ob, interp):
    """the predicate is false at this point of the abstract terms"""
    pc = point_ctx(env)
    try:
        if ob.pre is not None:
            st0 = s.with_ctx(pc)
            if ob.pre(S(pc, st0, None, ins, ob, interp)) is not True:
                return False
        return ob.spec(S(pc, s.with_ctx(pc), r, ins, ob, interp)) is not True
    except BadOut:
        return True
    except Stop:
        return True
    except (NeedSplit, Infeasible, Unsupported, Drop):
        return False


def finish(res, interp, mod):
    dm = mod.demangle_all()
    res.functions = sorted({dm.get(f, f) for f in interp.functions if 'ieme' in dm.get(f, f)})
    res.steps = interp.steps
    return res


def describe(c):
    out = []
    for a, (lo, hi, ex) in c.iv.items():
        if a in c.sub:
            continue
        l = '' if lo <= dom.A.lo[a] else '%s <= ' % lo
        h = '' if hi >= dom.A.hi[a] else ' <= %s' % hi
        if lo == hi:
            out.append('%s = %s' % (dom.show_atom(a), lo))
            continue
        if l or h:
            out.append(l + dom.show_atom(a) + h)
        for x in ex:
            out.append('%s != %s' % (dom.show_atom(a), x))
    for a, p in c.sub.items():
        out.append('%s = %s' % (dom.show_atom(a), dom.show(p)))
    names = {frozenset((1,)): '> 0', frozenset((-1,)): '< 0', frozenset((0,)): '= 0',
             frozenset((0, 1)): '>= 0', frozenset((0, -1)): '<= 0', frozenset((1, -1)): '!= 0'}
    for p, s in c.pf.items():
        out.append('%s %s' % (dom.show(p), names.get(s, '?')))
    return ', '.join(out) or 'true'


def showval(v, env):
    if isinstance(v, Poly):
        t = dom.show(v)
        try:
            t += ' (= %s)' % dom.ev(v, dict(env))
        except dom.Undefined:
            pass
        return t
    return repr(v)


def report(mod, ob, ins, interp, v):
    env = v['env']
    dm = mod.demangle_all()
    outs = {}
    for i in range(ob.outs):
        m = v['st'].mem.get(('out', i))
        if m:
            outs['out%d' % i] = {str(o): showval(c[1], env) for o, c in sorted(m.cells.items())}
    if v['ret'] is not None:
        outs['return'] = showval(v['ret'], env)
    point = {nm: dom.ev(p, dict(env)) for nm, p in ins.items() if isinstance(p, Poly)}
    # branch trace of the refuted disjunct
    path = []
    try:
        it = Interp(mod, ob.width, ob.unsigned, log=ob.log, handlers=ob.handlers, max_visits=ob.max_visits)
        it.path = True
        st = State()
        if ob.setup:
            ins2, args = ob.setup(ob, st)
        else:
            ins2, args = make_inputs(ob, st)
        st.ctx = v['ctx'].copy()
        fs = it.run(ob.fn, args, st)
        tr = fs[0][0].trace if fs else (it.stops[0][3].trace if it.stops else ())
        path = [x for x in tr if '/include/ieme/' in str(x[0])]
        fns, locs = [], []
        for f in it.functions:
            w = mod.func_where(f)
            if '/include/ieme/' in w:
                locs.append(w + ' ' + dm[f][:160])
        locs.sort()
    except Exception:
        fns, locs = [], []
    return dict(driver=ob.fn, obligation=ob.desc, kind=v['kind'], text=v['text'], where=v['where'],
                region=describe(v['ctx']), point={k: str(x) for k, x in point.items()}, outputs=outs,
                branches=['%s %s' % (a, 'taken' if b else 'not taken') for a, b in path],
                functions=locs or fns)
