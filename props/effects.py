"""Effect analysis over the call graph of compiled drivers."""
import re
import llir

NAME = re.compile(r'@("[^"]*"|[-\w.$]+)')
CALL = re.compile(r'\b(?:call|invoke)\b.*?@("[^"]*"|[-\w.$]+)\(')
DIV = re.compile(r'^\s*%\S+ = (sdiv|udiv|srem|urem)\b')
ATOMIC = re.compile(r'^\s*(?:%\S+ = )?(cmpxchg|atomicrmw|fence)\b')
LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')
DBG = re.compile(r'!dbg (!\d+)')

ALLOWED_EXTERNAL = re.compile(r'^(llvm\.|(memcpy|memmove|memset|memcmp|memchr|strlen|bcmp|l{0,2}abs|imaxabs|l{0,2}div|fabs|ceil|floor|'
                              r'trunc|copysign|fma|fmin|fmax)[fl]?$)')
IMPURE = re.compile(r'^(__cxa_guard_|__cxa_atexit|pthread_|__errno_location|rand|srand|random|time$|clock|getenv|setlocale|v?f?s?n?printf|puts|'
                    r'putchar|putc|fputs|fwrite|fread|fopen|read$|write$|getc|gets|syscall|nanosleep|_ZNS[oi]|_ZSt4c(out|err|in)|_ZStls|'
                    r'_ZNSt6locale|_ZNSt6chrono|__libc|signal|raise|fesetround|feraiseexcept|feclearexcept|__tls)')
THROWS = re.compile(r'^(__cxa_throw|__cxa_allocate_exception|__cxa_rethrow)')
STDTHROW = re.compile(r'__throw_')
ALLOCS = re.compile(r'^(_Zn[wa]m|malloc|calloc|realloc|aligned_alloc|free|_Zd[la]Pv)')
LANDING = ('__clang_call_terminate', '__cxa_begin_catch', '_ZSt9terminatev', '__gxx_personality_v0')


OWN = ('_ZN4ieme', '_ZNK4ieme', '_ZNSt4hashIN4ieme', '_ZNKSt4hashIN4ieme')


class Fx:
    """effects of one function: list of (kind, text, where) and edges (callee, where)"""
    __slots__ = ('effects', 'unknown', 'edges', 'loops', 'divs')

    def __init__(self):
        self.effects, self.unknown, self.edges, self.loops, self.divs = [], [], [], [], []


def globals_info(mod):
    info = {}
    for nm, s in mod.globals.items():
        head = s.split('{')[0].split('"')[0]
        words = re.findall(r'[\w]+', head)
        const = 'constant' in words and ('global' not in words or words.index('constant') < words.index('global'))
        info[nm] = (const, 'thread_local' in words)
    return info


def analyse(mod):
    gi = globals_info(mod)
    out = {}
    for nm, f in mod.funcs.items():
        fx = out[nm] = Fx()
        if nm == '__clang_call_terminate':
            continue
        lines = f.lines if hasattr(f, 'lines') else []
        blocks, cur, labels = {}, '', ['']
        blocks[''] = []
        pad = False
        for ln in lines:
            m = LABEL.match(ln)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                pad = False
                continue
            t = ln.split(', !dbg')[0]
            d = DBG.search(ln)
            where = d.group(1) if d else None
            if 'landingpad' in t:
                pad = True
            for l in re.findall(r'label %("[^"]*"|[-\w.$]+)', t):
                blocks[cur].append(l.strip('"'))
            if ' asm ' in t and 'call' in t:
                fx.effects.append(('inline assembly', t.strip()[:80], where))
            m = DIV.match(t)
            if m:
                fx.divs.append((m.group(1), where))
            m = ATOMIC.match(t)
            if m:
                fx.effects.append(('synchronisation', m.group(1), where))
            if re.match(r'\s*(?:%\S+ = )?(?:tail |musttail |notail )?(call|invoke)\b', t):
                callee = CALL.search(t)
                if not callee and ' asm ' not in t:
                    fx.effects.append(('indirect call', t.strip()[:80], where))
            for x in NAME.findall(t):
                x = x.strip('"')
                if x in mod.funcs:
                    fx.edges.append((x, where))
                elif x in gi:
                    const, tls = gi[x]
                    if not const:
                        fx.effects.append(('mutable global state', x, where))
                elif x in mod.decls or x.startswith('llvm.'):
                    if x in LANDING and (pad or x == '__gxx_personality_v0'):
                        continue
                    if THROWS.search(x):
                        fx.effects.append(('throws', x, where))
                    elif STDTHROW.search(x):
                        (fx.effects if nm.startswith(OWN) else fx.unknown).append(('throws', x, where))
                    elif ALLOCS.search(x):
                        fx.effects.append(('allocates', x, where))
                    elif IMPURE.search(x):
                        fx.effects.append(('touches shared state through', x, where))
                    elif not ALLOWED_EXTERNAL.search(x):
                        fx.unknown.append(('unknown external function', x, where))
        # cycles in the control flow graph
        if cyclic(blocks):
            fx.loops.append(('loop', nm))
    return out


def cyclic(g):
    state = {}
    for root in g:
        if root in state:
            continue
        stack = [(root, iter(g.get(root, ())))]
        state[root] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    return True
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(g.get(s, ()))))
                    break
            else:
                state[b] = 2
                stack.pop()
    return False


def reach(fx, root):
    """function -> predecessor (caller, where) over the call graph from root"""
    pred = {root: None}
    work = [root]
    while work:
        f = work.pop()
        for g, w in fx[f].edges:
            if g not in pred:
                pred[g] = (f, w)
                work.append(g)
    return pred


def recursive(fx, pred):
    g = {f: [c for c, _ in fx[f].edges if c in pred and c != '__clang_call_terminate'] for f in pred}
    return cyclic(g)


def path(mod, pred, f):
    dm = mod.demangle_all()
    out = []
    while f is not None:
        p = pred[f]
        w = mod.where(p[1]) if p and p[1] else ''
        out.append('%s%s' % (dm.get(f, f)[:160], ' called at ' + w if w else ''))
        f = p[0] if p else None
    return list(reversed(out))
