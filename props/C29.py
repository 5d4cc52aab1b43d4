"""The cost of the fast policy."""
import multiprocessing as mp
from common import *
import effects
import llir
from oblig import Scratch, compile_ir, CompileError
from runner import first_error

LEVEL = 'proof'
RULE = ('the abstract execution of each operator of the fast policy is a finite set of paths, so the number of steps is bounded by a '
        'constant, and no instruction on them is an integer division or remainder or a call of gcd or lcm; where the abstract execution '
        'gives no answer the call graph and control flow below the operator must be acyclic and free of such instructions')
ASSUMPTIONS = ['built-in number types; the remainder operator, which needs a division by definition, is not claimed',
               'the IR before optimisation, so the claim does not rest on the optimiser']

GCD = re.compile(r'3gcdI|3lcmI|__gcd|__lcm')
P = 'op::fast'


def drivers(tier):
    obls = []

    def add(fn, rep, ps, ins, outs, body, desc):
        o = Obl(fn, wrap(fn, outs, ps, body), ins, truth, None, outs=len(outs), desc=desc, fits=False, **kw(rep))
        o.forbid = ('division', 'gcd')
        o.max_visits = 64
        o.sz = REPS[rep][1] // 8
        obls.append(o)
    for rep in REPS:
        R = ct(rep)
        F = 'fr::fraction<%s, %s>' % (R, P)
        ops = [(k, s) for k, s in list(ARITH.items()) + list(CMP.items()) if k != 'mod']
        for on, sym in ops:
            ar = on in ARITH
            out = ['pairof<%s>' % R] if ar else ['bool']
            store = 'put(o0, %s);' if ar else '*o0 = %s;'
            for sh in ('ff', 'fr', 'rf'):
                ps, l, r = shape(sh, R, P)
                add('c29_%s_%s_%s' % (rep, on, sh), rep, [(R, p) for p in ps], [(p, rep) for p in ps], out, store % ('(%s) %s (%s)' % (l, sym, r)),
                    '%s on fraction<%s, fast>:%s' % (sym, R, sh))
                if ar and sh[0] == 'f':
                    add('c29_%s_%s_%s_as' % (rep, on, sh), rep, [(R, p) for p in ps], [(p, rep) for p in ps], out,
                        'auto x = %s; x %s= %s; put(o0, x);' % (l, sym, r), '%s= on fraction<%s, fast>:%s' % (sym, R, sh))
            if not REPS[rep][2]:
                for other in ('i16', 'i32', 'i64'):
                    if other == rep:
                        continue
                    Q = ct(other)
                    ps, ins = [(R, 'a'), (R, 'b'), (Q, 'c'), (Q, 'd')], [('a', rep), ('b', rep), ('c', other), ('d', other)]
                    w = rep if REPS[rep][1] >= REPS[other][1] else other
                    out2 = ['pairof<%s>' % ct(w)] if ar else ['bool']
                    add('c29_%s_%s_%s' % (rep, on, other), w, ps, ins, out2, store % ('%s(a, b) %s fr::fraction<%s, %s>(c, d)' % (F, sym, Q, P)),
                        '%s on fraction<%s, fast> and fraction<%s, fast>' % (sym, R, Q))
        for un in ('-', '+'):
            add('c29_%s_%s' % (rep, 'neg' if un == '-' else 'pos'), rep, [(R, 'a'), (R, 'b')], [('a', rep), ('b', rep)], ['pairof<%s>' % R],
                'put(o0, %s%s(a, b));' % (un, F), 'unary %s on fraction<%s, fast>' % (un, R))
    return obls


def truth(S):
    return True


def syntactic(obls):
    """{driver: finding or None} for [(driver, code)]"""
    try:
        with Scratch() as d:
            mod = llir.Module(compile_ir(PRELUDE + '\n'.join(c for _, c in obls) + '\n', d, 'f'))
    except CompileError as e:
        return {}
    fx = effects.analyse(mod)
    dm = mod.demangle_all()
    out = {}
    for n, _ in obls:
        pred = effects.reach(fx, n)
        bad = None
        for g in pred:
            if g == '__clang_call_terminate':
                continue
            w = mod.func_where(g)
            if GCD.search(g):
                bad = bad or ('gcd or lcm: ' + dm.get(g, g)[:100], mod.where(pred[g][1]) if pred[g] and pred[g][1] else w, effects.path(mod, pred, g))
            elif fx[g].loops:
                bad = bad or ('a loop in ' + dm.get(g, g)[:160], w, effects.path(mod, pred, g))
            elif fx[g].divs:
                bad = bad or ('an integer division in ' + dm.get(g, g)[:160], mod.where(fx[g].divs[0][1]) if fx[g].divs[0][1] else w, effects.path(mod, pred, g))
            for k, x, wh in fx[g].effects:
                if k == 'indirect call':
                    bad = bad or (k, mod.where(wh) if wh else w, effects.path(mod, pred, g))
        if not bad and effects.recursive(fx, pred):
            bad = ('recursion below ' + n, '', [dm.get(g, g) for g in pred])
        out[n] = bad
    return out


def run(rep, tier):
    obls = drivers(tier)
    groups = [[(o.fn, o.code) for o in obls[i:i + 60]] for i in range(0, len(obls), 60)]
    with mp.get_context('fork').Pool(8) as pool:
        syn = {}
        for s in pool.map(syntactic, groups, chunksize=1):
            syn.update(s)
    for st, msg, rs in run_units(chunk(obls, 'c29', size=60)):
        rep.units += 1
        if st == 'error':
            rep.errors.append(msg)
        for r in rs:
            if r.status == 'undecided' and r.fn in syn:
                why = '; '.join(r.undecided)
                s = syn[r.fn]
                rep.regions += r.regions
                if s is None:
                    rep.check(True, r.desc)
                elif 'loop bound' in why or 'call depth' in why or 'step' in why:
                    rep.check(False, r.desc, s[1], '%s runs for more than %d rounds: %s' % (s[0], 64, why[:100]), 'hidden work', s[2])
                else:
                    rep.undecide(r.desc, why)
            else:
                rep.add(r)
