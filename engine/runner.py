"""Runs the obligations of a property, writes evidence, prints the verdict."""
import json
import multiprocessing as mp
import os
import re
import signal
import subprocess
import sys
import time
import llir
import oblig
from oblig import CompileError, Scratch, compile_ir, run_obligation, Result, syntax_ok, gcc_ok, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(2, min(8, os.cpu_count() or 2))


class Unit:
    """one driver translation unit"""

    def __init__(self, name, prelude, obls, flags=()):
        self.name, self.prelude, self.obls, self.flags = name, prelude, obls, list(flags)


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_UNITS = []
_SCRATCH = ''
_LIMIT = 60
T0 = time.time()
# wall-clock budget of one check; what is left undone then is reported as undecided
BUDGET = float(os.environ.get('IEME_BUDGET', '780' if 'thorough' in sys.argv else '420'))
_SLOW = mp.Value('i', 0)     # obligations that used up their time, over all workers


def time_left():
    return T0 + BUDGET - time.time()


def obligation_limit():
    n = _SLOW.value
    lim = _LIMIT if n < NPROC else max(8, _LIMIT // 4) if n < 4 * NPROC else 5
    return max(1, min(lim, int(time_left())))


def violation(ob, kind, text, where=''):
    r = Result(ob)
    r.status = 'violation'
    r.detail = dict(driver=ob.fn, obligation=ob.desc, kind=kind, text=text, where=where, region='',
                    point={}, outputs={}, branches=[], functions=[])
    return r


def run_unit(i):
    u = _UNITS[i]
    out = []
    obls = list(u.obls)
    src = u.prelude + '\n' + '\n'.join(o.code for o in obls) + '\n'
    name = 'u%d' % i
    if time_left() < 1:
        for o in obls:
            r = Result(o)
            r.status = 'undecided'
            r.undecided = ['time budget of the check']
            out.append(r)
        return ('ok', '', out)
    try:
        ir = compile_ir(src, _SCRATCH, name, u.flags)
    except CompileError as e:
        ok, diag = syntax_ok(u.prelude, _SCRATCH, name + 'p', u.flags)
        if not ok:
            return ('error', 'the headers do not compile: ' + first_error(diag), [])
        keep = []
        for k, o in enumerate(obls):
            if len(out) >= 4:
                r = Result(o)
                r.status = 'undecided'
                r.undecided = ['other drivers of the unit do not compile']
                out.append(r)
                continue
            ok, diag = syntax_ok(u.prelude + '\n' + o.code, _SCRATCH, '%so%d' % (name, k), u.flags)
            if ok:
                keep.append(o)
            elif gcc_ok(u.prelude + '\n' + o.code, _SCRATCH, '%so%d' % (name, k), u.flags):
                r = Result(o)
                r.status = 'undecided'
                r.undecided = ['accepted by g++ only: ' + first_error(diag)]
                out.append(r)
            else:
                out.append(violation(o, 'does not compile', first_error(diag), error_where(diag)))
        obls = keep
        try:
            ir = compile_ir(u.prelude + '\n' + '\n'.join(o.code for o in obls) + '\n', _SCRATCH, name, u.flags)
        except CompileError as e:
            return ('error', 'driver: ' + first_error(str(e)), [])
    try:
        mod = llir.Module(ir)
    except llir.ParseError as e:
        return ('error', 'IR reader: %s' % e, [])
    for o in obls:
        if time_left() < 1:
            r = Result(o)
            r.status = 'undecided'
            r.undecided = ['time budget of the check']
            r.unit = u.name
            out.append(r)
            continue
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(obligation_limit())
        try:
            r = run_obligation(mod, o)
        except Timeout:
            with _SLOW.get_lock():
                _SLOW.value += 1
            r = Result(o)
            r.status = 'undecided'
            r.undecided = ['time budget']
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, llir.ParseError, ValueError,
                ZeroDivisionError) as e:
            if os.environ.get('IEME_DEBUG'):
                raise
            r = Result(o)
            r.status = 'undecided'
            r.undecided = ['analyser: %s %s' % (type(e).__name__, e)]
        finally:
            signal.alarm(0)
        r.unit = u.name
        out.append(r)
    return ('ok', '', out)


def first_error(diag):
    for l in diag.splitlines():
        if 'error:' in l:
            return l.strip()[:300]
    return diag.strip()[:300]


def error_where(diag):
    for l in diag.splitlines():
        m = re.match(r'(?:In file included from )?(\S*/include/ieme/[^:]+:\d+)', l)
        if m:
            return m.group(1)
    return ''


def run_units(units, limit=60):
    """[(status, message, [Result])] per unit"""
    global _UNITS, _SCRATCH, _LIMIT
    _LIMIT = limit
    with Scratch() as d:
        _UNITS, _SCRATCH = units, d
        if os.environ.get('IEME_DEBUG'):
            return [run_unit(i) for i in range(len(units))]
        with mp.get_context('fork').Pool(NPROC) as pool:
            return pool.map(run_unit, range(len(units)), chunksize=1)


class Witness:
    """a compile-time obligation: the program is accepted (or rejected)"""

    def __init__(self, name, code, accept=True, desc='', flags=(), where=''):
        self.name, self.code, self.accept, self.desc, self.flags = name, code, accept, desc or name, flags
        self.where = where
        self.fn = name


_WIT = []


def run_witness(i):
    w = _WIT[i]
    ok, diag = syntax_ok(w.code, _SCRATCH, 'w%d' % i, w.flags)
    return ok, diag


def run_witnesses(ws):
    """[(witness, ok, diagnostics)]"""
    global _WIT, _SCRATCH
    with Scratch() as d:
        _WIT, _SCRATCH = ws, d
        with mp.get_context('fork').Pool(NPROC) as pool:
            r = pool.map(run_witness, range(len(ws)), chunksize=1)
    return [(w, ok, diag) for w, (ok, diag) in zip(ws, r)]


def static_asserts(rep, prelude, asserts, flags=(), label='type-level obligation'):
    """asserts: [(id, condition, description)]; one program, one static_assert per line"""
    with Scratch() as d:
        lines = ['static_assert(%s, "OBLIGATION %s");' % (c, i) for i, c, _ in asserts]
        src = prelude.rstrip('\n') + '\n' + '\n'.join(lines) + '\n'
        base = len(prelude.rstrip('\n').split('\n'))
        ok, diag = syntax_ok(src, d, 'sa', flags)
        rep.units += 1
        if ok:
            for i, c, t in asserts:
                rep.check(True, t)
            return
        ok, pd = syntax_ok(prelude, d, 'pre', flags)
        if not ok:
            rep.errors.append('the headers do not compile: ' + first_error(pd))
            return
        if gcc_ok(src, d, 'sag', flags):
            for i, c, t in asserts:
                rep.undecide(t, 'rejected by clang only')
            return
        failed = {}
        rest = set(range(len(asserts)))
        why = 'not attributed'
        for _ in range(6):
            # a hard error inside the library is attributed through the instantiations the compiler lists below it
            new, last = {}, None
            for l in diag.splitlines():
                m = re.search(r'sa\.cpp:(\d+):\d+: (error|note): (.*)', l)
                if ': error:' in l:
                    last = l.split(': error:')[1].strip()
                n = int(m.group(1)) - base - 1 if m else -1
                if m and n in rest:
                    new.setdefault(n, m.group(3) if m.group(2) == 'error' else last or m.group(3))
            if not new:
                # nothing points at an assertion: find one by halving
                part = sorted(rest)
                while len(part) > 1:
                    half = part[:len(part) // 2]
                    ok, dg = syntax_ok(prelude.rstrip('\n') + '\n' + '\n'.join(lines[n] for n in half) + '\n', d, 'sb', flags)
                    part = part[len(part) // 2:] if ok else half
                ok, dg = syntax_ok(prelude.rstrip('\n') + '\n' + lines[part[0]] + '\n', d, 'sb', flags)
                if ok:
                    break
                new[part[0]] = first_error(dg)
            failed.update(new)
            rest -= set(new)
            ok, diag = syntax_ok(prelude.rstrip('\n') + '\n' + '\n'.join(l if n in rest else '' for n, l in enumerate(lines)) + '\n',
                                 d, 'sa', flags)
            if ok:
                why = None
                break
        for n, (i, c, t) in enumerate(asserts):
            if n in failed or not why:
                rep.check(n not in failed, t, where=i, text=failed.get(n, ''), kind=label)
            else:
                rep.undecide(t, why)


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.proved = 0
        self.total = 0
        self.regions = 0
        self.undecided = []
        self.violations = []     # dict(where, text, detail)
        self.errors = []
        self.functions = set()
        self.units = 0
        self.kinds = {}
        self.notes = []

    def add_units(self, res):
        for st, msg, rs in res:
            self.units += 1
            if st == 'error':
                self.errors.append(msg)
            for r in rs:
                self.add(r)

    def add(self, r):
        self.total += 1
        self.regions += r.regions
        self.functions |= set(r.functions)
        if r.status == 'proved':
            self.proved += 1
        elif r.status == 'undecided':
            self.undecided.append((r.desc, '; '.join(sorted(set(r.undecided)))[:300]))
        else:
            self.violations.append(r.detail)

    def check(self, ok, desc, where='', text='', kind='rule', detail=None):
        """a directly decided obligation"""
        self.total += 1
        if ok:
            self.proved += 1
        else:
            self.violations.append(dict(driver='', obligation=desc, kind=kind, text=text, where=where, region='',
                                        point={}, outputs={}, branches=[], functions=detail or []))
        return ok

    def undecide(self, desc, why):
        self.total += 1
        self.undecided.append((desc, why))


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def vkey(v):
    return re.sub(r'[^\w.:,<>=+*/%!-]+', '_', v.get('obligation') or v.get('driver'))


def finish(rep, prop, assumptions, rule):
    pid = rep.pid
    ev_dir = os.path.join(HERE, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replay')
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rp_dir, f))
    known = known_findings(pid)
    new, hit = [], []
    for v in rep.violations:
        k = vkey(v)
        kf = [x for x in known if x[0] == k]
        if kf:
            hit.append((v, kf[0]))
        else:
            new.append(v)
    vs = []
    for n, v in enumerate(new):
        path = os.path.join(rp_dir, '%s-%d.json' % (pid, n))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        v['replay'] = path
        vs.append(v)
    head = subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    expl = ('%d obligations over %d driver units; %d discharged in %d disjuncts; %d undecided; '
            'functions of the library analysed: %d. Rule: %s'
            % (rep.total, rep.units, rep.proved, rep.regions, len(rep.undecided), len(rep.functions), rule))
    level = prop.LEVEL
    if level == 'proof':
        cov = dict(obligations=rep.total, discharged=rep.proved,
                   checker_cmd='python3 /verif/check.py %s %s' % (pid, rep.tier),
                   trusted_base=['clang 18 front end and the mem2reg pass of opt',
                                 'transfer functions of the abstract interpreter in /verif/engine'])
    else:
        cov = dict(obligations=rep.total, discharged=rep.proved)
    cov['explanation'] = expl
    cov['rule'] = rule
    cov['disjuncts'] = rep.regions
    cov['functions_analysed'] = sorted(rep.functions)[:400]
    cov['undecided'] = [{'obligation': a, 'reason': b} for a, b in rep.undecided[:80]]
    cov['repo_head'] = head
    if vs:
        cov['violations'] = [dict(obligation=v['obligation'], kind=v['kind'], where=v['where'], text=v['text'],
                                  replay=v['replay']) for v in vs[:50]]
    if rep.notes:
        cov['notes'] = rep.notes
    ev = dict(property=pid, tier=rep.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level,
              coverage=cov, assumptions=assumptions, wall_s=round(time.time() - rep.t0, 2),
              violations=len(vs))
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %s' % (pid, rep.tier, expl))
    for a, b in rep.undecided[:20]:
        print('  undecided: %s: %s' % (a, b))
    for k, txt in sorted({kf for _, kf in hit}):
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    for v in vs[:6]:
        print('  %s: %s %s %s' % (v['obligation'], v['kind'], v['text'], v['where']))
        if v.get('region'):
            print('    region: ' + v['region'][:600])
        if v.get('point'):
            print('    contains the point: ' + ', '.join('%s=%s' % kv for kv in v['point'].items()))
        if v.get('outputs'):
            print('    abstract result: ' + json.dumps(v['outputs'])[:600])
        for b in v.get('branches', [])[:12]:
            print('    branch ' + b)
        for f in v.get('functions', [])[:12]:
            print('    in ' + f)
    for v in vs[:12]:
        print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
    if vs:
        return 1
    if rep.errors:
        for e in rep.errors[:5]:
            print('ERROR: ' + e)
        return 2
    if rep.proved == 0:
        print('ERROR: nothing was decided')
        return 2
    return 0


class _Recorder:
    def __init__(self):
        self.calls, self.units, self.errors = [], 0, []

    def check(self, *a, **k):
        self.calls.append(('check', a, k))

    def undecide(self, *a, **k):
        self.calls.append(('undecide', a, k))


def _sa_job(j):
    r = _Recorder()
    static_asserts(r, *j)
    return r.calls, r.units, r.errors


def static_asserts_many(rep, jobs):
    """jobs: argument tuples of static_asserts, decided side by side"""
    with mp.get_context('fork').Pool(NPROC) as pool:
        res = pool.map(_sa_job, jobs, chunksize=1)
    for calls, units, errors in res:
        rep.units += units
        rep.errors += errors
        for n, a, k in calls:
            getattr(rep, n)(*a, **k)
