"""Check runner: proof units, concrete refuters, evidence and verdicts.

A proof unit is a python function that builds a precondition, executes the
code of /repo (as LLVM IR compiled on this run) and emits obligations.  Units
run in worker processes.  Verdict of a unit:
  proved    every obligation discharged, end of function reachable
  refuted   some obligation has a counter-model
  undecided solver gave up, or the code uses something the tool cannot read
Refuted units are replayed on compiled code; undecided units never alarm by
themselves, the bounded concrete check of the property stands in for them."""
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'

sys.path.insert(0, HERE)
from lvc import expr as X                # noqa: E402
from lvc import ir, solve                # noqa: E402
from lvc import exec as EX               # noqa: E402
from lvc.mem import *                    # noqa: E402,F401,F403
from lvc.mem import Unsupported          # noqa: E402

SRC = os.path.join(REPO, 'src')


def workdir():
    d = os.path.join(HERE, 'work', '%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


# ------------------------------------------------------------------ layout of structures

_off_cache = {}


def offsets(header, specs, config='c64'):
    """specs: list of 'type.field' or 'type' -> {spec: (offset, size)}; taken
    from the compiler on this run"""
    key = (header, tuple(specs), config)
    if key in _off_cache:
        return _off_cache[key]
    d = workdir()
    lines = []
    for s in specs:
        if '.' in s:
            t, f = s.split('.', 1)
            lines.append('printf("%%lu %%lu\\n",(unsigned long)offsetof(%s,%s),'
                         '(unsigned long)sizeof(((%s*)0)->%s));' % (t, f, t, f))
        else:
            lines.append('printf("0 %%lu\\n",(unsigned long)sizeof(%s));' % s)
    hs = header if isinstance(header, (list, tuple)) else [header]
    src = '#include <stddef.h>\n#include <stdio.h>\n%s\nint main(void){%s return 0;}\n' % (
        '\n'.join('#include %s' % (h if h[0] in '<"' else '"%s"' % h) for h in hs), '\n'.join(lines))
    fn = os.path.join(d, 'off_%s.c' % hashlib.md5(src.encode()).hexdigest()[:10])
    open(fn, 'w').write(src)
    exe = fn[:-2]
    cmd = ['gcc', '-O0', '-w', '-I', os.path.join(REPO, 'include'), '-I', SRC] + ir.CONFIGS[config] + \
        [fn, '-o', exe, '-Wl,--unresolved-symbols=ignore-all']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('structure layout: ' + r.stderr[:300])
    out = subprocess.run([exe], capture_output=True, text=True).stdout.split('\n')
    res = {}
    for s, l in zip(specs, out):
        a, b = l.split()
        res[s] = (int(a), int(b))
    _off_cache[key] = res
    return res


# ------------------------------------------------------------------ compiled code

ALLSRC = ['aead', 'asn1', 'cipher', 'drbg', 'dsa', 'ecc', 'encoding', 'hash', 'ies', 'internal',
          'kdf', 'mac', 'mpi', 'rsa', 'stream', 'util', 'rand', 'entropy/env', 'entropy/hw', 'entropy/sys']
LIBFLAGS = {
    'c64': ['-DTORSION_HAVE_CONFIG', '-DTORSION_HAVE_INT128'],
    'c32': ['-DTORSION_HAVE_CONFIG'],
    'asm': ['-DTORSION_HAVE_CONFIG', '-DTORSION_HAVE_INT128', '-DTORSION_HAVE_ASM'],
}


class BuildError(Exception):
    pass


_libs = {}


def clib(srcs, wrapper=None, config='c64', opt='-O1', name=None):
    """shared library from /repo sources.  A wrapper text replaces sources it
    includes itself (so that it can export static functions)."""
    key = (tuple(srcs), wrapper, config, opt)
    if key in _libs:
        return _libs[key]
    d = workdir()
    h = hashlib.md5(repr(key).encode()).hexdigest()[:12]
    so = os.path.join(d, 'lib%s.so' % h)
    files = [os.path.join(SRC, s + '.c') for s in srcs]
    if wrapper is not None:
        w = os.path.join(d, 'w%s.c' % h)
        open(w, 'w').write(wrapper)
        files.append(w)
    base = ['gcc', opt, '-fPIC', '-w', '-fwrapv', '-I', os.path.join(REPO, 'include'), '-I', SRC] + LIBFLAGS[config]
    procs = []
    objs = []
    for f in files:
        o = os.path.join(d, '%s_%s.o' % (h, os.path.basename(f)[:-2]))
        objs.append(o)
        procs.append((f, subprocess.Popen(base + ['-c', f, '-o', o], stderr=subprocess.PIPE, text=True)))
    for f, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise BuildError('%s: %s' % (f, err[:400]))
    r = subprocess.run(['gcc', '-shared', '-o', so] + objs + ['-Wl,--unresolved-symbols=ignore-all', '-lpthread'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:400])
    lib = ctypes.CDLL(so)
    lib._path = so
    _libs[key] = lib
    return lib


def fn(lib, name, res=None):
    """public function of the library (symbols carry the torsion_ prefix)"""
    try:
        f = getattr(lib, 'torsion_' + name)
    except AttributeError:
        f = getattr(lib, name)
    f.restype = res
    return f


def sz(n):
    return ctypes.c_size_t(n)


class Guard:
    """buffer with canaries on both sides"""
    PAD = 64

    def __init__(self, n, init=None, fill=0xA5):
        self.n = n
        self.buf = ctypes.create_string_buffer(n + 2 * self.PAD)
        ctypes.memset(self.buf, fill, n + 2 * self.PAD)
        self.fill = fill
        if init is not None:
            ctypes.memmove(ctypes.addressof(self.buf) + self.PAD, bytes(init), len(init))

    @property
    def p(self):
        return ctypes.c_void_p(ctypes.addressof(self.buf) + self.PAD)

    def at(self, k):
        return ctypes.c_void_p(ctypes.addressof(self.buf) + self.PAD + k)

    def get(self, n=None, off=0):
        n = self.n if n is None else n
        return self.buf.raw[self.PAD + off:self.PAD + off + n]

    def ok(self):
        r = self.buf.raw
        f = bytes([self.fill]) * self.PAD
        return r[:self.PAD] == f and r[self.PAD + self.n:] == f


# ------------------------------------------------------------------ units

class Unit:
    """handed to a proof unit"""

    def __init__(self, name):
        self.name = name
        self.execs = []
        self.extra = []         # obligations from other back ends
        self.assumptions = []
        self.notes = []
        self.contracts = []
        self.reached = 0
        self.need_reach = True
        self.stub_need = []
        self.functions = {}

    def exec_text(self, text, srcs=(), config='c64', **kw):
        """a text that includes headers (or sources) of /repo, plus sources"""
        return self.exec(srcs, config, text=text, **kw)

    def exec(self, srcs, config='c64', mode='paths', noabort=True, text=None, **kw):
        mods = [ir.load(text, config)] if text else []
        mods += [ir.load(os.path.join(SRC, s + '.c'), config) for s in srcs]
        ex = EX.Exec(mods, mode=mode, **kw)
        ex.allow_abort = not noabort
        if noabort:
            def ab(ex, st, a, name):
                ex.require(st, X.F, 'abort unreachable')
                return []
            for k in ('abort', 'torsion__abort', 'torsion__assert_fail'):
                ex.builtin[k] = ab
                ex.stubs['torsion_' + k] = None
            ex.stubs = {k: v for k, v in ex.stubs.items() if v}
            for k in ('torsion__abort', 'torsion__assert_fail', 'torsion_torsion__abort'):
                ex.stubs[k] = lambda ex, st, a, k=k: ab(ex, st, a, k)
        self.execs.append(ex)
        return ex, EX.State(ex)

    def stub(self, ex, name, fnc, need=True):
        if ex.find_func(name) is None:
            raise Unsupported('no function named %s any more' % name)
        ex.stubs[name] = fnc
        self.contracts.append(name)
        if need:
            self.stub_need.append((ex, name))

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def reach(self, st, cond=None, must=True):
        """record that the end of the function is reachable"""
        facts = st.facts() + ([cond] if cond is not None else [])
        r = solve.satisfiable(facts, 8000)
        if r != 'unsat':
            self.reached += 1
        return r

    def ob(self, name, ok, backend, t=0.0, where='', detail='', model=None):
        """obligation decided by another back end; ok in True/False/None"""
        o = EX.Obligation(name, {True: 'proved', False: 'refuted', None: 'unknown'}[ok], backend, t, where, detail, model)
        self.extra.append(o)

    def obligations(self):
        r = list(self.extra)
        for ex in self.execs:
            r.extend(ex.obls)
        return r


def model_values(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                try:
                    out[d.name()] = m[d].as_long()
                except Exception:
                    pass
            elif len(out) < 400:
                try:
                    fi = m[d]
                    ent = []
                    for k in range(min(fi.num_entries(), 64)):
                        e = fi.entry(k)
                        ent.append([[e.arg_value(q).as_long() for q in range(e.num_args())], e.value().as_long()])
                    els = fi.else_value()
                    out[d.name()] = {'entries': ent, 'else': els.as_long() if hasattr(els, 'as_long') else str(els)[:80]}
                except Exception:
                    pass
    except Exception:
        pass
    return out


def _run_unit(modname, uname, conn):
    t0 = time.time()
    res = {'unit': uname, 'status': 'undecided', 'why': '', 'obl': [], 'functions': [], 'contracts': [],
           'assumptions': [], 'notes': [], 'hints': []}
    U = Unit(uname)
    try:
        solve.STATS.update(queries=0, time=0.0)
        mod = importlib.import_module(modname)
        fnc = dict(mod.UNITS)[uname]
        try:
            fnc(U)
            why = ''
        except (Unsupported, EX.NotSummarisable) as e:
            why = 'not interpretable: %s' % e
        except Exception as e:
            why = 'tool error: %s: %s' % (type(e).__name__, e)
            res['trace'] = traceback.format_exc()[-2500:]
        ob = U.obligations()
        fns = set()
        for ex in U.execs:
            fns |= set(ex.functions)
            for n in ex.loop_notes:
                res['notes'].append('loop ' + str(n)[:200])
        fns |= set(U.functions)
        res['functions'] = sorted(fns - set(U.contracts))
        res['contracts'] = sorted(set(U.contracts))
        res['assumptions'] = U.assumptions
        res['notes'] += U.notes
        bad = [o for o in ob if o.status == 'refuted']
        unk = [o for o in ob if o.status == 'unknown']
        for o in ob:
            res['obl'].append((o.name, o.status, o.backend, round(o.time, 4), o.where))
        for o in (bad + unk)[:6]:
            res['hints'].append({'obligation': o.name, 'where': o.where, 'status': o.status,
                                 'detail': (o.detail or '')[:1200],
                                 'model': model_values(o.model) if o.model is not None and hasattr(o.model, 'decls')
                                 else (o.model if isinstance(o.model, dict) else {})})
        if bad:
            res['status'] = 'refuted'
            res['why'] = '; '.join('%s @ %s' % (o.name, o.where) for o in bad[:3])
            if why:
                res['why'] += ' (then ' + why + ')'
        elif why:
            res['why'] = why
        elif unk:
            res['why'] = 'solver gave up on: ' + '; '.join('%s @ %s' % (o.name, o.where) for o in unk[:3])
        else:
            miss = [n for ex, n in U.stub_need if not ex.stub_hits.get(n)]
            if not ob:
                res['why'] = 'no obligation generated'
            elif miss:
                res['why'] = 'contract of %s never used' % miss[0]
            elif U.need_reach and not U.reached:
                res['why'] = 'function end not reachable under the precondition'
            else:
                res['status'] = 'proved'
        res['solver_s'] = round(solve.STATS['time'], 3)
        res['queries'] = solve.STATS['queries']
    except Exception as e:
        res['why'] = 'tool error: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-2500:]
    res['time'] = round(time.time() - t0, 2)
    try:
        conn.send(res)
    except Exception as e:
        conn.send({'unit': uname, 'status': 'undecided', 'why': 'send: %s' % e, 'obl': [], 'functions': [],
                   'contracts': [], 'assumptions': [], 'notes': [], 'hints': [], 'time': 0})
    conn.close()
    os._exit(0)


def run_units(mod, only=None, jobs=None, limit=None, verbose=False):
    names = [n for n, _ in mod.UNITS if only is None or n in only]
    jobs = jobs or min(8, os.cpu_count() or 4)
    limit = limit or getattr(mod, 'UNIT_LIMIT', 240)
    ctx = mp.get_context('fork')
    todo = list(names)
    run = {}
    out = {}
    t_all = time.time()
    total = getattr(mod, 'TOTAL_LIMIT', 520 if TIER == 'quick' else 700)
    while todo or run:
        left = total - (time.time() - t_all)
        if left <= 0 and todo:
            for n in todo:
                out[n] = {'unit': n, 'status': 'undecided', 'why': 'no time left', 'obl': [], 'functions': [],
                          'contracts': [], 'assumptions': [], 'notes': [], 'hints': [], 'time': 0}
            todo = []
        while todo and len(run) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_run_unit, args=(mod.__name__, n, b))
            p.start()
            b.close()
            run[n] = (p, a, time.time())
        time.sleep(0.02)
        for n in list(run):
            p, a, t0 = run[n]
            r = None
            try:
                if a.poll():
                    r = a.recv()
                elif not p.is_alive():
                    r = a.recv() if a.poll() else {'status': 'undecided', 'why': 'worker died'}
                elif time.time() - t0 > limit or left <= 0:
                    p.kill()
                    r = {'status': 'undecided', 'why': 'time limit %ds' % limit}
            except EOFError:
                r = {'status': 'undecided', 'why': 'worker died'}
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                for k in ('obl', 'functions', 'contracts', 'assumptions', 'notes', 'hints'):
                    r.setdefault(k, [])
                r.setdefault('time', round(time.time() - t0, 2))
                r['unit'] = n
                out[n] = r
                del run[n]
                if verbose:
                    print('  %-34s %-10s %5.1fs %4d obl  %s' % (n, r['status'], r['time'], len(r['obl']), r['why'][:150]),
                          flush=True)
                    if r.get('trace') and verbose > 1:
                        print(r['trace'])
    return [out[n] for n in names]


# ------------------------------------------------------------------ concrete checks

class Fail(Exception):
    """a concrete input on which the compiled code misbehaves"""

    def __init__(self, what, ctx=None, **inp):
        Exception.__init__(self, what)
        self.what = what
        inp = dict(ctx or {}, **inp)
        self.inp = {k: (v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in inp.items()}


def _concrete(modname, budget, hints, seed, conn):
    r = {'status': 'ok', 'n': 0}
    try:
        mod = importlib.import_module(modname)
        try:
            n = mod.concrete(random.Random(seed), budget, hints)
            r['n'] = n or 0
        except Fail as e:
            r = {'status': 'fail', 'what': e.what, 'input': e.inp, 'n': 1}
    except BuildError as e:
        r = {'status': 'nobuild', 'what': str(e), 'n': 0}
    except Exception as e:
        r = {'status': 'error', 'what': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2500:], 'n': 0}
    conn.send(r)
    conn.close()
    os._exit(0)


def run_concrete(mod, budget, hints, seed, limit=None):
    """runs mod.concrete in a child (a crash there is a finding too)"""
    if not hasattr(mod, 'concrete'):
        return {'status': 'none', 'n': 0}
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_concrete, args=(mod.__name__, budget, hints, seed, b))
    p.start()
    b.close()
    t0 = time.time()
    limit = limit or budget * 4 + 60
    r = None
    try:
        while time.time() - t0 < limit:
            if a.poll(0.2):
                r = a.recv()
                break
            if not p.is_alive():
                r = a.recv() if a.poll() else None
                break
    except EOFError:
        r = None
    if r is None:
        if p.is_alive():
            p.kill()
            r = {'status': 'hang', 'what': 'concrete run exceeded %d s' % limit, 'n': 0}
        else:
            p.join()
            r = {'status': 'crash', 'what': 'compiled code crashed (exit %s)' % p.exitcode, 'n': 1, 'input': {}}
    p.join(2)
    return r


# ------------------------------------------------------------------ main

def known_findings(pid):
    res = []
    fnm = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(fnm):
        for l in open(fnm):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                res.append(l.split(' ', 2)[2])
    return res


def main(pid, argv=()):
    t0 = time.time()
    mod = importlib.import_module('checks.%s' % pid.lower())
    verbose = 2 if '-vv' in argv else 1 if '-v' in argv else 0
    only = None
    for a in argv:
        if a.startswith('--only='):
            only = set(a[7:].split(','))
    noconc = '--no-concrete' in argv
    wd = workdir()
    try:
        if hasattr(mod, 'prepare'):
            try:
                mod.prepare()
            except (Unsupported, Exception) as e:
                print('note: preparation failed: %s' % e)
        for s_, c_ in getattr(mod, 'SRCS', ()):
            try:
                ir.load(os.path.join(SRC, s_ + '.c'), c_)
            except Exception as e:
                print('note: cannot load %s (%s): %s' % (s_, c_, e))
        units = run_units(mod, only, verbose=verbose)
        refuted = [u for u in units if u['status'] == 'refuted']
        undec = [u for u in units if u['status'] == 'undecided']
        budget = 10 if TIER == 'quick' else 120
        budget = getattr(mod, 'BUDGET', {}).get(TIER, budget)
        if refuted or undec:
            budget = max(budget * 3, 30)
        hints = [dict(h, unit=u['unit']) for u in refuted + undec for h in u['hints']]
        conc = {'status': 'skipped', 'n': 0} if noconc else run_concrete(mod, budget, hints, SEED)
        viol = []
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % pid)
        if os.path.exists(rp):
            os.unlink(rp)
        line = None
        if conc['status'] in ('fail', 'crash'):
            viol.append(conc)
            json.dump({'property': pid, 'kind': 'failing input on compiled code', 'what': conc['what'],
                       'input': conc.get('input'), 'seed': SEED, 'failed_obligations': hints[:10],
                       'reproduce': 'cd /verif && python3-vt run.py %s' % pid}, open(rp, 'w'), indent=1, default=str)
            line = 'VIOLATION property=%s replay=%s' % (pid, rp)
            print('failing input: %s %s' % (conc['what'], json.dumps(conc.get('input'), default=str)[:600]))
        elif refuted:
            viol.append({'obligations': [u['why'] for u in refuted]})
            json.dump({'property': pid, 'kind': 'failed obligation, no failing input found',
                       'failed_obligations': hints[:20], 'units': [(u['unit'], u['why']) for u in refuted],
                       'concrete_search': conc, 'seed': SEED,
                       'reproduce': 'cd /verif && python3-vt run.py %s' % pid}, open(rp, 'w'), indent=1, default=str)
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)
        for u in refuted:
            print('refuted: %s: %s' % (u['unit'], u['why'][:400]))
        for u in undec:
            print('undecided (bounded check stands in): %s: %s' % (u['unit'], u['why'][:300]))
        if conc['status'] in ('error', 'nobuild', 'hang', 'none'):
            print('concrete check: %s %s' % (conc['status'], conc.get('what', '')))
            if verbose and conc.get('trace'):
                print(conc['trace'])
        if undec and conc['status'] not in ('ok', 'fail', 'crash', 'skipped'):
            print('note: neither proof nor bounded check available for undecided units')
        write_evidence(pid, mod, units, conc, viol, time.time() - t0, budget)
        for k in known_findings(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        npr = sum(1 for u in units if u['status'] == 'proved')
        print('%s: %d/%d units proved, %d obligations, concrete %s (%d cases), %.1fs' % (
            pid, npr, len(units), sum(len(u['obl']) for u in units), conc['status'], conc['n'], time.time() - t0))
        if line:
            print(line)
            return 1
        return 0
    finally:
        shutil.rmtree(os.path.join(HERE, 'work', '%d' % os.getpid()), ignore_errors=True)


def write_evidence(pid, mod, units, conc, viol, wall, budget):
    ob = [o for u in units for o in u['obl']]
    proved_units = [u for u in units if u['status'] == 'proved']
    back = {}
    for o in ob:
        if o[1] == 'proved':
            back[o[2]] = back.get(o[2], 0) + 1
    fns = sorted({f for u in proved_units for f in u['functions']})
    ctr = sorted({c for u in units for c in u['contracts']})
    asm = list(dict.fromkeys(list(getattr(mod, 'ASSUMPTIONS', [])) + [a for u in units for a in u['assumptions']]))
    asm += ['partial correctness: termination of loops is not proved',
            'clang -O0 IR with mem2reg is taken as the meaning of the C text; objects are disjoint unless stated',
            'the verifier in lvc/ and z3 are trusted']
    if getattr(mod, 'BOUNDED', None):
        asm += ['bounded only (not proved): ' + b for b in mod.BOUNDED]
    cov = {
        'obligations': len(ob), 'discharged': sum(1 for o in ob if o[1] == 'proved'),
        'checker_cmd': 'python3-vt run.py %s' % pid,
        'trusted_base': 'lvc (own verification condition generator), z3, clang front end' + getattr(mod, 'TRUST', ''),
        'back_ends': back,
        'solver_s': round(sum(u.get('solver_s', 0) for u in units), 2),
        'solver_queries': sum(u.get('queries', 0) for u in units),
        'functions_under_contract': fns,
        'functions_used_by_contract_only': ctr,
        'units': [{'unit': u['unit'], 'status': u['status'], 'obligations': len(u['obl']), 'time_s': u['time'],
                   'why': u['why'][:300]} for u in units],
        'bounded_units': [u['unit'] for u in units if u['status'] != 'proved'],
        'bounded_concrete_cases': conc['n'], 'bounded_concrete_status': conc['status'],
        'loop_notes': sorted({n for u in units for n in u['notes']})[:60],
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov,
          'assumptions': asm, 'wall_s': round(wall, 2), 'violations': len(viol)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d.tmp' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % pid))
