"""Decides one property: python3-vt -m verifier.check C12 [--tier thorough]

exit 0  every obligation generated from the current tree is discharged (or the stated bounded stand-in agrees)
exit 1  VIOLATION line: a failing input was found on the real code, or a named obligation is refuted
exit 2  no answer (the tree does not build, internal error)"""
import sys, os, time, json, pickle, select, signal, traceback, importlib, fcntl, random
from .exec import Obl
from . import build, prog, spec, verify, solve, golden, prove, terms as tm
from .terms import *
from .spec import *
from .build import VERIF, WORK, REPO, BuildError

MODULES = ['kinematics','composition','charge','stopping','grid','scattering','reactions','databases','transport','storage','capi','options','splines','integrators']
try:
    from .contracts import MODULES as _M
    MODULES = _M
except ImportError: pass
DEADLINE = float(os.environ.get('VERIF_DEADLINE', '780'))
SECS = 150
CHECKER = 'python3-vt -m verifier.check'
TRUSTED = ['clang 18 -O0 front end and the LLVM passes ' + build.PASSES + ' (source to IR)',
           'verifier/ir.py, exec.py, models.py: meaning of the IR instructions and of the std:: containers and algorithms',
           'verifier/prove.py, solve.py: case splitting, unfolding, the polynomial normaliser; z3 ' + '.'.join(map(str, __import__('z3').get_version()[:3]))]
ASSUME = ['double and float arithmetic is interpreted as real arithmetic (rounding, overflow and NaN are left out except where a contract says otherwise)',
          'int arithmetic does not overflow (element numbers, component counts, indices are far below 2^31)',
          'expressions are compared on their domain of definition: denominators non-zero, arguments of sqrt/log/pow inside their domains',
          'coefficients that agree to 1e-10 relative are taken as equal',
          'memory is never exhausted; extraction drops exceptions (-fno-exceptions) and assert() (-DNDEBUG)',
          'the default build configuration (options read from CMakeLists.txt) is the one verified in the quick tier']

class Ctx:
    def __init__(self, P, tier='quick', over=None):
        self.P, self.tier, self.over = P, tier, over
        self.prop = None
        self._nat = {}
    def native(self, asan=False):
        if asan not in self._nat:
            from .native import Native
            os.makedirs(WORK, exist_ok=True)
            with open(os.path.join(WORK, 'lock%d' % asan), 'w') as f:
                fcntl.flock(f, fcntl.LOCK_EX)
                self._nat[asan] = Native(self.P, [c for c in spec.ORDER if isinstance(c, Contract)], asan, self.over)
        return self._nat[asan]
def setup(over=None):
    P = prog.Program(over=over) if over else prog.Program()
    spec.LAY = P.lay; verify.DEM = P.dem
    golden.load()
    for m in MODULES: importlib.import_module('verifier.contracts.' + m)
    return P

# ---------------------------------------------------------------- one item (runs in a worker process)
def run_item(ctx, c, seed):
    t0 = time.time(); s0 = dict(solve.STATS)
    if isinstance(c, Lemma): out = run_lemma(c)
    elif isinstance(c, Item):
        out = dict(name=c.name, function='-', kind='item', status='proved', obls=[], why='')
        try:
            out.update(c.run(ctx))
        except (Unsupported, BuildError) as x: out.update(status='unsupported', why=str(x)[-1500:])
        except (KeyError, AttributeError, AssertionError, TypeError, ValueError, IndexError, RecursionError) as x: out.update(status='unsupported', why='internal: ' + ''.join(traceback.format_exception(x))[-1500:])
        if out['status'] == 'proved' and not all(o['ok'] for o in out['obls']): out['status'] = 'open'
    else: out = run_contract(ctx, c, seed)
    out['secs'] = round(time.time() - t0, 3)
    out['stats'] = {k: solve.STATS[k] - s0[k] for k in s0}
    return out
def run_lemma(c):
    out = dict(name=c.name, function='-', kind='lemma', obls=[], why='', status='proved')
    for text, facts, goal in c.goals():
        t = time.time(); b = dict(solve.STATS)
        facts = list(facts)
        if facts and solve.check(facts, None, 2000) == 'unsat':
            out.update(status='vacuous', why='lemma %s: facts of "%s" are inconsistent' % (c.name, text)); return out
        ok = prove.prove(facts, goal, SECS)
        out['obls'].append(dict(kind='lemma', text=text, ok=bool(ok), secs=round(time.time() - t, 3),
                                by=[n for n, k in (('z3', 'z3_unsat'), ('normaliser', 'nf_true')) if solve.STATS[k] > b[k]] or ['structural']))
    if not all(o['ok'] for o in out['obls']): out['status'] = 'unsupported'; out['why'] = 'lemma not proved'
    return out
def run_contract(ctx, c, seed):
    pure = ctx.prop == 'C01' and 'C01' not in c.full
    r = verify.verify(ctx.P, c, spec.REG, SECS, pure=pure)
    for al in c.alias or ():
        # the same contract when two reference parameters name one object
        r2 = verify.verify(ctx.P, c, spec.REG, SECS, alias=al)
        for o in r2.obls: o.text += ' [%s]' % ', '.join('%s is %s' % kv for kv in al.items())
        r.obls += r2.obls
        if r.status == 'proved': r.status, r.why = r2.status, r2.why
    out = dict(name=c.name, function=c.key, kind='contract', status=r.status, why=r.why, reach=r.reach, canary=r.canary,
               obls=[dict(kind=o.kind, text=o.text, ok=bool(o.ok), secs=round(getattr(o, 'secs', 0), 3), by=getattr(o, 'by', []), timeout=getattr(o, 'timeout', False)) for o in r.obls])
    if c.trusted: out['trusted'] = c.trusted
    if getattr(r, 'E', None) is not None: out['callees'] = sorted(getattr(r.E, 'used', ()))
    if r.status in ('open', 'unsupported', 'absent'):
        signal.signal(signal.SIGALRM, late); signal.alarm(300)
        try: (investigate_pure if pure else investigate)(ctx, c, r, out, seed)
        except Late: out['status'] = 'timeout'; out['why'] = (out['why'] or 'not discharged') + ' [the search for a failing input was stopped]'
        finally: signal.alarm(0)
    return out
class Late(BaseException): pass
def late(*a): raise Late()
def investigate_pure(ctx, c, r, out, seed):
    """looks for a sequence of calls after which the real function gives another result for the same arguments"""
    from . import replay
    try: nat = ctx.native()
    except BuildError as x: out['why'] += ' [native build failed]'; return
    n = 0
    if c.native and nat.has(c.name):
        args, bad, n = replay.search_history(c, nat, 25, seed)
        if args is not None:
            out['violation'] = dict(args=args, mismatch=bad, asan=False); return
    out['bounded'] = dict(samples=n)
    if r.status == 'open':
        if all(o.kind in ('post', 'frame') for o in r.obls if not o.ok): out['refuted'] = True
        else: out['status'] = 'unsupported'     # other obligations (bounds, preconditions) belong to other properties
MEMK = ('bounds', 'iterator', 'null', 'pre', 'conversion')
def investigate(ctx, c, r, out, seed):
    """an obligation is not discharged: look for a failing input on the real code"""
    from . import replay
    opn = [o for o in r.obls if not o.ok] if r.status == 'open' else []
    ts = [o.goal for o in opn] + [f for o in opn for f in o.pc]
    if not ts and r.rets: ts = [f for s, v in r.rets for f in s.pc]
    native_ok = c.native and (c.post is not None or c.mod or c.rel)
    try:
        nat = ctx.native()
    except BuildError as x:
        out['why'] += ' [native build failed]'; nat = None
    secs = 25 if ctx.tier == 'quick' else 90
    n = 0
    if nat is not None and native_ok and nat.has(c.name):
        # first inside the cases the prover got stuck in, then anywhere
        leafs = [o.leaf for o in opn if getattr(o, 'leaf', None)]
        for pc, g in leafs[:4]:
            args, bad, k = replay.search(c, nat, ts + list(pc), secs / 2 / min(4, len(leafs)), seed, bounds=replay.bounds_of(pc))
            n += k
            if args is not None:
                out['violation'] = dict(args=args, mismatch=bad, asan=False); return
        args, bad, k = replay.search(c, nat, ts, secs, seed)
        n += k
        if args is not None:
            out['violation'] = dict(args=args, mismatch=bad, asan=False); return
    if nat is not None and c.search:
        for asan in (False, True):
            try: args, bad, k = c.search(ctx.native(asan), secs, seed + asan)
            except (BuildError, KeyError): continue      # not built, or the function cannot be called from the driver
            n += k
            if args is not None:
                out['violation'] = dict(args=args, mismatch=bad, asan=asan); return
    if nat is not None and nat.has(c.name) and (any(o.kind in MEMK for o in opn) or r.status == 'unsupported'):
        try: an = ctx.native(True)
        except BuildError: an = None
        if an is not None:
            args, bad, m = replay.search(c, an, ts, secs, seed + 1, crash_only=True)
            n += m
            if args is not None:
                out['violation'] = dict(args=args, mismatch=bad, asan=True); return
    out['bounded'] = dict(samples=n)
    if r.status != 'open': return
    if (c.own is not None or c.soft) and n:        # second contracts are not evaluated on samples: what decides is the search on the real code
        out['status'] = 'unsupported'; out['why'] = 'not discharged; no failing input among %d' % n
        return
    # which of the open obligations did the samples exercise
    orc = replay.Oracle(nat)
    cov = [[0, 0] for _ in opn]
    end = time.time() + 20
    opl = []
    for o in opn:
        x = Obl(o.kind, o.leaf[0], o.leaf[1], o.where, o.text) if getattr(o, 'leaf', None) else o
        opl.append(x)
    ss = [replay.Sampler(seed + 2, replay.special_values(ts)), replay.Sampler(seed + 3, replay.special_values(ts), replay.bounds_of(opl[0].pc))]
    gen = [c.sample(s) if c.sample else None for s in ss]
    k = 0
    while time.time() < end and k < 3000 and min((h for h, f in cov), default=0) < 60:
        k += 1
        try:
            s = ss[k % 2]
            args = next(gen[k % 2]) if gen[k % 2] else {p: s.value(p, t, c.cls) for p, t in c.all_params()}
            e, env = replay.env_of(c, args)
        except (replay.Skip, StopIteration): break
        for o, cv in zip(opl, cov):
            try:
                hit, ok = replay.eval_obligation(o, env, orc, s.r)
            except Exception: continue
            if hit: cv[0] += 1; cv[1] += not ok
    for o, d, cv in zip(opn, [x for x in out['obls'] if not x['ok']], cov):
        d['samples'], d['sample_failures'] = cv
        # obligation exercised many times without failing and the real code agreed with the contract
        # on every sample: taken as a weakness of the prover, reported as bounded
        d['bounded'] = cv[0] >= 20 and cv[1] == 0
    if not all(d.get('bounded') for d in out['obls'] if not d['ok']): out['refuted'] = True

# ---------------------------------------------------------------- scheduler
def run_all(ctx, items, seed, jobs, deadline):
    todo = list(items); live = {}; res = {}; apart = set()
    end = time.time() + deadline
    while todo or live:
        while todo and len(live) < jobs:
            c = todo.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                solve.APART = c.name in apart
                if not solve.APART:
                    def hang(): os.write(wfd, b'stuck'); os._exit(0)
                    solve.HANG = hang; solve.watchdog()
                try: r = run_item(ctx, c, seed)
                except BaseException as x:
                    r = dict(name=c.name, function='-', kind='error', status='error', obls=[], why=''.join(traceback.format_exception(x))[-3000:], secs=0, stats={})
                for n in ctx._nat.values(): n.stop()
                with os.fdopen(wfd, 'wb') as f: f.write(json.dumps(r, default=str).encode())
                os._exit(0)
            os.close(wfd)
            live[rfd] = (pid, c, b'', time.time())
        rl, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rl:
            pid, c, buf, t = live[fd]
            d = os.read(fd, 1 << 20)
            if d: live[fd] = (pid, c, buf + d, t)
            else:
                os.close(fd); os.waitpid(pid, 0); del live[fd]
                if buf == b'stuck': apart.add(c.name); todo.insert(0, c); continue
                try: res[c.name] = json.loads(buf)
                except ValueError: res[c.name] = dict(name=c.name, function='-', kind='error', status='error', obls=[], why='worker ended without a result', secs=0, stats={})
        if time.time() > end:
            for fd, (pid, c, buf, t) in live.items():
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd)
                res[c.name] = dict(name=c.name, function=getattr(c, 'key', '-'), kind='contract', status='timeout', obls=[], why='not finished within the time limit', secs=time.time() - t, stats={})
            for c in todo: res[c.name] = dict(name=c.name, function=getattr(c, 'key', '-'), kind='contract', status='timeout', obls=[], why='not started within the time limit', secs=0, stats={})
            break
    return [res[c.name] for c in items]

def known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
            if l.startswith('known: property=%s ' % prop): out.append(json.loads(l.split(' ', 2)[2]))
    except OSError: pass
    return out
def is_known(k, r):
    return k.get('contract') == r['name'] and (not k.get('obligation') or any(k['obligation'] in o['text'] for o in r['obls'] if not o['ok']))

def main(argv):
    prop = argv[0]
    tier = 'thorough' if 'thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    evf = os.path.join(VERIF, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    if os.path.exists(evf): os.unlink(evf)
    try:
        P = setup()
    except BuildError as x:
        print('the tree does not build:\n' + str(x)); return 2
    ctx = Ctx(P, tier); ctx.prop = prop
    items = [c for c in spec.ORDER if prop in c.props]
    if not items: print('no contracts for', prop); return 2
    results = run_all(ctx, items, seed, min(8, os.cpu_count() or 1), DEADLINE - (time.time() - t0) if tier == 'quick' else 3000)
    if tier == 'thorough': thorough(ctx, items, results, prop)
    return report(prop, tier, seed, results, t0, evf)
def thorough(ctx, items, results, prop):
    """the same contracts on the other build configurations"""
    for over in ({'ET_CALCULATED_INDEX': 0}, {'THIN_TARGET_APPROXIMATION': 0}):
        try:
            P = prog.Program(over=over); spec.LAY = P.lay; verify.DEM = P.dem
        except Exception as x: continue
        c2 = Ctx(P, 'thorough', over); c2.prop = prop
        for r in run_all(c2, [c for c in items if isinstance(c, Contract)], 1, 8, 1200):
            r['name'] += ' [%s]' % ' '.join('%s=%s' % kv for kv in over.items()); r['config'] = over
            if r['status'] == 'open' and not r.get('violation'): r['status'] = 'unsupported'; r.pop('refuted', None)
            results.append(r)
def report(prop, tier, seed, results, t0, evf):
    kf = known(prop)
    viol, knownf, err = [], [], []
    nobl = ndis = 0; byb = {}
    st = {}
    for r in results:
        for o in r['obls']:
            nobl += 1
            if o['ok']:
                ndis += 1
                k = '+'.join(o.get('by') or ['structural']); byb[k] = byb.get(k, 0) + 1
        for k, v in r.get('stats', {}).items(): st[k] = st.get(k, 0) + v
        if r['status'] in ('vacuous', 'error'): err.append(r)
        if r.get('violation') or r.get('refuted'):
            (knownf if any(is_known(k, r) for k in kf) else viol).append(r)
    bounded = [r for r in results if r['status'] in ('unsupported', 'timeout', 'open') and r not in viol and r not in knownf]
    absent = [r['name'] for r in results if r['status'] == 'absent']
    proved = [r for r in results if r['status'] == 'proved']
    for r in results:
        line = '%-34s %-12s %3d obligations %6.1fs' % (r['name'], r['status'], len(r['obls']), r['secs'])
        if r['why']: line += '  ' + r['why'].strip().split('\n')[-1][:160]
        print(line)
        for o in r['obls']:
            if not o['ok']: print('      not discharged: %s: %s%s' % (o['kind'], o['text'][:200], ' [exercised by %s samples]' % o['samples'] if 'samples' in o else ''))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2),
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd='%s %s' % (CHECKER, prop), trusted_base=TRUSTED,
                            functions_under_contract=[r['function'] for r in results if r['kind'] == 'contract' and r['status'] == 'proved'],
                            lemmas=[r['name'] for r in results if r['kind'] in ('lemma', 'item')],
                            discharged_by=byb, solver=dict((k, round(v, 3) if isinstance(v, float) else v) for k, v in st.items()),
                            vacuity=dict(reachable_returns=sum(r.get('reach') or 0 for r in results), wrong_assertions_rejected=sum(r.get('canary') or 0 for r in results)),
                            bounded_only=[dict(name=r['name'], function=r['function'], why=(r['why'] or 'not discharged')[:300], samples=r.get('bounded', {}).get('samples', 0)) for r in bounded],
                            absent=absent, trusted_contracts=[r['name'] + ': ' + r['trusted'] for r in results if r.get('trusted')]),
              assumptions=ASSUME, violations=[])
    rc = 0
    if err:
        for r in err: print('ERROR %s: %s' % (r['name'], r['why']))
        rc = 2
    if nobl == 0: print('ERROR no obligations'); rc = 2
    for r in knownf: print('KNOWN-FINDING: property=%s %s %s' % (prop, r['name'], [o['text'] for o in r['obls'] if not o['ok']][:1]))
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    for r in viol:
        f = os.path.join(VERIF, 'replay', '%s-%s.json' % (prop, ''.join(ch if ch.isalnum() or ch in '_-' else '_' for ch in r['name'])))
        d = dict(property=prop, contract=r['name'], function=r['function'], failed_obligations=[o for o in r['obls'] if not o['ok']][:40], violation=r.get('violation'), verifier_output=r['why'])
        json.dump(d, open(f, 'w'), indent=1, default=str)
        ev['violations'].append(dict(contract=r['name'], replay=f))
        for o in [o for o in r['obls'] if not o['ok']][:3]: print('failed obligation: %s of %s: %s' % (o['kind'], r['function'], o['text'][:300]))
        if r.get('violation'): print('failing input: %s\n  %s' % (json.dumps(r['violation'].get('args'), default=str)[:1500], json.dumps(r['violation'].get('mismatch'), default=str)[:1500]))
        print('VIOLATION property=%s replay=%s%s' % (prop, f, '' if r.get('violation') else ' no-failing-input-found'))
        rc = 1
    json.dump(ev, open(evf, 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d bounded, %.1fs' % (prop, nobl, ndis, len(bounded), time.time() - t0))
    return rc
if __name__ == '__main__':
    try: code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc(); code = 2
    sys.stdout.flush()
    os._exit(code)
