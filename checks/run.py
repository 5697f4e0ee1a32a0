#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property: run.py <property id> [--tier quick|thorough]

1. extracts the functions the property depends on from /repo's current sources (gvc/extract.py)
2. generates every verification condition of the contracts in specs/ that carry the property and
   discharges them one by one (z3, then cvc5)
3. runs the native conformance harness (replay/) on the real code: it supplies the concrete failing
   input for a failed obligation and cross-checks the contracts themselves
Exit 0: everything discharged.  Exit 1 + VIOLATION line: an obligation failed.  Exit 2: no answer."""
import argparse, glob, importlib, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import table
from gvc import extract as X
from gvc.extract import ExtractError

OUT = os.path.join(ROOT, 'evidence')


def load(prop):
    from gvc.spec import SPECS
    for m in table.PROPS[prop]['specs']:
        importlib.import_module('specs.' + m)
    return [(i, s) for i, s in enumerate(SPECS) if prop in s.props]


MODS = {}
ARGS = None


def mods_of(sp):
    return [MODS[s] for s in sp.srcs]


def count_cases(sp):
    from gvc.spec import SpecRun
    r = SpecRun(sp, mods_of(sp), {})
    r.select = set()
    r.execute(60)
    return r.ncases, r.failures


def cvc5(timeout):
    def second(o):
        import z3
        s = z3.Solver()
        for c in o.pc:
            s.add(c)
        s.add(z3.Not(o.goal))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 20)
            r = p.stdout.strip().split('\n')[0]
            return r if r in ('sat', 'unsat') else 'unknown'
        except subprocess.TimeoutExpired:
            return 'unknown'
        finally:
            os.unlink(f.name)
    return second


def task(job):
    """one contract case: generate and discharge its obligations"""
    from gvc.spec import SPECS, SpecRun
    idx, case, tier, exlim, tmo, again = job
    if again:
        from gvc import exec as E
        E.SCALE[0], E.SEED[0] = 4.0, again
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    sp = SPECS[idx]
    t0 = time.time()
    r = SpecRun(sp, mods_of(sp), {}, tier)
    r.select = {case}
    res = dict(spec=sp.name, case=case, failures=[], obls=[], trivial=0, stubs=[], inlined=[], hints=[], vacuous=[], exec_s=0, solve_s=0)
    try:
        r.execute(exlim)
        t1 = time.time()
        r.discharge(timeout=tmo, second=cvc5(tmo))
        res['exec_s'], res['solve_s'] = t1 - t0, time.time() - t1
        for c in r.cases:
            e = c.eng
            res['trivial'] += e.trivial
            res['stubs'] += sorted(e.used_stubs)
            res['inlined'] += sorted(e.inlined)
            for o in e.obls:
                res['obls'].append((o.name, o.kind, o.where, o.status, round(o.time, 3), o.backend))
                if o.status != 'unsat' and o.model:
                    res['hints'] += re.findall(r'(?<![\w!.])-? ?\d+(?![\w.])', o.model)[:400]
        res['failures'] = r.failures
        res['gaveup'] = sum(c.eng.gaveup for c in r.cases)
        res['vacuous'] = r.vacuous
        if tier == 'thorough':
            second = cvc5(10)
            n = ok = bad = 0
            for c in r.cases:
                for o in c.eng.obls:
                    if o.status == 'unsat' and o.backend == 'z3':
                        n += 1
                        a = second(o)
                        ok += a == 'unsat'
                        if a == 'sat':
                            res['failures'].append(('obligation', 'solvers disagree on ' + o.name))
            res['second'] = (n, ok)
    except MemoryError:
        res['failures'].append(('engine', 'verification of %s: out of memory' % sp.name))
    except Exception as e:
        res['failures'].append(('engine', 'verification of %s: internal error %s' % (sp.name, traceback.format_exc()[-1500:])))
    res['wall'] = time.time() - t0
    return res


def literals(mods):
    out = set()
    for m in mods:
        for l in getattr(m, 'text', '').split('\n'):
            if l.startswith('  ') and '!dbg' in l:
                for x in re.findall(r'(?<![\w%@!.])-?\d+(?![\w.])', l.split('!dbg')[0]):
                    if abs(int(x)) > 16 and len(x) < 20:
                        out.add(int(x))
    return out


def harness(prop, cfg, work, secs, hints, seed):
    """native run of the contracts on the real code; (status, text)"""
    h = cfg.get('harness')
    if not h:
        return 'none', '', ''
    exe = os.path.join(work, 'h_' + h)
    srcs = ['%s/src/%s.c' % (X.REPO, s) for s in cfg['hsrcs']]
    libs = subprocess.run(['pkg-config', '--libs', 'glib-2.0', 'gobject-2.0'], capture_output=True, text=True).stdout.split()
    cmd = ['clang-18', '-g', '-O1', '-w', '-fno-sanitize-recover=all', '-fsanitize=address,undefined', '-fno-sanitize=pointer-overflow,function,alignment,nonnull-attribute',
           '-I', X.REPO + '/include', '-I', X.REPO + '/src'] + X.flags() + ['%s/replay/%s.c' % (ROOT, h)] + srcs + ['-o', exe] + libs + cfg.get('hlibs', [])
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        return 'nobuild', ' '.join(cmd), p.stderr[-3000:]
    env = dict(os.environ, HINTS=' '.join(str(x) for x in hints), VSEED=str(seed), VSECS=str(secs),
               ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', G_SLICE='always-malloc', LC_ALL='C')
    line = 'HINTS="%s" VSEED=%d VSECS=%s %s %s' % (env['HINTS'], seed, secs, exe, prop)
    scratch = tempfile.mkdtemp(dir=work)
    try:
        p = subprocess.run([exe, prop], capture_output=True, text=True, errors='replace', timeout=secs * 3 + 60, env=env, cwd=scratch)
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'')
        o = o.decode('utf8', 'replace') if isinstance(o, bytes) else o
        return 'fail', line, o[-3000:] + '\nFAIL: did not terminate'
    txt = (p.stdout[-4000:] + '\n' + p.stderr[-6000:]).strip()
    if p.returncode == 0:
        return 'ok', line, txt
    return 'fail', line, txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop, tier = a.prop, a.tier
    cfg = table.PROPS[prop]
    work = tempfile.mkdtemp(prefix='gvc_')
    try:
        rc = decide(prop, tier, cfg, work, seed, a, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def hints_of(results):
    hints = []
    for r in results:
        for h in r['hints']:
            h = int(h.replace(' ', ''))
            if abs(h) < 2**64 and h not in hints:
                hints.append(h)
    return hints, sorted(literals(MODS.values()))[:200]


def undecided(r):
    """nothing refuted: only what the solvers gave up on, ran out of time for, or what lacks an invariant they gave up on"""
    return r['failures'] and all((k == 'obligation' and ('[unknown]' in t or '[sat]' in t and r.get('gaveup'))) or (k == 'engine' and ('time limit' in t or 'closed form' in t)) for k, t in r['failures'])


def second_attempt(results, tier, deadline):
    todo = [r for r in results if undecided(r)]
    if not todo or any(r['failures'] and not undecided(r) for r in results):
        return results
    pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 2), maxtasksperchild=1)
    pend = []
    for r in todo:
        i, k, t, exlim, tmo, _ = r['job']
        for sd in ((11, 5) if len(todo) <= 4 else (11,)):
            pend.append((r, pool.apply_async(task, ((i, k, t, max(60, deadline - time.time() - 60), tmo, sd),))))
    print('second attempt: ' + '; '.join('%s case %d: %s' % (r['spec'], r['case'], r['failures'][0][1][:150]) for r in todo))
    done = {}
    for r, p in pend:
        try:
            x = p.get(timeout=max(0.1, deadline - time.time()))
            if not x['failures']:
                x['job'] = r['job']
                done[id(r)] = x
            elif not undecided(x):
                r['hints'] += x['hints']
        except mp.TimeoutError:
            pass
    pool.terminate()
    return [done.get(id(r), r) for r in results]


def decide(prop, tier, cfg, work, seed, a, t0):
    specs = load(prop)
    try:
        for s in sorted({x for _, sp in specs for x in sp.srcs}):
            MODS[s] = X.extract(s, work)
    except ExtractError as e:
        print('cannot extract: %s' % e)
        return 2
    thorough = tier == 'thorough'
    budget = 5400 if thorough else 600
    exlim, tmo = (900, 60) if thorough else (240, 20)
    jobs = []
    failures = []
    for i, sp in specs:
        n, f = count_cases(sp)
        failures += f
        if n == 0 and not f and not sp.opts.get('optional'):
            failures.append(('engine', 'contract %s has no cases' % sp.name))
        jobs += [(i, k, tier, sp.opts.get('exec_limit', exlim), tmo, 0) for k in range(n)]
    results = []
    # the native run goes on beside the proofs: a failing input decides at once
    natpool = mp.get_context('fork').Pool(1)
    nat = natpool.apply_async(harness, (prop, cfg, work, 10, sorted(literals(MODS.values()))[:200], seed))
    pool = mp.get_context('fork').Pool(a.jobs, maxtasksperchild=1)
    deadline = t0 + budget
    known = False
    pend = [(j, pool.apply_async(task, (j,))) for j in jobs]
    for j, p in pend:
        try:
            while True:
                try:
                    r = p.get(timeout=max(0.05, min(0.5, deadline - time.time())))
                    break
                except mp.TimeoutError:
                    if not known and nat.ready():
                        known = True
                        if nat.get()[0] == 'fail':
                            deadline = min(deadline, time.time() + 30)
                    if time.time() >= deadline:
                        raise
            results.append(r)
            results[-1]['job'] = j
            if results[-1]['failures']:       # already decided: do not wait long for the rest
                deadline = min(deadline, time.time() + (600 if thorough else 60))
        except mp.TimeoutError:
            from gvc.spec import SPECS
            results.append(dict(spec=SPECS[j[0]].name, case=j[1], failures=[('engine', 'verification of %s case %d: time limit' % (SPECS[j[0]].name, j[1]))],
                                obls=[], trivial=0, stubs=[], inlined=[], hints=[], vacuous=[], exec_s=0, solve_s=0, wall=0, job=j))
    pool.terminate()
    extra_cov = {}
    for extra in cfg.get('extra', []):
        f, res = extra(work, tier, X)
        failures += f
        results += res
    fr = None
    first = nat.get()
    natpool.terminate()
    if first[0] in ('fail', 'nobuild'):
        fr = first
    elif any(r['failures'] for r in results):
        # a failing input decides; without one, what the solvers gave up on gets a second attempt with more effort
        hints, lits = hints_of(results)
        fr = harness(prop, cfg, work, 30, hints[:100] + lits, seed)
        if fr[0] != 'fail' and not failures:
            results = second_attempt(results, tier, min(t0 + budget + 150, time.time() + 400))
    for r in results:
        failures += r['failures']
        for v in r['vacuous']:
            failures.append(('engine', 'vacuous contract case: ' + v))
    nob = sum(len(r['obls']) + r['trivial'] for r in results)
    ndis = sum(sum(1 for o in r['obls'] if o[3] == 'unsat') + r['trivial'] for r in results)
    if fr is None:
        fr = harness(prop, cfg, work, 60 if thorough else 30, sorted(literals(MODS.values()))[:200], seed) if thorough or failures else first
    fr, cmd, text = fr
    wall = time.time() - t0
    stubs = sorted({s for r in results for s in r['stubs']})
    from gvc.stubs import DOC
    trusted = ['contract of %s' % (DOC.get(s) or s) for s in stubs if not s.startswith('llvm.')]
    trusted += table.BASE_TRUST
    backends = {}
    for r in results:
        for o in r['obls']:
            if o[3] == 'unsat':
                backends[o[5]] = backends.get(o[5], 0) + 1
    backends['linear normaliser (built in)'] = sum(r['trivial'] for r in results)
    bounded = sorted({b for r in results for b in r.get('bounded', [])})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(wall, 1), violations=1 if (failures or fr == 'fail') else 0,
              assumptions=table.ASSUME + cfg.get('assume', []),
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd='cd /verif && checks/run.py %s --tier %s' % (prop, tier), trusted_base=trusted,
                            functions_under_contract=sorted({f for _, sp in specs for f in sp.fns} | set(cfg.get('fns', []))),
                            functions_inlined=sorted({f for r in results for f in r['inlined']}),
                            contract_cases=len(results), back_ends=backends, solver_s=round(sum(r['solve_s'] for r in results), 1),
                            generation_s=round(sum(r['exec_s'] for r in results), 1), bounded_stand_ins=bounded,
                            native_conformance_run=dict(status=fr, output=text[-600:] if fr == 'ok' else text[-3000:]),
                            sample_obligations=[o[0] for r in results for o in r['obls'][-1:]][:20]))
    if thorough:
        n2 = sum(r.get('second', (0, 0))[0] for r in results)
        k2 = sum(r.get('second', (0, 0))[1] for r in results)
        ev['coverage']['second_solver'] = dict(asked=n2, confirmed_by_cvc5=k2)
    os.makedirs(OUT, exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, prop + '.json'), 'w'), indent=1)
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        if l.startswith('finding: property=%s ' % prop):
            print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
    print('%s: %d obligations, %d discharged, %d contract cases, native run %s, %.1f s' % (prop, nob, ndis, len(results), fr, wall))
    if a.v:
        for r in sorted(results, key=lambda r: -r['wall'])[:8]:
            print('   %-50s case %d  %.1fs exec %.1fs solve' % (r['spec'], r['case'], r['exec_s'], r['solve_s']))
    if fr == 'nobuild':
        if not failures:
            print('native harness does not build:\n' + text)
            return 2
    if failures or fr == 'fail':
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'replay', prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\n\nfailed obligations (from the current sources in %s):\n' % (prop, X.REPO))
            for k, t in failures:
                f.write('  [%s] %s\n' % (k, t))
            if not failures:
                f.write('  none; the native run contradicts the contracts\n')
            f.write('\nnative run on the real code: %s\n%s\n%s\n' % (fr, cmd, text))
            for r in results:
                for o in r['obls']:
                    if o[3] != 'unsat':
                        f.write('verifier: %s\n' % (o,))
        for k, t in failures[:15]:
            print('  [%s] %s' % (k, t[:400]))
        if fr == 'fail':
            print('  native run: ' + '\n    '.join([l for l in text.split('\n') if 'FAIL' in l or 'ERROR' in l or 'runtime error' in l][:5]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':        # the same formulas in the same order on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    main()
