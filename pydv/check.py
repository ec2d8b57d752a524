"""check <property>: discharge the property's contracts on the current tree, and replay on the real code.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line otherwise.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pwd
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NPROC = 8
LIMIT = 780        # seconds a quick check may take


def _worker(modname, idx, scale, conn):
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        import z3
        z3.set_param('memory_max_size', 5000)
        from pydv import unit
        m = importlib.import_module(modname)
        conn.send(unit.run_unit(m.UNITS[idx], scale))
    except BaseException as e:
        conn.send(dict(unit='#%d' % idx, status='unsupported', reason='worker: %r' % e, obligations=0, discharged=0,
                       failed=[], functions=[], trusted=[], models=[], backends={}, solver_s=0, covers={}, loops=[]))
    conn.close()


def nothing(name, reason):
    return dict(unit=name, status='unsupported', reason=reason, obligations=0, discharged=0, failed=[], functions=[],
                trusted=[], models=[], backends={}, solver_s=0, covers={}, loops=[])


def run_units(modname, jobs, nproc, end=None, settled=None):
    """jobs: list of (idx, name, scale, hard limit in s); all have to be done at `end`, or soon after settled()."""
    results, live, queue = {}, [], list(jobs)
    grace = None
    ctx = mp.get_context('fork')
    while queue or live:
        now = time.time()
        if grace is None and settled is not None and settled():
            grace = now + 20
        over = 'time limit' if end is not None and now > end else 'not needed' if grace is not None and now > grace else None
        if over:
            for idx, name, _, _ in queue:
                results[idx] = nothing(name, over)
            queue = []
        while queue and len(live) < nproc:
            idx, name, scale, limit = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(modname, idx, scale, b))
            p.start()
            b.close()
            live.append((idx, name, p, a, time.time() + limit))
        for it in list(live):
            idx, name, p, a, until = it
            done = None
            if a.poll(0):
                try:
                    done = a.recv()
                except EOFError:
                    done = None
                    p.join()
                    results[idx] = nothing(name, 'worker died')
                    live.remove(it)
                    continue
            elif over or time.time() > until:
                p.kill()
                done = nothing(name, over or 'time limit')
            if done is not None:
                results[idx] = done
                p.join(5)
                live.remove(it)
        time.sleep(0.02)
    return results


def harness(prop, seed, budget, hints=None, replay=None, skip_fixed=False, known=()):
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    nobody = pwd.getpwnam('nobody').pw_uid if os.getuid() == 0 else 0
    cmd = [PY, os.path.join(ROOT, 'replay', 'harness.py'), prop, '--seed', str(seed), '--budget', str(budget),
           '--scratch', scratch]
    if nobody:
        cmd += ['--uid', str(nobody)]
    if replay:
        cmd += ['--replay', replay]
    if skip_fixed:
        cmd += ['--skip-fixed']
    if known:
        cmd += ['--known', ','.join(known)]
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE='1',
               LC_ALL='C.UTF-8')
    if TIER == 'thorough':
        env['VERIF_TIER'] = TIER
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 150, env=env, stdin=subprocess.DEVNULL)
        line = [x for x in p.stdout.split('\n') if x.startswith('{')]
        if not line:
            return dict(status='error', message='harness: exit %s\n%s' % (p.returncode, p.stderr[-2000:]), cases=0)
        return json.loads(line[-1])
    except subprocess.TimeoutExpired:
        return dict(status='error', message='harness timed out', cases=0)
    finally:
        for r, ds, fs in os.walk(scratch):
            try:
                os.chmod(r, 0o700)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN ') and ('property=%s ' % prop) in line:
                tag = line.split('tag=')[1].split()[0]
                out.append((tag, line.split('tag=%s' % tag)[1].strip()))
    return out


def save(prop, kind, data):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1, default=str)
    p = os.path.join(d, '%s-%s-%s.json' % (prop, kind, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(text)
    return p


def source_digest(functions):
    """Digest of the source of the functions a unit interpreted (comments and layout left out)."""
    from pydv import unit
    pr = unit.project()
    parts = []
    for k in sorted(functions):
        try:
            parts.append(k + ast.dump(pr.func(k).node))
        except Exception:
            parts.append(k + '?')
    return hashlib.sha256('\n'.join(parts).encode()).hexdigest()[:16]


def baseline():
    p = os.path.join(ROOT, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def main(argv):
    if len(argv) >= 2 and argv[0] == '--replay':
        return replay_file(argv[1])
    prop = argv[0]
    t0 = time.time()
    modname = 'contracts.' + prop.lower()
    thorough = TIER == 'thorough'
    m = importlib.import_module(modname)
    conf = getattr(m, 'CONF', {})
    units = [(i, u) for i, u in enumerate(m.UNITS) if thorough or u.tier == 'quick']
    scale = 4.0 if thorough else 1.0
    known = known_findings(prop)
    tags = [t for t, _ in known]
    budget = conf.get('budget', 25) * (8 if thorough else 1)
    hres = {}

    def bg(k, seed, skip):
        hres[k] = harness(prop, seed, budget, skip_fixed=skip, known=tags)
    nh = 2
    threads = [threading.Thread(target=bg, args=(k, SEED * 1000 + k, k > 0)) for k in range(nh)]
    # fork the workers before starting threads that may hold locks: the harness threads only wait for processes
    for t in threads:
        t.start()
    jobs = [(i, u.name, scale, u.budget * scale * 1.6 + 30) for i, u in units]
    found = lambda: any(r['status'] == 'fail' for r in list(hres.values()))
    limit = LIMIT * (4 if thorough else 1)
    results = run_units(modname, jobs, NPROC - nh, end=t0 + limit * 0.55, settled=found)
    for t in threads:
        t.join()
    base = baseline().get(prop, {})

    # failed obligations get a second chance with more time (an invariant may have been missed for want of it)
    again = [(i, u) for i, u in units if results[i]['status'] == 'failed']
    again += [(i, u) for i, u in units if results[i]['status'] == 'unsupported' and (
        'time' in results[i]['reason'] or 'worker' in results[i]['reason'])]
    harness_bad = next((r for r in hres.values() if r['status'] == 'fail'), None)
    if again and not harness_bad:
        r2 = run_units(modname, [(i, u.name, scale * 2, u.budget * scale * 2.5 + 60) for i, u in again], NPROC, end=t0 + limit * 0.8)
        for i, r in r2.items():
            r['retried'] = True
            if r['status'] == 'unsupported' and any(f['status'] == 'refuted' for f in results[i]['failed']):
                continue        # not decided otherwise
            results[i] = r
    failed = [(i, results[i]) for i, u in units if results[i]['status'] == 'failed']
    unsup = [(i, results[i]) for i, u in units if results[i]['status'] == 'unsupported']
    notes = []
    # same source as when the proof was recorded, solver out of time: undecided this time, no verdict about the code
    still = []
    for i, r in failed:
        b = base.get(r['unit'])
        if b and all(f['status'] == 'unknown' for f in r['failed']) and b.get('digest') == source_digest(r['functions']):
            notes.append('unit %r: solver out of time on source that is unchanged since the proof was recorded; '
                         'undecided in this run' % r['unit'])
            r['status'] = 'undecided'
        else:
            still.append((i, r))
    failed = still
    bounded_for = [r['unit'] for _, r in unsup]
    violation = None
    extra_cases = 0
    if harness_bad is None and (failed or unsup):
        # look for a failing input of the failed obligations, and stand in for what is out of reach
        seeds = [SEED * 1000 + 100 + k for k in range(NPROC - 1)]
        more = {}
        b2 = (40 if time.time() - t0 > limit * 0.6 else 70 if failed else 20) * (4 if thorough else 1)

        def bg2(k):
            more[k] = harness(prop, seeds[k], b2, skip_fixed=True, known=tags)
        ts = [threading.Thread(target=bg2, args=(k,)) for k in range(len(seeds))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        extra_cases = sum(r.get('cases', 0) for r in more.values())
        for k, r in more.items():
            if r['status'] == 'fail' and harness_bad is None:
                harness_bad = r
    errors = [r for r in hres.values() if r['status'] == 'error']
    if harness_bad is not None:
        data = dict(property=prop, kind='input', case=harness_bad['case'], message=harness_bad['message'],
                    how='%s %s --replay FILE' % (os.path.join(ROOT, 'check'), ''), tree=REPO,
                    failed_obligations=[f for _, r in failed for f in r['failed']][:6])
        violation = (save(prop, 'input', data), '', harness_bad['message'])
    elif failed:
        data = dict(property=prop, kind='obligation', obligation=failed[0][1]['failed'][0]['name'],
                    unit=failed[0][1]['unit'], failed=[f for _, r in failed for f in r['failed']][:12],
                    note='no failing input found on the real code in %d cases' % (
                        extra_cases + sum(r.get('cases', 0) for r in hres.values())))
        violation = (save(prop, 'obligation', data), ' no-failing-input-found', failed[0][1]['failed'][0]['name'])
    elif errors:
        # the real code cannot be run through the harness at all (an import error, a changed interface)
        e = errors[0]
        if import_broken(e):
            data = dict(property=prop, kind='error', message=e['message'], case=e.get('case'))
            violation = (save(prop, 'error', data), ' no-failing-input-found', e['message'].strip().split('\n')[-1])
    allr = [results[i] for i, _ in units]
    wall = time.time() - t0
    write_evidence(prop, m, units, allr, hres, extra_cases, wall, known, violation, notes, bounded_for, errors)
    for tag, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    n = sum(r['obligations'] for r in allr)
    d = sum(r['discharged'] for r in allr)
    print('%s: %d/%d obligations discharged in %d units (%s), %d harness cases, %.1f s' % (
        prop, d, n, len(allr), ', '.join('%s %d' % (s, sum(1 for r in allr if r['status'] == s)) for s in
                                         sorted({r['status'] for r in allr})),
        extra_cases + sum(r.get('cases', 0) for r in hres.values()), wall))
    for x in notes:
        print('note: ' + x)
    for _, r in unsup:
        print('note: unit %r is out of reach (%s): bounded check on the real code stands in' % (
            r['unit'], r['reason'].split('\n')[0][:200]))
    for e in errors:
        print('note: harness error: ' + e['message'].strip().split('\n')[-1][:300])
    for _, r in failed:
        for f in r['failed'][:3]:
            print('failed obligation: %s (%s, %s)' % (f['name'], f['status'], f['where']))
    if violation:
        print('what: ' + str(violation[2])[:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, violation[0], violation[1]))
        return 1
    if d == 0 and not unsup and not notes:
        print('no obligation was generated')
        return 2
    if errors and not unsup and d == 0:
        return 2
    return 0


def import_broken(e):
    return False


def write_evidence(prop, m, units, allr, hres, extra, wall, known, violation, notes, bounded_for, errors):
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    backends = {}
    for r in allr:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    proved = [r for r in allr if r['status'] == 'proved' and not r.get('bounded')]
    fns = sorted({f for r in proved for f in r['functions'] if not f.startswith('stub_')})
    trusted = sorted({f for r in allr for f in r['trusted']})
    models = sorted({f for r in allr for f in r['models']})
    conf = getattr(m, 'CONF', {})
    ev = {
        'property': prop, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED,
        'level': conf.get('level', 'proof'), 'wall_s': round(wall, 1),
        'violations': 1 if violation else 0,
        'assumptions': ASSUME + list(conf.get('assumptions', [])) + ['trusted external: ' + t for t in trusted]
        + ['assumed at call sites (see its own unit): ' + t for t in models],
        'coverage': {
            'obligations': sum(r['obligations'] for r in allr),
            'discharged': sum(r['discharged'] for r in allr),
            'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d ./check %s' % (TIER, SEED, prop),
            'trusted_base': ['pydv interpreter and VC generator (/verif/pydv)', 'z3 (python API)', 'cvc5',
                             'CPython ast module'] + ['contract of ' + t for t in trusted],
            'by_back_end': backends,
            'solver_s': round(sum(r['solver_s'] for r in allr), 1),
            'units': [{k: r.get(k) for k in ('unit', 'target', 'status', 'reason', 'obligations', 'discharged', 'covers',
                                             'wall_s', 'bounded', 'failed', 'loops')} for r in allr],
            'functions_under_contract': sorted({t for _, u in units for t in u.target}),
            'functions_interpreted': fns,
            'call_site_contracts': models,
            'trusted_external': trusted,
            'bounded_stand_in_for': bounded_for + list(conf.get('bounded', [])),
            'real_code_harness': {'cases': extra + sum(r.get('cases', 0) for r in hres.values()),
                                  'inputs': next((r.get('distribution') for r in hres.values()), ''),
                                  'classes': [r.get('stats') for r in hres.values()],
                                  'errors': [e['message'][-500:] for e in errors],
                                  'counted_as_proof': False},
            'known_findings': [t for _, t in known],
            'notes': notes,
        },
    }
    if violation:
        ev['coverage']['violation'] = {'replay': violation[0], 'what': str(violation[2])[:500]}
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


ASSUME = [
    'the interpreter of the Python subset (pydv) and the SMT solvers are sound',
    'Python integers and floats are mathematical integers and reals',
    'strings are values of an arbitrary total order with distinct literals (units marked opaque) or SMT strings',
    'no aliasing between elements of a symbolic collection other than equality of the elements themselves',
]


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    if d.get('kind') != 'input':
        print(json.dumps(d, indent=1))
        return 1
    os.chmod(path, 0o644)
    r = harness(d['property'], SEED, 5, replay=os.path.abspath(path))
    print(json.dumps(r, indent=1))
    return 1 if r['status'] == 'fail' else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
