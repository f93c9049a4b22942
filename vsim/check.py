#!/opt/venv/bin/python
"""Run one check.

    check.py C01                 quick or thorough, by VERIF_TIER
    check.py C01 --replay FILE   run one replay file; exit 1 if it violates
    check.py C01 --selftest N    determinism: N seeds, twice, other worker
                                 count and hash seed; compare the event logs

The outer process makes a scratch folder, builds the shim from source into it
and starts the simulator with it preloaded; everything is removed at the end.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'


def outer(argv):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vsim.', dir=base)
    proc = None

    def stop(sig, frame):
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        shim = os.path.join(scratch, 'libsimfs.so')
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim,
                        os.path.join(HERE, 'shim', 'simfs.c'), '-ldl'],
                       check=True)
        mpl = os.path.join(scratch, 'mpl')
        os.makedirs(mpl)
        for d in ('/opt/vp/mplconfig',):
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith('fontlist'):
                        shutil.copy(os.path.join(d, n), mpl)
        repo = os.environ.get('VSIM_REPO', '/repo')
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(('PYTHON', 'MPL', 'HDF5_')):
                del env[k]
        env.update(
            VSIM_SCRATCH=scratch, VSIM_SHIM=shim, VSIM_REPO=repo,
            LD_PRELOAD=shim, PYTHONPATH=repo + os.pathsep + HERE,
            PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
            PYTHONHASHSEED=os.environ.get('VSIM_HASHSEED', '0'),
            MPLBACKEND='Agg', MPLCONFIGDIR=mpl, OPENBLAS_NUM_THREADS='1',
            OMP_NUM_THREADS='1', LC_ALL='C.UTF-8', TZ='UTC',
            HOME=scratch, TMPDIR=scratch, VSIM_INNER='1')
        proc = subprocess.Popen([PY, os.path.abspath(__file__)] + argv,
                                env=env, start_new_session=True)
        rc = proc.wait()
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc if rc in (0, 1) else 2


def load(cid):
    import warm
    warm.load()
    return importlib.import_module('checks.' + cid.lower())


def main(argv):
    import core
    cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    check = load(cid)
    if '--replay' in argv:
        return replay(core, check, argv[argv.index('--replay') + 1])
    if '--logs' in argv:
        n = int(argv[argv.index('--logs') + 1])
        w = int(argv[argv.index('--logs') + 2])
        res, err = core.run_batch(check, seed, n, tier, 3600, workers=w,
                                  stop_on_violation=False)
        for r in res:
            print('LOG', r[0], r[3], r[8], bool(r[2]), flush=True)
        for e in err:
            print('ERR', e)
        return 0
    t0 = time.monotonic()
    print('check %s tier=%s seed=%d repo=%s' % (cid, tier, seed, core.REPO),
          flush=True)
    runs, wall = check.RUNS[tier], check.WALL[tier]
    if os.environ.get('VSIM_RUNS'):
        runs = int(os.environ['VSIM_RUNS'])
    known = [k for k in core.known_findings()['known']
             if k['property'] == cid]
    prep = getattr(check, 'prepare', None)
    if prep:
        prep(seed, tier)
    results, errors, start = [], [], 0
    viol = None
    known_seen = {}
    while True:
        res, err = core.run_batch(check, seed, runs - start, tier,
                                  wall - (time.monotonic() - t0), start=start,
                                  stop_on_violation=not known)
        results += res
        errors += err
        bad = [r for r in res if r[2]]
        for r in bad:
            hit = [k for k in known if matches(k, r[2])]
            if hit:
                known_seen[hit[0]['id']] = known_seen.get(hit[0]['id'], 0) + 1
            elif viol is None:
                viol = r
        break
    n = len(results)
    if errors and len(errors) * 50 > max(n, 1) and viol is None:
        print('harness errors: %d of %d runs; first:\n%s'
              % (len(errors), n + len(errors), errors[0][1]), flush=True)
        return 2
    if errors:
        print('inconclusive runs (harness): %d; first: %s' % (
            len(errors), errors[0][1].strip().splitlines()[-1][:300]))
    if viol is None and n < max(3, min(runs, 20)) and not errors:
        print('too few runs completed: %d' % n)
        return 2
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (cid, k['what']), flush=True)
    rc, replay_path = 0, None
    if viol is not None:
        rc = 1
        replay_path = report(core, check, cid, seed, viol)
    evidence(core, check, cid, tier, seed, results, errors,
             time.monotonic() - t0, viol, known_seen)
    if rc:
        print('VIOLATION property=%s replay=%s' % (cid, replay_path),
              flush=True)
    else:
        print('%s held on %d runs (%.1f s)' % (cid, n, time.monotonic() - t0))
    return rc


def matches(entry, viol):
    return viol['kind'] == entry['kind'] and all(
        m in viol['msg'] for m in entry.get('match', []))


def report(core, check, cid, seed, viol):
    idx, plan, v = viol[0], viol[1], viol[2]
    print('run %d (seed %d/%s/%d): %s: %s' % (idx, seed, cid, idx, v['kind'],
                                              v['msg']), flush=True)
    mplan, tries = plan, 0
    try:
        mplan, tries = core.minimise(check, plan, v['kind'])
    except Exception as e:                      # keep the original plan
        print('minimisation stopped: %r' % e)
    res = None
    for p in (mplan, plan):
        try:
            res = core.run_one(check, p)
        except Exception as e:
            print('replay of the plan failed: %r' % e)
            continue
        if res.viol:
            mplan = p
            break
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (cid, seed, idx))
    core.jdump({'property': cid, 'seed': seed, 'run': idx,
                'violation': (res.viol if res and res.viol else v),
                'reproduced': bool(res and res.viol),
                'minimisation_attempts': tries, 'plan': mplan,
                'original_plan': plan,
                'replay_cmd': '%s %s %s --replay %s'
                % (PY, os.path.join(HERE, 'check.py'), cid, path)}, path)
    print('minimised (%d attempts): %s' % (tries, (res.viol if res and res.viol
                                                   else v)['msg']), flush=True)
    return path


def replay(core, check, path):
    with open(path) as f:
        doc = json.load(f)
    prep = getattr(check, 'prepare', None)
    if prep:
        prep(doc.get('seed', 1), 'quick')
    res = core.run_one(check, doc['plan'])
    if res.viol:
        print('%s: %s' % (res.viol['kind'], res.viol['msg']))
        print('VIOLATION property=%s replay=%s' % (check.ID, path), flush=True)
        return 1
    print('no violation')
    return 0


def evidence(core, check, cid, tier, seed, results, errors, wall, viol,
             known_seen):
    faults, probes, steps = {}, {}, 0
    sigs, nontriv = set(), set()
    samples = []
    for (i, plan, v, sig, nt, f, st, pr, lg) in results:
        core.merge(faults, f)
        core.merge(probes, pr)
        steps += st
        sigs.add(sig)
        if nt:
            nontriv.add(sig)
        if plan is not None and len(samples) < 3:
            samples.append({'run': i, 'plan': plan})
    n = len(results)
    doc = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontriv),
            'rule': check.RULE,
            'samples': samples,
            'distinct_histories': len(sigs),
            'distinct_histories_measure': getattr(
                check, 'MEASURE', 'digest of the sequence of simulated events'),
            'runs_per_hour': round(n / max(wall, 1e-3) * 3600),
            'simulated_steps': steps,
            'simulated_time': 'the code has no clock: simulated time is '
                              'counted in steps (file-system operations, '
                              'scheduling points, polls)',
            'faults_injected_and_fired': faults,
            'probes': probes,
            'components': check.COMPONENTS,
            'harness_errors': len(errors),
            'known_findings_seen': known_seen,
        },
        'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': 1 if viol is not None else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    core.jdump(doc, os.path.join(VERIF, 'evidence', cid + '.json'))


if __name__ == '__main__':
    if os.environ.get('VSIM_INNER') == '1':
        sys.path.insert(0, HERE)
        rc = 2
        try:
            rc = main(sys.argv[1:])
        except BaseException:
            import traceback
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    sys.exit(outer(sys.argv[1:]))
