"""C17: calls leave the process's global settings as they found them."""
import os
import random
import sys

import numpy as np

import catalog
import core
import screen
import simfs
import store
import threads
from checks import c12, c13, c14

ID = 'C17'
RULE = ('a user session with 0-8 changed process-wide settings, then 1-4 '
        'calls of any function: plain, refused, with an exception '
        '(KeyboardInterrupt, MemoryError, OSError, RuntimeError) at a seeded '
        'point, with disk faults, or 2-3 threads of calls under a seeded '
        'schedule together with a user thread that reads and changes '
        'settings and draws random numbers in between; after every call (and '
        'at every step of the user thread) a snapshot of all settings is '
        'compared with what the user set. Non-trivial: at least one call ran '
        'to its end, a failure was delivered or a preemption took place')
MEASURE = ('digest of the user session, the calls, their outcomes, points of '
           'delivery and switches')
RUNS = {'quick': 7000, 'thorough': 300000}
WALL = {'quick': 120, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy', 'numpy', 'scipy', 'scikit-image', 'opencv (remap)',
             'h5py', 'Pillow', 'matplotlib'],
    'simulated': ['delivery of exceptions (profile function)',
                  'thread scheduler', 'disk (shim)', 'camera and keyboard'],
    'stub': ['cv2.imshow, waitKey, destroyAllWindows']}
ASSUMPTIONS = [
    'while a call runs, warning filters may differ from those of the user '
    '(Python 3.12 has no filters per thread); they have to be the user\'s '
    'again at its end',
    'plots are saved from one thread at a time',
    'exceptions are not delivered inside context-manager exits']
FILES = c12.SAVERS + ['find_file', 'find_hdf_key', 'get_hdf_information',
                      'load_image', 'load_text', 'load_json', 'load_list']
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'OSError': OSError, 'RuntimeError': RuntimeError,
       'ValueError': ValueError}
SETTINGS = ['seterr', 'seterr_raise', 'errcall', 'print', 'warn', 'warn_error',
            'pyrandom', 'nprandom', 'cwd', 'env', 'umask', 'signal', 'pil',
            'h5py', 'recursion', 'gc', 'stdout', 'logging', 'decimal',
            'switch', 'cv2', 'timeout', 'rc', 'hooks', 'buf', 'gc_off',
            'digits', 'tempdir', 'path', 'fft', 'log_off', 'mask',
            'stderr', 'blocks', 'ion']
LIVE = ['pyrandom', 'nprandom', 'cwd', 'env', 'umask', 'pil', 'recursion',
        'gc', 'logging', 'look', 'look', 'draw', 'draw', 'timeout']


# ------------------------------------------------------------------- snapshot
MODS = ['builtins', 'os', 'os.path', 'sys', 'io', 'json', 'pickle', 'random',
        'time', 'warnings', 'threading', 'numpy', 'numpy.random',
        'numpy.linalg', 'numpy.fft', 'scipy.ndimage', 'scipy.optimize',
        'h5py', 'PIL.Image', 'PIL.ImageFile', 'PIL.TiffImagePlugin', 'pathlib',
        'platform', 'math', 'cv2', 'shutil', 'tempfile', 'uuid',
        'contextlib', 'json.encoder', 'matplotlib', 'matplotlib.pyplot']
MUTABLE = {'last_traceback', 'last_value', 'last_type', 'last_exc', 'stdout',
           'stderr', 'stdin', '_', '__warningregistry__', 'excepthook',
           '_shutdown_locks', '_filters_mutated', '_filters_version',
           '_onceregistry'}


def _mods():
    out = {}
    for m in MODS:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if k in MUTABLE or k.startswith('__'):
                continue
            if callable(v) or isinstance(v, (type(os), type)):
                out[m + '.' + k] = id(v)
            elif isinstance(v, (bool, int, float, str, type(None))) and \
                    not k.startswith('_'):
                out[m + '.' + k] = repr(v)
    return out


LOCAL = ('fft workers', 'numpy error handling', 'numpy error callback',
         'numpy buffer size', 'numpy print options', 'decimal context',
         'signal mask')


def snap(full=True, filters=True):
    import decimal
    import gc
    import h5py
    import locale
    import logging
    import multiprocessing
    import resource
    import signal
    import socket
    import tempfile
    import threading
    import time
    import warnings
    from PIL import Image, ImageFile
    um = os.umask(0)
    os.umask(um)
    s = {
        'numpy error handling': str(sorted(np.geterr().items())),
        'numpy error callback': id(np.geterrcall()),
        'numpy buffer size': np.getbufsize(),
        'numpy print options': repr(sorted(
            (k, repr(v)) for k, v in np.get_printoptions().items())),
        'numpy random state': core.digest(*[
            x.tobytes() if isinstance(x, np.ndarray) else x
            for x in np.random.get_state()]),
        'random state': core.digest(random.getstate()),
        'working directory': os.getcwd(),
        'environment': core.digest(sorted(os.environ.items())),
        'umask': um,
        'signal handlers': [(n.value, id(signal.getsignal(n)))
                            for n in signal.valid_signals()
                            if not isinstance(n, int) or True
                            if hasattr(n, 'value')],
        'signal mask': sorted(int(x) for x in signal.pthread_sigmask(
            signal.SIG_BLOCK, [])),
        'timer': signal.getitimer(signal.ITIMER_REAL)[1],
        'alarm set': signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        'Pillow limits': (Image.MAX_IMAGE_PIXELS,
                          ImageFile.LOAD_TRUNCATED_IMAGES,
                          ImageFile.MAXBLOCK),
        'Pillow formats': (len(Image.EXTENSION), len(Image.OPEN),
                           len(Image.SAVE)),
        'h5py settings': repr([(k, getattr(h5py.get_config(), k)) for k in (
            'track_order', 'complex_names', 'bool_names')]),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(),
                              gc.get_debug()),
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'hooks': (id(sys.excepthook), id(sys.displayhook),
                  id(threading.excepthook), id(sys.unraisablehook)),
        'import paths': list(sys.path),
        'command line': list(sys.argv),
        'logging': (logging.getLogger().level, logging.root.manager.disable,
                    [id(h) for h in logging.getLogger().handlers],
                    logging.raiseExceptions),
        'decimal context': repr(decimal.getcontext().copy().prec),
        'locale': locale.setlocale(locale.LC_ALL),
        'socket timeout': socket.getdefaulttimeout(),
        'temporary folder': tempfile.tempdir,
        'time zone': time.tzname,
        'resource limits': [resource.getrlimit(getattr(resource, n))
                            for n in dir(resource)
                            if n.startswith('RLIMIT_')],
        'limit of integer digits': sys.get_int_max_str_digits(),
        'priority': os.getpriority(os.PRIO_PROCESS, 0),
        'start method': multiprocessing.get_start_method(allow_none=True),
        'child processes': len(multiprocessing.active_children()),
    }
    try:
        import scipy.fft
        s['fft workers'] = scipy.fft.get_workers()
    except Exception:
        pass
    if filters:
        s['warning filters'] = repr(warnings.filters)
        s['warning display'] = (id(warnings.showwarning),
                                id(warnings.formatwarning))
    try:
        import cv2
        s['opencv settings'] = (cv2.getNumThreads(), cv2.useOptimized(),
                                cv2.ocl.useOpenCL())
    except Exception:
        pass
    if full:
        import matplotlib
        import matplotlib.pyplot as plt
        s['matplotlib settings'] = core.digest(sorted(
            (k, repr(v)) for k, v in matplotlib.rcParams.items()))
        s['matplotlib figures'] = plt.get_fignums()
        s['threads'] = sorted(t.name for t in threading.enumerate())
        s['modules'] = _mods()
    return s


def differ(a, b):
    for k in a:
        if k == 'modules':
            for n, v in a[k].items():
                if b[k].get(n, '(gone)') != v:
                    return 'attribute ' + n, '', ''
        elif a[k] != b[k]:
            return k, a[k], b[k]
    return None


def _marker(*a):
    pass


class _Out:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


_kept = []


def change(what, r, root):
    """The user changes a setting."""
    import decimal
    import gc
    import h5py
    import logging
    import signal
    import socket
    import warnings
    from PIL import Image, ImageFile
    if what == 'seterr':
        np.seterr(**{k: r.choice(['ignore', 'warn', 'print', 'log'][:2])
                     for k in ('divide', 'over', 'under', 'invalid')})
    elif what == 'seterr_raise':
        np.seterr(all='raise', under='ignore')
    elif what == 'errcall':
        np.seterrcall(_marker)
    elif what == 'print':
        np.set_printoptions(precision=r.randrange(2, 12),
                            suppress=r.random() < .5, linewidth=60)
    elif what == 'warn':
        warnings.filterwarnings(r.choice(['ignore', 'default', 'always']),
                                category=r.choice([UserWarning,
                                                   RuntimeWarning]))
    elif what == 'warn_error':
        warnings.simplefilter('error', r.choice([UserWarning, RuntimeWarning,
                                                 Warning]))
    elif what == 'pyrandom':
        random.seed(r.randrange(10 ** 6))
    elif what == 'nprandom':
        np.random.seed(r.randrange(10 ** 6))
    elif what == 'cwd':
        d = os.path.join(root, 'cwd%d' % r.randrange(5))
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif what == 'env':
        os.environ[r.choice(['VSIM_USER', 'OMP_NUM_THREADS',
                             'HDF5_USE_FILE_LOCKING_X', 'MPLCONFIGDIR_X'])] \
            = str(r.randrange(9))
    elif what == 'umask':
        os.umask(r.choice([0o022, 0o077, 0o027]))
    elif what == 'signal':
        signal.signal(r.choice([signal.SIGINT, signal.SIGALRM,
                                signal.SIGUSR1, signal.SIGTERM]), _marker)
    elif what == 'pil':
        Image.MAX_IMAGE_PIXELS = r.choice([None, 10 ** 6, 10 ** 7])
        ImageFile.LOAD_TRUNCATED_IMAGES = r.random() < .5
    elif what == 'h5py':
        h5py.get_config().track_order = True
    elif what == 'recursion':
        sys.setrecursionlimit(r.randrange(1500, 4000))
    elif what == 'gc':
        gc.set_threshold(r.randrange(500, 900), 10, 10)
    elif what == 'stdout':
        sys.stdout = _Out()
    elif what == 'logging':
        logging.getLogger().setLevel(r.choice([10, 20, 40]))
    elif what == 'decimal':
        decimal.getcontext().prec = r.randrange(5, 40)
    elif what == 'switch':
        sys.setswitchinterval(r.choice([0.001, 0.02]))
    elif what == 'cv2':
        import cv2
        cv2.setUseOptimized(r.random() < .5)
        cv2.setNumThreads(r.choice([1, 2, 3]))
    elif what == 'gc_off':
        gc.disable()
    elif what == 'digits':
        sys.set_int_max_str_digits(r.choice([5000, 0]))
    elif what == 'tempdir':
        import tempfile
        tempfile.tempdir = root
    elif what == 'path':
        sys.path.insert(r.randrange(3), root)
    elif what == 'fft':
        import scipy.fft
        c = scipy.fft.set_workers(r.choice([2, 3]))
        c.__enter__()
        _kept.append(c)
    elif what == 'log_off':
        logging.disable(r.choice([20, 50]))
    elif what == 'mask':
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2])
    elif what == 'stderr':
        sys.stderr = _Out()
    elif what == 'blocks':
        ImageFile.MAXBLOCK = r.choice([1 << 16, 1 << 20])
    elif what == 'ion':
        import matplotlib.pyplot as plt
        plt.ion()
    elif what == 'timeout':
        socket.setdefaulttimeout(r.randrange(1, 99))
    elif what == 'rc':
        import matplotlib
        matplotlib.rcParams['font.size'] = r.choice([6.0, 14.0])
        matplotlib.rcParams['font.weight'] = r.choice(['light', 'bold'])
    elif what == 'hooks':
        sys.excepthook = _marker
        warnings.showwarning = lambda *a, **k: None
    elif what == 'buf':
        np.setbufsize(r.choice([4096, 16384]))


# ----------------------------------------------------------------------- plan
def _op(rng, k):
    n = len(catalog.NAMES)
    if k < n:
        f = catalog.NAMES[k]
        if rng.random() >= catalog.SLOW.get(f, 1.0):
            f = catalog.pick(rng)
        s = dict(catalog.draw(rng), f=f)
        if rng.random() < .15:
            s['bad'] = rng.randrange(1000)
        return {'spec': s}
    if k < n + 2 * len(FILES):
        return {'fop': FILES[k % len(FILES)], 'd': rng.randrange(10 ** 6),
                'o': rng.randrange(10 ** 6)}
    s = c14._one(rng)
    return {'video': s}


def gen(rng, i, tier):
    total = len(catalog.NAMES) + 2 * len(FILES) + 4
    plan = {'sets': rng.sample(SETTINGS, rng.choice([0, 0, 2, 5, 8, 16, 25])),
            'useed': rng.randrange(10 ** 6)}
    if rng.random() < .5 and 'warn_error' in plan['sets']:
        plan['sets'].remove('warn_error')
    k = i % total
    x = rng.random()
    if x < .25 and k < len(catalog.NAMES):
        ths = [[_op(rng, k)]]
        for _ in range(rng.choice([1, 1, 2])):
            o = _op(rng, k) if rng.random() < .6 else \
                _op(rng, rng.randrange(len(catalog.NAMES)))
            ths.append([o])
        plan['threads'] = ths
        plan['p'] = 10 ** rng.uniform(-2.5, -.3)
        plan['calls'] = rng.random() < .4
        plan['sseed'] = rng.randrange(10 ** 9)
        if rng.random() < .75:
            plan['user'] = [rng.choice(LIVE) for _ in range(
                rng.choice([3, 6, 12]))]
        return plan
    ops = []
    for j in range(rng.choice([1, 1, 2, 4])):
        o = _op(rng, k if j == 0 else rng.randrange(total))
        y = rng.random()
        if y < .35:
            o['inject'] = [rng.random(), rng.choice(
                ['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError',
                 'OSError', 'RuntimeError', 'ValueError'])]
        elif y < .6 and 'fop' in o:
            o['disk'] = [rng.random(), rng.choice([1, 1, 1, 2]),
                         rng.choice([5, 28, 13])]
        ops.append(o)
    plan['ops'] = ops
    return plan


def _call(o, root):
    if 'spec' in o:
        f, kw = catalog.build(o['spec'])
        return lambda: catalog.plain(f(**kw))
    if 'fop' in o:
        os.makedirs(root)
        return c13._fop(o, root)
    import discorpy.util.utility as util
    s = o['video']
    kw, frames = c14._params(s)
    sc = screen.Screen()
    cam = screen.Camera(sc, frames, [tuple(e) for e in s['ev']],
                        {int(k): v for k, v in s['keys'].items()},
                        s['tail'], (s['h'], s['w']))

    def go():
        screen.current = sc
        try:
            util.unwarp_video_cv2(cam, **kw)
        finally:
            screen.current = None
    return go


def show(o):
    return catalog.show(o['spec']) if 'spec' in o else 'unwarp_video_cv2' \
        if 'video' in o else '%s(%s,%s)' % (o['fop'], o['d'], o['o'])


def _user(plan, root):
    r = random.Random(plan['useed'])
    for s in plan['sets']:
        change(s, r, root)
    return r


def _try(go):
    try:
        go()
        return 'ok'
    except BaseException as e:
        n = type(e).__name__
        e.__traceback__ = None
        return n


def _count(plan, root):
    """Rehearsal: delivery points and disk operations of every call."""
    os.makedirs(root)
    gos = [_call(o, os.path.join(root, 'o%d' % j))
           for j, o in enumerate(plan['ops'])]
    _user(plan, root)
    out = []
    for go in gos:
        inj = threads.Injector(careful=True)
        simfs.root(root)
        simfs.begin()
        with inj:
            _try(go)
        out.append((inj.n, simfs.end()[0]))
    return out


def _session(plan, root, places):
    os.makedirs(root)
    gos = [_call(o, os.path.join(root, 'o%d' % j)) for j, o in enumerate(
        plan['ops'] if 'ops' in plan else sum(plan['threads'], []))]
    r = _user(plan, root)
    out, sim = [], None
    if 'ops' in plan:
        for j, o in enumerate(plan['ops']):
            go, gos[j] = gos[j], None
            a = snap()
            inj = None
            if 'inject' in o:
                inj = threads.Injector(places[j], EXC[o['inject'][1]],
                                       careful=True)
                with inj:
                    v = _try(go)
            elif 'disk' in o:
                simfs.root(root)
                simfs.begin([places[j]] if places[j] else [])
                v = _try(go)
                fired = simfs.end()[1]
            else:
                v = _try(go)
            go = None
            b = snap()
            f = {}
            if inj is not None and inj.fired:
                f = {o['inject'][1]: 1}
            elif 'disk' in o:
                f = fired
            out.append((show(o), v, inj.fired if inj else None,
                        differ(a, b), f))
        return out, [], [], 0, None
    fns = []
    ubad = []
    for calls in plan['threads']:
        mine, gos = gos[:len(calls)], gos[len(calls):]
        fns.append(lambda mine=mine: [_try(g) for g in mine])
    a = snap()
    want = snap(False, False)
    mine = {}
    if plan.get('user'):
        ref_np, ref_py = np.random.RandomState(), random.Random()
        ref_np.set_state(np.random.get_state())
        ref_py.setstate(random.getstate())
        state = {'want': want}

        def user():
            here = snap(False, False)
            state['want'].update((k, here[k]) for k in LOCAL)
            for u in plan['user']:
                threads.current.point(None)
                bad = differ(state['want'], snap(False, False))
                if bad:
                    ubad.append(('seen while a call runs',) + bad)
                    return
                if u == 'look':
                    continue
                if u == 'draw':
                    x = np.random.random(3).tolist() + [random.random()]
                    y = ref_np.random_sample(3).tolist() + [ref_py.random()]
                    if x != y:
                        ubad.append(('seen while a call runs',
                                     'random numbers', y, x))
                        return
                else:
                    change(u, r, root)
                    if u == 'pyrandom':
                        ref_py.setstate(random.getstate())
                    if u == 'nprandom':
                        ref_np.set_state(np.random.get_state())
                state['want'] = snap(False, False)
            mine['want'] = state['want']
        fns.append(user)
    if 'decisions' in plan:
        sim = threads.Sim(decisions=plan['decisions'], calls=plan['calls'])
    else:
        sim = threads.Sim(rng=random.Random(plan['sseed']), p_switch=plan['p'],
                          calls=plan['calls'])
    rs = sim.run(fns, timeout=100)
    b = snap()
    want = mine.get('want')
    if want:
        # the settings of this thread that are not shared between threads
        for k in LOCAL:
            want.pop(k)
        a = dict(a, **want)
        a['modules'] = {k: v for k, v in a['modules'].items() if k not in
                        ('PIL.Image.MAX_IMAGE_PIXELS',
                         'PIL.ImageFile.LOAD_TRUNCATED_IMAGES')}
    bad = differ(a, b)
    if ubad:
        bad = ubad[0][1:]
    for i, (calls, x) in enumerate(zip(plan['threads'], rs)):
        v = x[1] if x is not None and x[0] == 'ok' else repr(x)
        out.append(([show(o) for o in calls], v, None, bad, {}))
        bad = None
    u = rs[-1] if plan.get('user') else None
    if u is not None and u[0] != 'ok':
        raise core.HarnessError('user thread: %r' % (u,))
    return out, sim.decisions, sim.trail, sim.step, sim.deadlock


def run(plan):
    res = core.Result()
    with core.Box() as box:
        places = None
        if any('inject' in o or 'disk' in o for o in plan.get('ops', [])):
            if 'places' in plan:
                places = [tuple(p) if isinstance(p, list) else p
                          for p in plan['places']]
            else:
                rc, v = core.isolated(_count, plan, os.path.join(box, 'a'),
                                      timeout=100)
                if v is None:
                    raise core.HarnessError('rehearsal ended with %s' % rc)
                places = []
                for o, (n, ev) in zip(plan['ops'], v):
                    if 'inject' in o:
                        places.append(int(o['inject'][0] * max(n, 1)))
                    elif 'disk' in o and ev:
                        i = int(o['disk'][0] * len(ev))
                        places.append((i, o['disk'][1], o['disk'][2],
                                       ev[i][0]))
                    else:
                        places.append(None)
                plan = dict(plan, places=places)
        rc, v = core.isolated(_session, plan, os.path.join(box, 'b'), places,
                              timeout=150)
    if v is None:
        raise core.HarnessError('session ended with %s' % rc)
    out, dec, trail, steps, dead = v
    if dead:
        raise core.HarnessError(dead)
    if 'threads' in plan and 'decisions' not in plan:
        plan = dict(plan, decisions=dec)
    res.plan = plan
    res.steps = steps or len(out)
    sw = [t for t in trail if t[2] != 'end']
    if sw:
        res.fault('preemption', len(sw))
        res.nontrivial = True
    res.log = [plan['sets'], plan.get('user')] + list(trail)
    for d, v, fired, bad, f in out:
        res.log.append((d, v, fired))
        for k, n in f.items():
            res.fault(k, n)
        if f or v == 'ok' or 'threads' in plan:
            res.nontrivial = True
        res.probe('calls')
        if bad and not res.viol:
            what = 'together with a user thread' if plan.get('user') else \
                'in threads' if 'threads' in plan else 'the call'
            res.fail('setting-changed', '%s%s (%s, outcome %s) changed %s: '
                     'the user had %s, now it is %s' % (
                         d, ' with %s' % fired if fired else '', what, v,
                         bad[0], str(bad[1])[:300], str(bad[2])[:300]))
    res.sig = core.digest(*res.log)
    return res


def shrink(plan):
    if 'ops' in plan:
        for c in core.drop_each(list(range(len(plan['ops'])))):
            if c:
                q = dict(plan, ops=[plan['ops'][i] for i in c])
                q.pop('places', None)
                yield q
    else:
        ths = plan['threads']
        for i in range(len(ths)):
            if len(ths) > 1:
                q = dict(plan, threads=ths[:i] + ths[i + 1:])
                q.pop('decisions', None)
                yield q
        if plan.get('user'):
            for c in core.drop_each(plan['user']):
                q = dict(plan, user=c)
                q.pop('decisions', None)
                yield q
        if plan.get('decisions'):
            for c in core.drop_each(plan['decisions']):
                yield dict(plan, decisions=c)
    for c in core.drop_each(plan['sets']):
        yield dict(plan, sets=c)
