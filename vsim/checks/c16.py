"""C16: interrupts and lack of memory reach the caller and do no damage."""
import os
import random
import sys

import numpy as np

import catalog
import core
import screen
import simfs
import threads
from checks import c12, c13, c14

ID = 'C16'
RULE = ('seeded single calls of every processing function, of every file '
        'function and of the video loop; a rehearsal counts the delivery '
        'points (calls made and finished in frames of the library) or the '
        'memory allocations of at least a seeded size, then the call is '
        'repeated with a KeyboardInterrupt or MemoryError at 1-9 seeded '
        'points (one after the other, spread over the distinct places), '
        'or with a seeded allocation (and possibly all later ones) failing; '
        'afterwards the same call is made again undisturbed. Non-trivial: '
        'the fault was delivered')
MEASURE = 'digest of the call, the point of delivery and the outcomes'
FRESH = True
RUNS = {'quick': 10000, 'thorough': 400000}
WALL = {'quick': 120, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy', 'numpy', 'scipy', 'scikit-image', 'opencv (remap)',
             'h5py', 'Pillow', 'matplotlib'],
    'simulated': ['delivery of interrupts (profile function)',
                  'failing allocations (shim)', 'camera and keyboard'],
    'stub': ['cv2.imshow, waitKey, destroyAllWindows']}
ASSUMPTIONS = [
    'interrupts are delivered in frames of the library and on entry to the '
    'functions it calls, not inside context-manager exits',
    'a crash of a C library on a failed allocation is inconclusive and '
    'counted under probes']
FILES = c12.SAVERS + ['find_file', 'find_hdf_key', 'get_hdf_information',
                      'load_image', 'load_text', 'load_json', 'load_list']
ATOMIC = ('save_image', 'save_plot_image', 'save_plot_points',
          'save_residual_plot', 'save_metadata_txt', 'save_metadata_json',
          'save_python_list', 'save_hdf_file')
HDF = ('save_hdf_file', 'open_hdf_stream', 'find_hdf_key',
       'get_hdf_information', 'load_hdf_file')
SAVES = ATOMIC + ('open_hdf_stream',)


def gen(rng, i, tier):
    k = i % (len(catalog.NAMES) + 2 * len(FILES) + 4)
    x = rng.random()
    how = 'KeyboardInterrupt' if x < .5 else 'MemoryError' if x < .65 \
        else 'alloc'
    p = {'how': how, 'u': rng.random(), 'hits': rng.choice([1, 4, 8])}
    if rng.random() < .3:
        p['u'] = rng.random() ** 4           # early points of long calls
    if how == 'alloc':
        p['min'] = rng.choice([256, 512, 1000, 1000, 4000, 10000, 30000])
        p['mode'] = rng.choice([1, 1, 2])
    if k < len(catalog.NAMES):
        n = catalog.NAMES[k]
        if rng.random() >= catalog.SLOW.get(n, 1.0):
            n = catalog.pick(rng)
        p['spec'] = dict(catalog.draw(rng), f=n)
    elif k < len(catalog.NAMES) + 2 * len(FILES):
        f = FILES[k % len(FILES)]
        p['fop'] = f
        p['d'], p['d2'], p['o'] = (rng.randrange(10 ** 6) for _ in range(3))
    else:
        s = c14._one(rng)
        for q in ('raise', 'inject', 'badframe'):
            s.pop(q, None)
        p['video'] = s
    return p


# -------------------------------------------------------------------- targets
def _make(p, root):
    """A function that makes the call once and returns its result; inputs and
    files are prepared anew each time by the returned `fresh`."""
    if 'spec' in p:
        def fresh():
            f, kw = catalog.build(p['spec'])
            return lambda: f(**kw)
        return fresh
    if 'video' in p:
        import discorpy.util.utility as util
        s = p['video']

        def fresh():
            kw, frames = c14._params(s)
            sc = screen.Screen()
            cam = screen.Camera(sc, frames, [tuple(e) for e in s['ev']],
                                {int(k): v for k, v in s['keys'].items()},
                                s['tail'], (s['h'], s['w']))

            def go():
                screen.current = sc
                try:
                    util.unwarp_video_cv2(cam, **kw)
                finally:
                    screen.current = None
                return [x[1] for x in sc.shown]
            return go
        return fresh
    n = [0]

    def fresh():
        n[0] += 1
        d = os.path.join(root, 'r%d' % n[0])
        os.makedirs(d)
        go = c13._fop({'fop': p['fop'], 'd': p['d'], 'o': p['o']}, d)
        return lambda: c13._strip(go(), d)
    return fresh


def _overwriting(p, root, d):
    fn, kw = c12._saver({'f': p['fop'], 'd': d, 'o': p['o'], 'name': 'sv'},
                        root)
    if 'overwrite' in kw:
        kw['overwrite'] = True

    def go():
        v = fn(**kw)
        if p['fop'] == 'open_hdf_stream':
            q = v.file.filename
            v.file.close()
            return q
        return v
    return go


class Alloc:
    """Let an allocation fail, and see whether that reached the library as a
    MemoryError (SciPy, FreeType and others may put up with it)."""
    TOOL = 4

    def __init__(self, p, at):
        self.p, self.at, self.n, self.fired = p, at, 0, None
        self.reached = False

    def _raised(self, code, offset, exc):
        if isinstance(exc, MemoryError) and \
                code.co_filename.startswith(threads.PREFIX):
            self.reached = True

    def __enter__(self):
        L = simfs.lib()
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vsim')
        m.register_callback(self.TOOL, m.events.RAISE, self._raised)
        m.set_events(self.TOOL, m.events.RAISE)
        if self.at is None:
            L.simmem_arm(3, 0, self.p['min'])
        else:
            L.simmem_arm(self.p['mode'], self.at, self.p['min'])

    def __exit__(self, *a):
        L = simfs.lib()
        L.simmem_disarm()
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)
        self.n = L.simmem_seen()
        if self.at is not None and L.simmem_hits():
            self.fired = 'allocation %d of at least %d bytes%s' % (
                self.at, self.p['min'], ' and all later ones'
                if self.p['mode'] == 2 else '')


def _seam(p, at):
    if p['how'] == 'alloc':
        return Alloc(p, at)
    return threads.Injector(at, {'KeyboardInterrupt': KeyboardInterrupt,
                                 'MemoryError': MemoryError}[p['how']])


def _one(go, seam):
    try:
        with seam:
            v = 'ok', go()
    except BaseException as e:
        v = 'exc', type(e).__name__
        e.__traceback__ = None
    return (v[0], catalog.plain(v[1]), seam.n, seam.fired,
            getattr(seam, 'reached', False), getattr(seam, 'unsafe', False))


class Null:
    n, fired = 0, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _count(p, root):
    import warnings
    warnings.simplefilter('ignore')
    fresh = _make(p, root)
    go = fresh()
    seam = _seam(p, None)
    if p['how'] != 'alloc':
        seam.labels = []
    r = _one(go, seam)
    return r, _points(p, r[2], getattr(seam, 'labels', None))


def _points(p, n, labels):
    """The delivery points to try: spread over the distinct places in the
    code, whatever the number of times each is passed."""
    if not n:
        return []
    r = random.Random(p['u'])
    out = [int(p['u'] * n)]
    if labels:
        by = {}
        for i, l in enumerate(labels):
            by.setdefault(l, []).append(i)
        for l in r.sample(sorted(by), min(
                len(by), p.get('hits', 1) if n < 4000 else 1)):
            out.append(r.choice(by[l]))
    return out


def _session(send, p, ats, root):
    import warnings
    warnings.simplefilter('ignore')
    fresh = _make(p, root)
    for i, at in enumerate(ats):
        go = fresh()
        send(('hit', i, _one(go, _seam(p, at))))
        if p['how'] == 'alloc' and p.get('fop') in HDF:
            return                  # HDF5 itself may be unusable: see _again
        send(('again', i, _one(fresh(), Null())))


def _file_session(send, p, at, root, count):
    """Save over an existing file with a fault; then look at the folder."""
    import warnings
    warnings.simplefilter('ignore')
    old, new = _overwriting(p, root, p['d2']), _overwriting(p, root, p['d'])
    try:
        path = str(old())
    except Exception:
        if count:
            send(('refused',))
            return
        raise
    was = c13._decode(path)
    names = sorted(os.listdir(root))
    if count:
        seam = _seam(p, None)
        if p['how'] != 'alloc':
            seam.labels = []
        r = _one(new, seam)
        at = _points(p, r[2], getattr(seam, 'labels', None))[-1:]
        send(('count', (r, at), c13._decode(path), was, names))
        return
    r = _one(new, _seam(p, at))
    here = sorted(os.listdir(root))
    if os.path.exists(path):
        try:
            now = 'ok', c13._decode(path)
        except Exception as e:
            now = 'exc', repr(e)
    else:
        now = 'missing', None
    send(('hit', r))
    send(('left', here, now))
    if p['how'] == 'alloc' and p['fop'] in HDF:
        return                  # HDF5 itself may be unusable: see _retry
    _retry(send, p, root)


def _retry(send, p, root):
    import warnings
    warnings.simplefilter('ignore')
    new = _overwriting(p, root, p['d'])
    a = _one(new, Null())
    path = str(a[1]) if a[0] == 'ok' else None
    send(('again', a))
    send(('end', sorted(os.listdir(root)),
          c13._decode(path) if path else None))


def _again(send, p, root):
    import warnings
    warnings.simplefilter('ignore')
    send(('again', 0, _one(_make(p, root)(), Null())))


def run(plan):
    p = plan
    res = core.Result()
    d = catalog.show(p['spec']) if 'spec' in p else 'unwarp_video_cv2' \
        if 'video' in p else '%s(%s,%s)' % (p['fop'], p['d'], p['o'])
    save = p.get('fop') in SAVES
    res.log.append((d, p['how']))
    with core.Box() as box:
        a, b = os.path.join(box, 'a'), os.path.join(box, 'b')
        os.makedirs(a)
        os.makedirs(b)
        if save:
            life = core.Life(_file_session, p, 0, a, True)
            recs = life.records(100)
            if life.rc != 0:
                raise core.HarnessError('rehearsal ended with %s' % life.rc)
            if recs[0][0] == 'refused':
                res.probe('input not accepted')
                res.sig = core.digest(*res.log)
                return res
            (ref, ats), new, was, names = recs[0][1:]
        else:
            rc, v = core.isolated(_count, p, a, timeout=100)
            if v is None:
                raise core.HarnessError('rehearsal ended with %s' % rc)
            ref, ats = v
        if not ref[2]:
            res.sig = core.digest(*res.log)
            res.probe('no delivery point')
            return res
        ats = p['ats'] if 'ats' in p else ats
        res.plan = p = dict(p, ats=ats)
        life = core.Life(_file_session, p, ats[0], b, False) if save \
            else core.Life(_session, p, ats, b)
        recs = life.records(100)
        if life.rc == 0 and not any(r[0] == 'again' for r in recs):
            if not save:
                b = os.path.join(box, 'c')
                os.makedirs(b)
            later = core.Life(_retry if save else _again, p, b)
            recs += later.records(100)
            if later.rc != 0:
                raise core.HarnessError('second session ended with %s'
                                        % later.rc)
    if life.rc is None:
        raise core.HarnessError('session timed out')
    if life.rc != 0:
        if p['how'] == 'alloc':
            res.probe('C library crashed on a failed allocation')
            res.log.append('crash')
            res.sig = core.digest(*res.log)
            return res
        raise core.HarnessError('session ended with %s' % life.rc)
    if save:
        recs = dict((r[0], r[1:]) for r in recs)
        rounds = [(recs['hit'][0], recs['again'][0])]
    else:
        hits = {r[1]: r[2] for r in recs if r[0] == 'hit'}
        agains = {r[1]: r[2] for r in recs if r[0] == 'again'}
        rounds = [(hits[i], agains[i]) for i in sorted(hits)]
    for i, (at, (hit, again)) in enumerate(zip(ats, rounds)):
        _judge(p, res, d, at, hit, again, ref, save,
               (recs, names, was, new) if save else None)
        if res.viol:
            res.plan = dict(p, ats=ats[:i + 1])
            break
    res.sig = core.digest(*res.log)
    return res


def _judge(p, res, d, at, hit, again, ref, save, files):
    res.steps += hit[2]
    res.log += [at, hit[0], hit[1] if hit[0] == 'exc' else '', hit[3]]
    if hit[3]:
        res.fault(p['how'])
        res.nontrivial = True
    ctx = '%s with %s at point %d of %d (%s)' % (d, p['how'], at, ref[2],
                                                 hit[3])
    if hit[3] and p['how'] == 'KeyboardInterrupt' and \
            hit[:2] != ('exc', 'KeyboardInterrupt'):
        res.fail('interrupt-lost', '%s: the call %s instead of raising '
                 'KeyboardInterrupt' % (ctx, 'returned' if hit[0] == 'ok'
                                        else 'raised ' + hit[1]))
    elif hit[3] and p['how'] == 'MemoryError' and hit[0] == 'ok':
        res.fail('error-lost', '%s: the call returned as if nothing had '
                 'happened' % ctx)
    elif p['how'] == 'alloc' and hit[4] and hit[0] == 'ok' and \
            ref[0] == 'ok' and not save and not catalog.same(hit[1], ref[1]):
        res.fail('error-lost', '%s: a MemoryError reached the library, yet '
                 'the call returned, %s instead of %s' % (
                     ctx, catalog.brief(hit[1]), catalog.brief(ref[1])))
    elif p['how'] == 'alloc' and not hit[4]:
        # a dependency put up with the lack of memory, or raised an error of
        # its own (h5py: KeyError, as for a dangling link)
        res.probe('lack of memory not reported to the library')
    elif hit[0] == 'ok' and ref[0] == 'ok' and not save and \
            not catalog.same(hit[1], ref[1]):
        res.fail('result-changed', '%s: the call returned %s instead of %s'
                 % (ctx, catalog.brief(hit[1]), catalog.brief(ref[1])))
    elif hit[0] == 'ok' and ref[0] != 'ok':
        res.fail('result-changed', '%s: returned instead of raising %s'
                 % (ctx, ref[1]))
    if res.viol:
        return
    if save:
        recs, names, was, new = files
        here, now = recs['left']
        # text of a plot may be drawn differently if FreeType lacks memory
        soft = p['how'] == 'alloc' and not hit[4] and 'plot' in p['fop']
        if p['fop'] in ATOMIC:
            extra = [n for n in here if n not in names]
            if extra and not hit[5]:
                res.fail('left-behind', '%s: left %s behind' % (ctx, extra))
            elif soft and hit[0] == 'ok':
                if now[0] != 'ok':
                    res.fail('file-damaged', '%s: the file can\'t be read'
                             % ctx)
            elif now[0] != 'ok' or not (catalog.same(now[1], was)
                                        or catalog.same(now[1], new)):
                res.fail('file-damaged', '%s: the file being overwritten is '
                         'in neither its previous nor its new state (%s)'
                         % (ctx, catalog.brief(now)))
        if hit[0] == 'ok' and not res.viol and not soft and not (
                now[0] == 'ok' and catalog.same(now[1], new)):
            res.fail('file-damaged', '%s: returned, but the file does not '
                     'hold the data' % ctx)
        if not res.viol:
            here, now = recs['end']
            if again[0] != 'ok' or not catalog.same(now, new):
                res.fail('again-differs', '%s: the same call made again %s '
                         'and the file holds %s' % (ctx, again[:2],
                                                    catalog.brief(now)))
        return
    if again[0] != ref[0] or not catalog.same(again[1], ref[1]):
        res.fail('again-differs', '%s: the same call made again gives %s %s '
                 'instead of %s %s' % (ctx, again[0], catalog.brief(again[1]),
                                       ref[0], catalog.brief(ref[1])))


def shrink(plan):
    v = plan.get('video')
    if v:
        for c in core.drop_each(v['ev']):
            yield dict(plan, video=dict(v, ev=c))
    if len(plan.get('ats', ())) > 1:
        yield dict(plan, ats=plan['ats'][-1:])
        for c in core.drop_each(plan['ats'][:-1]):
            yield dict(plan, ats=c + plan['ats'][-1:])
    if plan['how'] == 'alloc' and plan['mode'] == 2:
        yield dict(plan, mode=1)
