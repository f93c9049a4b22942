"""C12: arguments are never modified, at any instant of a call."""
import os
import random

import numpy as np

import catalog
import core
import simfs
import threads

ID = 'C12'
RULE = ('seeded single calls of every processing and saving function (arrays '
        'of several types, byte orders and memory layouts, with unusual '
        'values such as NaN, lists, tuples, dictionaries, and '
        'the same numbers in another of these forms), '
        'observed by a simulated second thread at the source lines and calls '
        'of the library that the call executes (all of the first 4000 '
        'scheduling points, then a seeded tenth), and after the call '
        'returned, raised, met a disk fault, or was interrupted at a seeded '
        'point. Non-trivial: at least ten observations inside the call')
MEASURE = 'digest of the call, its outcome and the number of observations'
RUNS = {'quick': 14000, 'thorough': 250000}
WALL = {'quick': 110, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy', 'numpy', 'scipy', 'scikit-image', 'opencv', 'h5py',
             'Pillow', 'matplotlib'],
    'simulated': ['observing thread (trace functions)',
                  'delivery of interrupts', 'disk faults (shim)'],
    'stub': []}


# ---------------------------------------------------------------- snapshots
class Watch:
    """Remembers the exact state of nested arguments."""

    def __init__(self, named):
        self.leaves = []
        for k, v in named.items():
            self._add(k, v)

    def _add(self, path, v):
        if isinstance(v, np.ndarray):
            if v.dtype.kind == 'O':
                self.leaves.append((path, v, 'obj',
                                    [id(x) for x in v.ravel()]))
            else:
                self.leaves.append((path, v, 'arr',
                                    (v.shape, v.strides, v.dtype,
                                     v.flags.writeable, v.tobytes())))
        elif isinstance(v, (list, tuple)):
            self.leaves.append((path, v, 'seq', (tuple(
                x if isinstance(x, (int, float, str, bool, np.number))
                else id(x) for x in v), [type(x) for x in v])))
            for i, x in enumerate(v):
                if isinstance(x, (list, tuple, dict, np.ndarray)):
                    self._add('%s[%d]' % (path, i), x)
        elif isinstance(v, dict):
            self.leaves.append((path, v, 'dict', [
                (k, x if isinstance(x, (int, float, str, bool)) else id(x))
                for k, x in v.items()]))
            for k, x in v.items():
                if isinstance(x, (list, tuple, dict, np.ndarray)):
                    self._add('%s[%r]' % (path, k), x)

    def changed(self):
        for path, v, kind, was in self.leaves:
            if kind == 'arr':
                if v.shape != was[0] or v.strides != was[1] or \
                        v.dtype != was[2] or v.flags.writeable != was[3]:
                    return '%s: shape, type or flags changed' % path
                if v.tobytes() != was[4]:
                    old = np.frombuffer(was[4], was[2]).reshape(was[0])
                    bad = np.argwhere(~((v == old) | ((v != v)
                                                      & (old != old))))
                    if len(bad):
                        i = tuple(int(x) for x in bad[0])
                        return '%s%s was %s and is %s (%d elements)' % (
                            path, list(i), old[i], v[i], len(bad))
                    return '%s: bytes changed' % path
            elif kind == 'obj':
                if [id(x) for x in v.ravel()] != was:
                    return path + ' changed'
            elif kind == 'seq':
                now = tuple(
                    x if isinstance(x, (int, float, str, bool, np.number))
                    else id(x) for x in v)
                if now != was[0] and not _nan_same(now, was[0]):
                    return '%s was %s and is %s' % (path, was[0][:8], now[:8])
                if [type(x) for x in v] != was[1]:
                    return '%s: types of elements changed' % path
            else:
                now = [(k, x if isinstance(x, (int, float, str, bool))
                        else id(x)) for k, x in v.items()]
                if now != was:
                    return '%s was %s and is %s' % (path, was, now)
        return None


def _nan_same(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y)
                                    for x, y in zip(a, b))


# ------------------------------------------------------------------- savers
def _saver(spec, root):
    """(function, kwargs) of a call of the file module."""
    import discorpy.losa.loadersaver as losa
    r = np.random.default_rng(spec['d'])
    o = random.Random(spec['o'])
    n = spec['f']
    p = os.path.join(root, spec.get('name', 'out'))
    if n == 'save_image':
        m = r.random((9, 12)) * 300 - 20
        if o.random() < .3:
            m = r.random((9, 12, 3)) * 300 - 20
        m = _odd(o, catalog.layout(o, m, ('f4', 'f8', 'f8', 'u1', 'u2', 'i2')))
        return losa.save_image, dict(
            file_path=p + o.choice(['.tif', '.png', '.jpg', '.bmp']), mat=m,
            overwrite=o.random() < .6)
    if n == 'save_hdf_file':
        sh = o.choice([(4, 5, 6), (4, 5, 6), (7, 9), (11,), (2, 3, 4, 5),
                       (30, 40, 50)])
        m = catalog.layout(o, r.random(sh if len(sh) > 1 else (1,) + sh),
                           ('f4', 'f8', 'u1', 'u2', '>f4', '>u2', 'i8'))
        m = _odd(o, m if len(sh) > 1 else m[0])
        if o.random() < .1:
            m = m.tolist()
        return losa.save_hdf_file, dict(
            file_path=p + '.hdf', idata=m, overwrite=o.random() < .6,
            key_path=o.choice(['entry', 'a/b', 'entry/data']))
    if n == 'open_hdf_stream':
        sh = (3, 4, 5) if o.random() < .5 else [3, 4, 5]
        return losa.open_hdf_stream, dict(
            file_path=p + '.hdf', data_shape=sh,
            options={'entry/e': r.random(3), 'entry/l': [1, 2, 3],
                     'bad key' if o.random() < .3 else 'x/y': 4.0},
            overwrite=o.random() < .6)
    if n == 'save_plot_image':
        ls = [r.random((5, 2)) * 20 for _ in range(3)]
        return losa.save_plot_image, dict(
            file_path=p + '.png', list_lines=ls if o.random() < .5 else
            [x.tolist() for x in ls], height=20, width=20, dpi=30)
    if n == 'save_plot_points':
        ls = r.random((7, 2)) * 20
        return losa.save_plot_points, dict(
            file_path=p + '.png', list_points=ls if o.random() < .5
            else ls.tolist(), height=20, width=20, dpi=30)
    if n == 'save_residual_plot':
        ls = r.random((7, 2)) * 20
        return losa.save_residual_plot, dict(
            file_path=p + '.png', list_data=ls if o.random() < .5
            else ls.tolist(), height=90, width=120, dpi=30)
    if n in ('save_metadata_txt', 'save_metadata_json'):
        f = [float(x) for x in r.normal(size=4)]
        c = o.randrange(3)
        return getattr(losa, n), dict(
            file_path=p + ('.txt' if 'txt' in n else '.json'), xcenter=3.5,
            ycenter=4.5, list_fact=f if c == 0 else tuple(f) if c == 1
            else np.asarray(f), overwrite=o.random() < .6)
    if n == 'save_python_list':
        return losa.save_python_list, dict(
            file_path=p + '.pkl', python_list=[1, [2, 3.5], r.random(4),
                                               {'a': [1]}, (1, [2])],
            overwrite=o.random() < .6)
    if n == 'load_hdf_file':
        import h5py
        q = os.path.join(root, 'in.hdf')
        with h5py.File(q, 'w') as f:
            f['entry/data'] = r.random((5, 6, 7))
        return losa.load_hdf_file, dict(
            file_path=q, key_path='entry/data', axis=o.randrange(3),
            index=o.choice([None, 1, (0, 3), [0, 4, 2], [1, 2, 3, 0],
                            [1, 4], (2,), [3]]))
    raise ValueError(n)


def _odd(o, m):
    """Unusual values and byte orders."""
    x = o.random()
    if x < .3:
        m = catalog._tweak(m, o.choice(['nan', 'inf', 'neg', 'order', 'const',
                                        'zeros']), o)
    return m


SAVERS = ['save_image', 'save_hdf_file', 'open_hdf_stream', 'save_plot_image',
          'save_plot_points', 'save_residual_plot', 'save_metadata_txt',
          'save_metadata_json', 'save_python_list', 'load_hdf_file']


def _numbers(v):
    return isinstance(v, (list, tuple)) and len(v) > 0 and all(
        isinstance(x, (int, float, np.number)) and not isinstance(x, bool)
        for x in v)


def cast(v, q):
    """The same numbers in another form that a caller may pass."""
    if isinstance(v, np.ndarray) and v.dtype.kind in 'fiu':
        if v.ndim > 1 and q.random() < .15:
            return v.tolist() if v.size < 400 else v
        if v.dtype.kind != 'f' and q.random() < .5:
            return v
        a = v.astype(q.choice([np.float32, np.float64, np.float64]))
        if q.random() < .15:
            a = np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        return a
    if _numbers(v):
        k = q.choice(['list', 'tuple', 'f4', 'f8', 'np'])
        return list(v) if k == 'list' else tuple(v) if k == 'tuple' else \
            [np.float64(x) for x in v] if k == 'np' else np.asarray(v, k)
    if isinstance(v, (list, tuple)) and len(v):
        try:
            if q.random() < .4:
                return np.asarray(v, q.choice(['f4', 'f8']))
        except (ValueError, TypeError):
            pass
        k = q.random()
        w = [cast(x, random.Random(k)) for x in v]
        return tuple(w) if q.random() < .2 else w
    return v


def gen(rng, i, tier):
    plan = {'mode': rng.choice(['return', 'return', 'interrupt']),
            'calls': rng.random() < .5, 'oseed': rng.randrange(10 ** 6)}
    k = i % (len(catalog.NAMES) + 2 * len(SAVERS))
    if k < len(catalog.NAMES):
        n = catalog.NAMES[k]
        if rng.random() >= catalog.SLOW.get(n, 1.0):
            n = catalog.pick(rng)
        plan['spec'] = dict(catalog.draw(rng), f=n)
        if rng.random() < .3:
            plan['spec'] = catalog.related(rng, plan['spec'])
        if rng.random() < .15:
            plan['odd'] = [rng.choice(['nan', 'inf', 'neg', 'dup', 'order',
                                       'zeros', 'sparse', 'const']),
                           rng.randrange(10 ** 6)]
        if rng.random() < .06:
            plan['spec']['bad'] = rng.randrange(1000)
        elif rng.random() < .5:
            plan['form'] = rng.randrange(10 ** 6)
    else:
        plan['saver'] = {'f': SAVERS[k % len(SAVERS)],
                         'd': rng.randrange(10 ** 6),
                         'o': rng.randrange(10 ** 6)}
        if rng.random() < .35:
            plan['faults'] = [[rng.randrange(12), rng.choice(
                [simfs.ERR, simfs.SHORT, simfs.STICKY]),
                rng.choice([5, 28]), 0] for _ in range(rng.choice([1, 2]))]
    if plan['mode'] == 'interrupt':
        plan['at'] = int(10 ** rng.uniform(0, 3)) - 1
    return plan


def _session(plan, root):
    import warnings
    warnings.simplefilter('ignore')
    if 'spec' in plan:
        f, kw = catalog.build(plan['spec'])
        if plan.get('odd') and not plan['spec']['f'].endswith('cv2'):
            kind, q = plan['odd'][0], random.Random(plan['odd'][1])
            kw = {k: catalog._tweak(v, kind, q) if isinstance(
                v, (np.ndarray, list, tuple)) and q.random() < .6 else v
                for k, v in kw.items()}
        if plan.get('form') is not None:
            q = random.Random(plan['form'])
            cv = plan['spec']['f'].endswith('cv2')
            kw = {k: cast(v, q) if q.random() < .7 and not (
                cv and k in ('mat', 'map_x', 'map_y', 'map_index')) else v
                for k, v in kw.items()}
    else:
        f, kw = _saver(plan['saver'], root)
    w = Watch(kw)
    rng = random.Random(plan['oseed'])
    at = plan.get('at')
    st = {'n': 0, 'seen': 0, 'bad': None, 'fired': None}

    def observe(me, frame):
        n = st['n']
        st['n'] += 1
        if st['bad'] is None and (n < 4000 or rng.random() < .1):
            st['seen'] += 1
            c = w.changed()
            if c:
                st['bad'] = '%s, seen at %s:%d (%s)' % (
                    c, os.path.basename(frame.f_code.co_filename),
                    frame.f_lineno, frame.f_code.co_name) \
                    if frame is not None else c
        if at is not None and n == at and st['fired'] is None:
            st['fired'] = n
            raise KeyboardInterrupt('injected')
    sim = threads.Sim(decisions=[], calls=plan['calls'], observer=observe)
    fl = {}
    if 'saver' in plan:
        simfs.root(root)
        simfs.begin([tuple(x) for x in plan.get('faults', ())])
    r = sim.run([lambda: f(**kw)], timeout=100)[0]
    if 'saver' in plan:
        fl = simfs.end()[1]
        if r and r[0] == 'ok' and hasattr(r[1], 'file'):
            r[1].file.close()
    after = w.changed()
    o = 'none' if r is None else 'ok' if r[0] == 'ok' else \
        type(r[1]).__name__
    return st['seen'], st['bad'], after, o, fl, st['fired'], sim.step


def run(plan):
    res = core.Result()
    with core.Box() as box:
        rc, v = core.isolated(_session, plan, box, timeout=150)
    if v is None:
        raise core.HarnessError('session ended with %s' % rc)
    seen, bad, after, o, fl, fired, steps = v
    d = catalog.show(plan['spec']) if 'spec' in plan else plan['saver']['f']
    if plan.get('form') is not None:
        d += ' in form %s' % plan['form']
    res.steps = steps
    res.nontrivial = seen >= 10
    for k, n in fl.items():
        res.fault(k, n)
    if fired is not None:
        res.fault('interrupt')
    res.probe('observations', seen)
    res.probe('call ' + ('ok' if o == 'ok' else 'raised'))
    res.log = [d, seen, o, fired, sorted(fl.items())]
    res.sig = core.digest(*res.log)
    how = ' (%s%s)' % (o, ', interrupted at point %s' % fired
                       if fired is not None else '')
    if after:
        res.fail('modified', '%s: after the call%s %s' % (d, how, after))
    elif bad:
        res.fail('modified-during', '%s: during the call%s %s'
                 % (d, how, bad))
    return res


def shrink(plan):
    if plan['mode'] == 'interrupt':
        yield {k: v for k, v in dict(plan, mode='return').items()
               if k != 'at'}
    if plan.get('faults'):
        for c in core.drop_each(plan['faults']):
            yield dict(plan, faults=c)
    if plan.get('form') is not None:
        yield {k: v for k, v in plan.items() if k != 'form'}
    if plan.get('odd') is not None:
        yield {k: v for k, v in plan.items() if k != 'odd'}
    s = plan.get('spec')
    if s and s.get('tw'):
        yield dict(plan, spec={k: v for k, v in s.items() if k != 'tw'})
    if plan['calls']:
        yield dict(plan, calls=False)
