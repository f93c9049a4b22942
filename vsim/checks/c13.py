"""C13: results don't depend on accidental state of the environment."""
import os
import pickle
import random
import subprocess
import sys

import numpy as np

import catalog
import core
import simfs
from checks import c12

ID = 'C13'
RULE = ('seeded batches of 6-12 calls of processing, loading, searching and '
        'saving functions, executed in two simulated environments that '
        'differ in the state of both global random generators, the content '
        'of fresh memory, the clock (start, rate, leaps), the entropy '
        'source, the order in which folders are listed and, in every 13th '
        'batch, the hash seed of the interpreter; all results are compared. '
        'Non-trivial: the environments differ and some call succeeded')
MEASURE = 'digest of the calls, the environments and the outcomes'
RUNS = {'quick': 2400, 'thorough': 150000}
WALL = {'quick': 200, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy', 'numpy', 'scipy', 'scikit-image', 'opencv', 'h5py',
             'Pillow', 'matplotlib', 'the interpreter'],
    'simulated': ['clock', 'entropy source', 'content of fresh memory',
                  'order of directory listings'],
    'stub': []}
FOPS = ['find_file', 'find_hdf_key', 'get_hdf_information', 'load_image',
        'load_text', 'load_json', 'load_list', 'name'] + c12.SAVERS
REF = {'np': 1, 'py': 1, 'fill': [0, 0], 'clock': [1700000000, 1000, 0, 0],
       'ent': 1, 'dir': None, 'hash': None}


def gen(rng, i, tier):
    calls = []
    hv = i % 13 == 5
    for j in range(rng.randrange(6, 13) if not hv else 60):
        if rng.random() < (0.6 if not hv else 0.5):
            if j == 0:
                s = dict(catalog.draw(rng),
                         f=catalog.NAMES[i % len(catalog.NAMES)])
                if rng.random() >= catalog.SLOW.get(s['f'], 1.0):
                    s = catalog.draw(rng)
            else:
                s = catalog.draw(rng)
            x = rng.random()
            if x < .05:
                s['bad'] = rng.randrange(1000)
            elif x < .25:
                # data with nothing in a part or all of them
                _, kw = catalog.build(s)
                ks = sorted(k for k, v in kw.items() if isinstance(
                    v, np.ndarray) and v.dtype.kind in 'fiu')
                if ks:
                    s['tw'] = [[rng.choice(ks), rng.choice(
                        ['zeros', 'sparse', 'const', 'zeros']),
                        rng.randrange(10 ** 6)]]
            elif x < .3:
                s = catalog.related(rng, s)
            calls.append({'spec': s})
        else:
            calls.append({'fop': rng.choice(FOPS), 'd': rng.randrange(10 ** 6),
                          'o': rng.randrange(10 ** 6)})
    env = {'np': rng.randrange(10 ** 6), 'py': rng.randrange(10 ** 6),
           'fill': [rng.randrange(7), rng.randrange(1, 10 ** 6)],
           'clock': [rng.choice([0, 946684799, 1700000000 + rng.randrange(
               10 ** 8), 4102444800]), rng.choice([1, 10 ** 6, 10 ** 9]),
               rng.randrange(20), rng.choice([-3600, 3600, 86400 * 400])],
           'ent': rng.randrange(1, 10 ** 6), 'dir': rng.randrange(10 ** 6),
           'hash': rng.randrange(1, 4000000) if hv else None}
    return {'calls': calls, 'env': env}


def enter(env):
    L = simfs.lib()
    random.seed(env['py'])
    np.random.seed(env['np'])
    L.simclock(1, *env['clock'])
    L.siment(1, env['ent'])
    if env['dir'] is not None:
        L.simfs_dirorder(env['dir'], 1)
    else:
        L.simfs_dirorder(0, 0)
    if env['fill'][0]:
        # small blocks come from numpy's cache of freed blocks: leave other
        # values in it
        r = np.random.default_rng(env['fill'][1])
        for n in range(8, 1024, 8):
            k = [r.random(n // 8) * 10 for _ in range(4)]
            del k
        L.simmem_fill(*env['fill'])


def leave():
    L = simfs.lib()
    L.simclock(0, 0, 0, 0, 0)
    L.siment(0, 0)
    L.simmem_fill(0, 0)
    L.simfs_dirorder(0, 0)


def _decode(p):
    e = os.path.splitext(p)[1]
    if e in ('.tif', '.png', '.jpg', '.bmp'):
        from PIL import Image
        with Image.open(p) as im:
            return np.array(im)
    if e == '.hdf':
        import h5py
        out = []
        with h5py.File(p, 'r') as f:
            f.visititems(lambda n, o: out.append(
                (n, np.asarray(o[()])) if isinstance(o, h5py.Dataset)
                else (n, None)))
        return out
    if e == '.pkl':
        with open(p, 'rb') as f:
            return pickle.load(f)
    with open(p) as f:
        return f.read()


def _strip(v, root):
    if isinstance(v, os.PathLike):
        v = os.fspath(v)
    if isinstance(v, str):
        return v.replace(root, '<root>')
    if isinstance(v, (list, tuple)):
        return [_strip(x, root) for x in v]
    return v


def _fop(c, root):
    """Prepare the files of a file operation; returns a callable."""
    import h5py
    import discorpy.losa.loadersaver as losa
    from PIL import Image
    r = random.Random(c['d'])
    q = np.random.default_rng(c['d'])
    f = c['fop']
    if f in c12.SAVERS:
        fn, kw = c12._saver({'f': f, 'd': c['d'], 'o': c['o'],
                             'name': 'sv'}, root)

        def go():
            v = fn(**kw)
            if f == 'load_hdf_file':
                return v
            if f == 'open_hdf_stream':
                p = v.file.filename
                v.file.close()
            else:
                p = v
            return _strip(p, root), _decode(p)
        return go
    if f == 'find_file':
        os.makedirs(os.path.join(root, 'a', 'b'))
        for _ in range(r.randrange(3, 14)):
            n = r.choice(['', 'a/', 'a/b/']) + '%s%d.%s' % (
                r.choice(['img_', 'x', 'Z', 'data']), r.randrange(120),
                r.choice(['tif', 'txt', 'hdf']))
            open(os.path.join(root, n), 'w').close()
        pat = r.choice(['*', '*.tif', 'a/*', 'a/b/*.txt', '*/*', 'img_*',
                        '*[0-9]*'])
        return lambda: _strip(losa.find_file(os.path.join(root, pat)), root)
    if f in ('find_hdf_key', 'get_hdf_information'):
        p = os.path.join(root, 'in.hdf')
        with h5py.File(p, 'w') as h:
            for k in r.sample(['a', 'entry/data', 'entry/angle', 'z/y/x',
                               'tomo/data2', 'b', 'c', 'entry/flat'],
                              r.randrange(2, 8)):
                h[k] = q.random((2, 3))
            if r.random() < .5:
                h['soft'] = h5py.SoftLink('/nowhere')
        if f == 'find_hdf_key':
            pat = r.choice(['data', 'a', 'entry', 'x'])
            return lambda: losa.find_hdf_key(p, pat)
        return lambda: losa.get_hdf_information(p)
    if f == 'load_image':
        p = os.path.join(root, 'in' + r.choice(['.tif', '.png', '.bmp']))
        sh = (7, 9, 3) if r.random() < .5 else (7, 9)
        Image.fromarray(q.integers(0, 255, sh).astype(np.uint8)).save(p)
        av = r.random() < .5
        return lambda: losa.load_image(p, average=av)
    if f == 'load_text':
        p = os.path.join(root, 'in.txt')
        with open(p, 'w') as h:
            h.write('xcenter = 3.5\nycenter = 4.25\nfactor0 = 1.0\n'
                    'factor1 = %r\n' % float(q.random()))
        return lambda: losa.load_metadata_txt(p)
    if f == 'load_json':
        p = os.path.join(root, 'in.json')
        losa.save_metadata_json(p, 1.5, 2.5, [1.0, float(q.random())])
        return lambda: losa.load_metadata_json(p)
    if f == 'load_list':
        p = os.path.join(root, 'in.pkl')
        with open(p, 'wb') as h:
            pickle.dump([1, 'a', q.random(3)], h)
        return lambda: losa.load_python_list(p)
    # a numbered name beside files that are there already
    for n in r.sample(range(1, 6), 3):
        open(os.path.join(root, 'o_%04d.txt' % n), 'w').close()
    open(os.path.join(root, 'o.txt'), 'w').close()
    return lambda: _strip(losa.save_metadata_txt(
        os.path.join(root, 'o.txt'), 1.0, 2.0, [1.0], overwrite=False), root)


def session(plan, env, base):
    import warnings
    warnings.simplefilter('ignore')
    out = []
    for j, c in enumerate(plan['calls']):
        root = os.path.join(base, 'c%d' % j)
        os.makedirs(root)
        simfs.root(root)
        simfs.pause(True)
        if 'spec' in c:
            f, kw = catalog.build(c['spec'])
            go = (lambda f=f, kw=kw: f(**kw))
        else:
            go = _fop(c, root)
        enter(dict(env, np=env['np'] + j, py=env['py'] + j))
        simfs.pause(False)
        try:
            v = 'ok', _strip(catalog.plain(go()), root)
        except Exception as e:
            v = 'exc', type(e).__name__
        simfs.pause(True)
        leave()
        out.append(v)
    return out


def _reads(plan, env, base):
    v = session(plan, env, base)
    return v, simfs.lib().simclock_reads(), simfs.lib().siment_reads()


def run(plan):
    res = core.Result()
    env = plan['env']
    with core.Box() as box:
        a, b = os.path.join(box, 'w1'), os.path.join(box, 'w2')
        os.makedirs(a)
        os.makedirs(b)
        rc, v = core.isolated(_reads, plan, REF, a, timeout=120)
        if v is None:
            raise core.HarnessError('session ended with %s' % rc)
        ref, clk, ent = v
        if env['hash'] is None:
            rc, v = core.isolated(_reads, plan, env, b, timeout=120)
            if v is None:
                raise core.HarnessError('session ended with %s' % rc)
            got = v[0]
        else:
            i, o = os.path.join(box, 'in'), os.path.join(box, 'out')
            with open(i, 'wb') as f:
                pickle.dump((plan, env, b), f)
            e = dict(os.environ, PYTHONHASHSEED=str(env['hash']))
            p = subprocess.run(
                [sys.executable, os.path.join(core.VERIF, 'vsim',
                                              'envrun.py'), i, o],
                env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                timeout=300)
            if not os.path.exists(o):
                raise core.HarnessError(p.stderr.decode()[-1500:])
            with open(o, 'rb') as f:
                got = pickle.load(f)
            res.fault('other hash seed')
    for k in ('np', 'py', 'clock', 'ent', 'dir', 'fill'):
        if env[k] != REF[k]:
            res.fault('other ' + {'np': 'numpy random state',
                                  'py': 'random state', 'clock': 'clock',
                                  'ent': 'entropy', 'dir': 'folder order',
                                  'fill': 'memory content'}[k])
            res.nontrivial = True
    ok = False
    for c, x, y in zip(plan['calls'], ref, got):
        d = catalog.show(c['spec']) if 'spec' in c else '%s(%s,%s)' % (
            c['fop'], c['d'], c['o'])
        res.steps += 1
        ok |= x[0] == 'ok'
        res.probe('calls ' + x[0])
        res.log.append((d, x[0], catalog.brief(x[1])))
        if x[0] != y[0] or not catalog.same(y[1], x[1]):
            res.fail('differs', '%s gives %s %s in one environment and %s %s '
                     'in another (%s)' % (
                         d, x[0], catalog.brief(x[1]), y[0],
                         catalog.brief(y[1]), {k: env[k] for k in env
                                               if env[k] != REF[k]}))
            break
    res.nontrivial &= ok
    res.log.append(sorted((k, str(v)) for k, v in env.items()))
    res.sig = core.digest(*res.log)
    return res


def shrink(plan):
    for c in core.drop_each(plan['calls']):
        if c:
            yield dict(plan, calls=c)
    for k in REF:
        if plan['env'][k] != REF[k]:
            yield dict(plan, env=dict(plan['env'], **{k: REF[k]}))
