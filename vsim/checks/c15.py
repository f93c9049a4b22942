"""C15: correcting HDF stacks in pieces equals correcting each image."""
import os
import random
import threading

import numpy as np

import core
import simfs
import threads

ID = 'C15'
RULE = ('seeded stacks in an HDF file (several types, shapes, centres and '
        'moderate coefficients), cut into single slices and chunks in seeded '
        'order and handled by simulated workers: threads sharing the HDF '
        'object under a seeded line-level schedule, or process lives that '
        'die at seeded reads and are restarted with the remaining pieces; '
        'read errors and short reads are answered by retrying the piece. '
        'All pieces together are compared with the in-memory correction of '
        'every image. Non-trivial: more than one piece, and a fault, a death '
        'or a preemption inside a piece, or pieces out of order')
MEASURE = ('digest of the pieces with their workers, all file-system events '
           'and all preemptions')
RUNS = {'quick': 9000, 'thorough': 500000}
WALL = {'quick': 100, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy.post.postprocessing', 'discorpy.losa.loadersaver',
             'h5py/HDF5', 'numpy', 'scipy'],
    'simulated': ['disk faults and deaths (shim)', 'thread scheduler',
                  'supervisor that restarts workers and retries'],
    'stub': []}
ASSUMPTIONS = ['moderate distortion: distorted row positions increase with '
               'the row index (checked for every generated model)',
               'tolerance 1e-4 of the value range (1 for integer types) plus '
               'the effect of single-precision coordinates: the functions '
               'compute in different precisions']


def model(p):
    r = np.random.default_rng(p['seed'])
    d, h, w = p['shape']
    rad = np.hypot(h, w)
    k = p['strength']
    f = [1.0 + r.uniform(-.03, .03)]
    for i in range(1, p['nf']):
        f.append(float(r.uniform(-1, 1)) * k / rad ** i / p['nf'])
    xc = w * float(r.uniform(*p['xc']))
    yc = h * float(r.uniform(*p['yc']))
    yy, xx = np.mgrid[0:h, 0:w]
    base = np.sin(yy / 3.0 + r.uniform(0, 6)) * np.cos(xx / 4.0) + 1.5
    m = base[None] + 0.4 * r.random((d, h, w)) + 0.3 * np.arange(d)[
        :, None, None]
    dt = np.dtype(p['dtype'])
    if dt.kind in 'ui':
        m = m / m.max() * min(np.iinfo(dt).max, 60000) * 0.9
    return m.astype(dt), xc, yc, f


def monotonic(p):
    _, xc, yc, f = model(p)
    d, h, w = p['shape']
    yy, xx = np.mgrid[-2:h + 2, -2:w + 2].astype(float)
    y, x = yy - yc, xx - xc
    rr = np.hypot(x, y)
    g = sum(c * rr ** i for i, c in enumerate(f))
    yd = yc + g * y
    return bool(np.all(np.diff(yd, axis=0) > 0.05) and np.all(g > 0.3))


def gen(rng, i, tier):
    wide = rng.random() < .06
    while True:
        p = {'seed': rng.randrange(10 ** 6),
             'shape': [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 7, 16, 24,
                                                             31, 40]),
                       rng.choice([5, 17, 22, 33])],
             'dtype': rng.choice(['f4', 'f4', 'f8', 'u2', 'u1', 'i2']),
             'nf': rng.choice([1, 2, 3, 4, 5]),
             'strength': rng.choice([.05, .2, .4, .6]),
             'xc': rng.choice([[.4, .6], [.2, .8], [-.3, 1.3]]),
             'yc': rng.choice([[.4, .6], [.2, .8], [-.3, 1.3]])}
        if rng.random() < .02:             # a tall, narrow stack
            p['shape'] = [1, 33000, 3]
            p['strength'] = .05
        elif wide:           # a wide one, strongly distorted
            p['shape'] = [rng.choice([1, 2]), rng.choice([50, 90]),
                          rng.choice([120, 260])]
            p['strength'] = rng.choice([.8, 1.2, 1.8])
            p['nf'] = rng.choice([2, 3, 4, 5])
        elif rng.random() < .04:           # many images
            p['shape'] = [rng.choice([33, 70, 130]), rng.choice([3, 7]),
                          rng.choice([5, 9])]
        if monotonic(p):
            break
    h = p['shape'][1]
    pieces, a = [], 0
    if h > 1000:
        for _ in range(4):
            a = rng.choice([rng.randrange(h), 32760 + rng.randrange(20)])
            b = min(h - 1, a + rng.randrange(12))
            pieces.append(rng.choice([['s', a], ['c', a, b]]))
        a = h
    while a < h:
        n = rng.choice([1, 1, 2, 3, 5, 8, 13, h])
        b = min(h, a + n) - 1
        if a == b and rng.random() < .7:
            pieces.append(['s', a])
        else:
            pieces.append(['c', a, b if b < h - 1 or rng.random() < .5
                           else -1])
        a = b + 1
    for _ in range(rng.choice([0, 0, 1, 2]) if h < 1000 else 0):  # overlapping extra pieces
        a = rng.randrange(h)
        pieces.append(rng.choice([['s', a], ['c', a, rng.randrange(a, h)]]))
    if rng.random() < .8:
        rng.shuffle(pieces)
    p['pieces'] = pieces
    p['key'] = rng.choice(['data', 'entry/data', 'a/b/c'])
    x = rng.random()
    if x < .4:
        p['mode'] = 'threads'
        p['nt'] = rng.choice([2, 3, 4])
        p['p'] = 10 ** rng.uniform(-2.2, -.3)
        p['calls'] = rng.random() < .4
        p['sseed'] = rng.randrange(10 ** 9)
        p['objects'] = rng.random() < .5
    else:
        p['mode'] = 'lives'
        p['lives'] = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            fl = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                fl.append([int(10 ** rng.uniform(0, 2.1)) - 1, rng.choice(
                    [simfs.ERR, simfs.ERR, simfs.SHORT, simfs.EINTR,
                     simfs.CRASH_BEFORE, simfs.CRASH_AFTER]),
                    rng.choice([5, 5, 12, 1, 7]), rng.choice(
                        [0, 0, simfs.C['READ'], simfs.C['READ'],
                         simfs.C['OPEN_R']])])
            p['lives'].append(fl)
        p['reopen'] = rng.random() < .3
    return p


def piece(post, data, pc, xc, yc, f):
    if pc[0] == 's':
        v = post.unwarp_slice_backward(data, xc, yc, f, pc[1])
        return np.asarray(v)[:, None, :]
    return np.asarray(post.unwarp_chunk_slices_backward(
        data, xc, yc, f, pc[1], pc[2]))


def _reference(p):
    import discorpy.post.postprocessing as post
    m, xc, yc, f = model(p)
    return np.asarray([post.unwarp_image_backward(x, xc, yc, f) for x in m])


def _write(p, path):
    import h5py
    with h5py.File(path, 'w') as h:
        h[p['key']] = model(p)[0]


def _life(send, p, root, todo, faults):
    import discorpy.losa.loadersaver as losa
    import discorpy.post.postprocessing as post
    _, xc, yc, f = model(p)
    path = os.path.join(root, 'in.hdf')
    simfs.root(root)
    simfs.begin([tuple(x) for x in faults])
    data = None
    tries = {}
    for k in todo:
        while True:
            try:
                if data is None or p.get('reopen'):
                    if data is not None:
                        data.file.close()
                        data = None
                    data = losa.load_hdf_object(path, p['key'])
                v = piece(post, data, p['pieces'][k], xc, yc, f)
                break
            except Exception as e:
                tries[k] = tries.get(k, 0) + 1
                send(('fault', k, type(e).__name__))
                if data is not None:
                    try:
                        data.file.close()
                    except Exception:
                        pass
                    data = None
                if tries[k] > len(faults) + 1:
                    # no fault is left that could be behind it
                    send(('gave up', k, repr(e)))
                    return
        send(('piece', k, v))
    ev, fl = simfs.end()
    send(('end', ev, fl))


def _threads(p, root):
    import discorpy.losa.loadersaver as losa
    import discorpy.post.postprocessing as post
    import warnings
    warnings.simplefilter('ignore')
    _, xc, yc, f = model(p)
    path = os.path.join(root, 'in.hdf')
    work = list(range(len(p['pieces'])))
    out = {}
    main = losa.load_hdf_object(path, p['key'])

    def body():
        data = main
        if p['objects']:
            data = losa.load_hdf_object(path, p['key'])
        while work:
            k = work.pop(0)
            out[k] = piece(post, data, p['pieces'][k], xc, yc, f)
    if 'decisions' in p:
        sim = threads.Sim(decisions=p['decisions'], calls=p['calls'])
    else:
        sim = threads.Sim(rng=random.Random(p['sseed']), p_switch=p['p'],
                          calls=p['calls'])
    r = sim.run([body] * p['nt'], timeout=100)
    err = [repr(x[1]) for x in r if x is not None and x[0] == 'exc']
    return out, err, sim.decisions, sim.trail, sim.step, sim.deadlock


def run(plan):
    res = core.Result()
    p = plan
    rc, ref = core.isolated(_reference, p)
    if ref is None:
        raise core.HarnessError('reference ended with %s' % rc)
    got = {}
    with core.Box() as box:
        rc, _ = core.isolated(_write, p, os.path.join(box, 'in.hdf'))
        if p['mode'] == 'threads':
            rc, v = core.isolated(_threads, p, box, timeout=150)
            if v is None:
                raise core.HarnessError('session ended with %s' % rc)
            got, err, dec, trail, steps, dead = v
            if 'decisions' not in p:
                p = dict(p, decisions=dec)
            res.plan = p
            res.steps = steps
            sw = [t for t in trail if t[2] != 'end']
            res.fault('preemption', len(sw))
            res.nontrivial = bool(sw)
            res.log = list(trail)
            if dead:
                if dead.startswith('no progress'):
                    raise core.HarnessError(dead)
                res.fail('deadlock', dead)
            elif err:
                res.fail('raises', 'a worker thread raised %s' % err)
        else:
            todo = list(range(len(p['pieces'])))
            lives = list(p['lives']) + [[]]
            for fl in lives:
                life = core.Life(_life, p, box, todo, fl)
                recs = life.records(100)
                if life.rc is None or life.rc not in (0, simfs.CRASH_RC):
                    raise core.HarnessError('life ended with %s' % life.rc)
                for r in recs:
                    if r[0] == 'piece':
                        got[r[1]] = r[2]
                        res.log.append(('piece', r[1]))
                    elif r[0] == 'fault':
                        res.probe('retries')
                        res.log.append(('retry', r[1], r[2]))
                    elif r[0] == 'gave up':
                        res.fail('raises', 'piece %s raises on a working '
                                 'disk: %s' % (p['pieces'][r[1]], r[2]))
                    else:
                        res.log.append(tuple(r[1]))
                        res.steps += len(r[1])
                        for k, n in r[2].items():
                            res.fault(k, n)
                            res.nontrivial = True
                if life.rc == simfs.CRASH_RC:
                    res.fault('death')
                    res.nontrivial = True
                    res.log.append('death')
                todo = [k for k in todo if k not in got]
                if not todo or res.viol:
                    break
            order = [x[1] for x in res.log if x[0] == 'piece']
            starts = [p['pieces'][k][1] for k in order]
            res.nontrivial |= starts != sorted(starts)
        res.nontrivial &= len(p['pieces']) > 1
    res.sig = core.digest(str(p['pieces']), *res.log)
    if res.viol:
        return res
    h = p['shape'][1]
    rng_ = float(np.max(ref)) - float(np.min(ref)) if ref.size else 0.0
    tol = 1.0 if np.dtype(p['dtype']).kind in 'ui' else 1e-4 * max(rng_, 1.0)
    # coordinates are rounded to single precision in some of the functions
    tol += 2.0 * rng_ * max(p['shape']) * 2.0 ** -23
    for k, pc in enumerate(p['pieces']):
        if k not in got:
            raise core.HarnessError('piece %d missing' % k)
        a = pc[1]
        b = pc[1] if pc[0] == 's' else h - 1 if pc[2] == -1 else pc[2]
        want = ref[:, a:b + 1]
        v = got[k]
        res.probe('pieces')
        d = None
        if v.shape != want.shape:
            d = 'shape %s instead of %s' % (v.shape, want.shape)
        else:
            e = np.abs(v.astype(np.float64) - want.astype(np.float64))
            if not np.all(e <= tol):
                i = np.unravel_index(int(np.argmax(np.nan_to_num(
                    e, nan=np.inf))), e.shape)
                d = '%d of %d values differ, e.g. image %d row %d column %d: '\
                    '%s instead of %s' % (int((~(e <= tol)).sum()), e.size,
                                          i[0], a + i[1], i[2], v[i], want[i])
        if d:
            _, xc, yc, f = model(p)
            res.fail('differs', '%s of a %s stack (centre %.2f, %.2f, '
                     'coefficients %s, %s): %s' % (
                         'slice %d' % a if pc[0] == 's' else
                         'chunk %d..%d' % (a, pc[2]), p['shape'], xc, yc,
                         ['%.3g' % x for x in f], p['mode'], d))
            break
    return res


def shrink(plan):
    for c in core.drop_each(plan['pieces']):
        if c:
            yield {k: v for k, v in dict(plan, pieces=c).items()
                   if k != 'decisions'}
    if plan['mode'] == 'threads':
        if plan['nt'] > 2:
            yield {k: v for k, v in dict(plan, nt=2).items()
                   if k != 'decisions'}
        yield {**{k: v for k, v in plan.items() if k != 'decisions'},
               'mode': 'lives', 'lives': []}
        if plan.get('decisions'):
            for c in core.drop_each(plan['decisions']):
                yield dict(plan, decisions=c)
    else:
        for c in core.drop_each(plan['lives']):
            yield dict(plan, lives=c)
        for i, l in enumerate(plan['lives']):
            for c in core.drop_each(l):
                yield dict(plan, lives=plan['lives'][:i] + [c]
                           + plan['lives'][i + 1:])
