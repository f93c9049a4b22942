"""C08: an HDF stream stores every write in its place."""
import os
import random
from pathlib import Path

import numpy as np

import core
import simfs
import store
import threads
from filegen import COMPONENTS                              # noqa

ID = 'C08'
RULE = ('1-3 streams open at once (1D-4D shapes, all numeric types, key '
        'paths, metadata, overwriting or not, over existing files), each '
        'written in 1-8 slices (a partition, gaps or overlaps, sub-slices of '
        'all axes) in a seeded order; one third sequential and fault-free, '
        'one third with 1-2 disk faults or a full disk placed in open, write '
        'or close, one third by 2-4 threads that open their own streams '
        'and/or share one, under a seeded schedule of library lines and '
        'writes. Non-trivial: more than one writer or stream, slices out of '
        'order, or a fault fired')
MEASURE = 'digest of the order of opens, writes and closes and their outcome'
ASSUMPTIONS = ['writers of one stream are serialised by h5py itself: the '
               'schedule decides the order of whole slice writes']
RUNS = {'quick': 6000, 'thorough': 60000}
WALL = {'quick': 150, 'thorough': 3000}
TYPES = ['float32', 'float32', 'float64', 'uint8', 'uint16', 'int16', 'int32',
         'int64', 'bool', 'float16']
KEYS = ['entry/data', 'entry/data', 'data', 'a/b/c', '/entry/x/y', 'scan 1/v',
        'Entry/Data', 'exchange/data_1']
META = ['m/angles', 'm/energy', 'm/Energy', 'info', 'entry/t', 'zz/q/r',
        'entry/T', '/m/lead', 'm/a.b', 'm/\u00e9t\u00e9', 'Info', 'm/angles_2']


def _writes(rng, shape):
    n = shape[0]
    k = rng.choice([1, 2, 3, 5, 8])
    out = []
    mode = rng.choice(['part', 'part', 'gap', 'overlap', 'box'])
    if mode in ('part', 'gap'):
        cuts = sorted(set([0, n] + [rng.randrange(n + 1) for _ in range(k)]))
        sl = [[[a, b]] for a, b in zip(cuts, cuts[1:])]
        if mode == 'gap' and len(sl) > 1:
            sl.pop(rng.randrange(len(sl)))
    else:
        sl = []
        for _ in range(k):
            box = []
            for d in shape[:1 if mode == 'overlap' else len(shape)]:
                a = rng.randrange(d)
                box.append([a, rng.randrange(a + 1, d + 1)])
            sl.append(box)
    rng.shuffle(sl)
    for s in sl:
        out.append({'sel': s, 'seed': rng.randrange(1 << 30),
                    'form': rng.choice(['', '', 'view', 'fortran', 'int',
                                        'wide'])})
    return out


def gen(rng, i, tier):
    mode = ['plain', 'fault', 'thread'][i % 3]
    streams, names = [], rng.sample(
        ['x.hdf', 'x.h5', 'a/y.nxs', 'new/d/z.hdf5', 'w', 'v.hdf'], 3)
    for s in range(rng.choice([1, 1, 2, 3])):
        nd = rng.choice([1, 2, 3, 3, 4])
        shape = [rng.choice([1, 2, 3, 5, 8]) for _ in range(nd)]
        if rng.random() < 0.15:
            shape = [rng.choice([20, 40]), 60, 70][:max(nd, 2)]
        st = {'path': names[s], 'shape': shape, 'dtype': rng.choice(TYPES),
              'key': rng.choice(KEYS), 'ovw': rng.random() < 0.7,
              'exists': rng.random() < 0.5, 'opts': {},
              'writes': _writes(rng, shape)}
        if rng.random() < 0.6:
            for k in rng.sample(META, rng.choice([1, 2, 3, 6])):
                st['opts'][k] = rng.choice(
                    [53, 1.25, -7, 2 ** 60 + 1, 'a text', [1, 2, 5],
                     {'n': 7, 'seed': rng.randrange(99)},
                     {'n': [3, 4], 'seed': rng.randrange(99), 't': 'uint16'},
                     {'n': [2, 1, 3], 'seed': rng.randrange(99),
                      't': 'float32'}])
            st['two'] = rng.random() < 0.2
            if rng.random() < 0.12:
                # metadata that exclude each other: refuse, or store them all
                k = rng.choice(sorted(st['opts']))
                st['opts'] = dict(rng.sample(
                    list(st['opts'].items()) + [(k + '/more', 9)],
                    len(st['opts']) + 1))
                st['clash'] = True
        if rng.random() < 0.12:
            st['refuse'] = rng.choice(['sub', 'sub', 'same', 'longer'])
            st['last'] = rng.random() < 0.5
        st['how'] = rng.choice(['str', 'str', 'type', 'dtype', 'list', 'Path'])
        streams.append(st)
    if len(streams) > 1 and rng.random() < 0.3:
        for st in streams:
            st['path'], st['ovw'] = names[0], False
    plan = {'mode': mode, 'streams': streams,
            'seed': rng.randrange(1 << 40), 'p': rng.choice([0.1, 0.3, 0.6]),
            'decisions': None}
    if mode == 'thread':
        plan['writers'] = rng.choice([2, 2, 3, 4])
        plan['calls'] = rng.random() < 0.4
        return plan
    # order of phases: open, writes, close of each stream, interleaved
    todo = [[['open', s]] + [['write', s, k] for k in range(len(t['writes']))]
            + [['close', s]] for s, t in enumerate(streams)]
    order = []
    while todo:
        q = rng.choice(todo)
        order.append(q.pop(0))
        if not q:
            todo.remove(q)
    plan['order'] = order
    if mode == 'fault':
        ev = _rehearse(plan)
        plan['faults'] = {}
        # events of a phase, weighted: any phase may carry the fault
        cand = [k for k, e in ev.items() if e]
        for k in rng.sample(cand, min(len(cand), rng.choice([1, 1, 2]))):
            e = ev[k]
            tot = sum(x[3] for x in e if x[0] == simfs.C['WRITE'])
            if tot and rng.random() < 0.2:
                plan['faults'][k] = {'quota': rng.randrange(tot)}
                continue
            f = store.pick_fault(rng, e, 0.0)
            if f:
                plan['faults'][k] = {'faults': [f]}
    return plan


def _rehearse(plan):
    with core.Box() as box:
        root = os.path.join(box, 'w')
        os.makedirs(root)
        _prepare(plan, root)
        rc, v = core.isolated(_sequential, dict(plan, faults={}), root)
        if v is None:
            return {}
        return {k: r['ev'] for k, r in v.items() if 'ev' in r}


def _prepare(plan, root):
    import h5py
    for t in plan['streams']:
        if t['exists']:
            p = os.path.join(root, _target(t['path']))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with h5py.File(p, 'w') as f:
                f['old'] = np.arange(50.0)


def _target(p):
    return p if os.path.splitext(p)[1] else p + '.hdf'


def _data(w, shape, dtype):
    s = tuple(b - a for a, b in w['sel']) + tuple(shape[len(w['sel']):])
    r = np.random.default_rng(w['seed'])
    if dtype == 'bool':
        a = r.integers(0, 2, s).astype(bool)
    elif w.get('form') == 'wide':            # the whole range of the type
        if dtype[0] in 'iu':
            i = np.iinfo(dtype)
            a = r.integers(i.min, i.max, s, dtype=dtype, endpoint=True)
        else:
            a = ((r.random(s) - 0.5) * 10.0 ** r.integers(
                -4, 4 if dtype == 'float16' else 30, s)).astype(dtype)
            a[r.random(s) < 0.05] = np.nan
            a[r.random(s) < 0.05] = np.inf
    else:
        a = (r.random(s) * 200 + 1).astype(dtype)
    if w.get('form') == 'view':
        b = np.zeros(tuple(2 * n for n in s), dtype)[(slice(0, None, 2),)
                                                     * len(s)]
        b[...] = a
        return b
    return np.asfortranarray(a) if w.get('form') == 'fortran' else a


def _sel(w):
    return tuple(a if w.get('form') == 'int' and b == a + 1 else slice(a, b)
                 for a, b in w['sel'])


def _fit(w, data):
    """The data as the writer passes them: without axes given by number."""
    if w.get('form') == 'int':
        return data[tuple(0 if b == a + 1 else slice(None)
                          for a, b in w['sel'])]
    return data


def _opt(v):
    if not isinstance(v, dict):
        return v
    a = np.random.default_rng(v['seed']).random(v['n'])
    return (a * 1000).astype(v['t']) if 't' in v else a


def _opts(t):
    return {k: _opt(v) for k, v in t['opts'].items()}


def _open(t, root):
    import discorpy.losa.loadersaver as losa
    kw = {}
    o = _opts(t)
    if t.get('refuse'):
        bad = t['key'] + {'sub': '/sub', 'same': '', 'longer': '2'}[
            t['refuse']]
        o = dict(o, **{bad: 1.0}) if t.get('last') else dict({bad: 1.0}, **o)
    if o:
        kw['options'] = o
        if t.get('two'):
            ks = list(o)
            kw = {'options': {k: o[k] for k in ks[::2]}}
            if ks[1::2]:
                kw['metadata'] = {k: o[k] for k in ks[1::2]}
    path, shape, dtype = os.path.join(root, t['path']), tuple(t['shape']), \
        t['dtype']
    how = t.get('how')
    if how == 'type':
        dtype = np.dtype(dtype).type
    elif how == 'dtype':
        dtype = np.dtype(dtype)
    elif how == 'list':
        shape = list(shape)
    elif how == 'Path':
        path = Path(path)
    return losa.open_hdf_stream(path, shape, key_path=t['key'],
                                data_type=dtype, overwrite=t['ovw'], **kw)


def _sequential(plan, root):
    simfs.root(root)
    simfs.pause(True)
    ds, out = {}, {}
    fl = plan.get('faults') or {}
    for ph in plan['order']:
        k = '/'.join(map(str, ph))
        t = plan['streams'][ph[1]]
        f = fl.get(k, {})
        simfs.begin(f.get('faults', ()), f.get('quota'))
        simfs.pause(False)
        rec = {}
        try:
            if ph[0] == 'open':
                ds[ph[1]] = _open(t, root)
                simfs.pause(True)
                rec['file'] = ds[ph[1]].file.filename
            elif ph[1] in ds:
                d = ds[ph[1]]
                if ph[0] == 'write':
                    w = t['writes'][ph[2]]
                    d[_sel(w)] = _fit(w, _data(w, t['shape'], t['dtype']))
                else:
                    d.file.close()
            rec['out'] = 'ok'
        except BaseException as e:
            rec['out'], rec['err'] = 'exc', store.exc_info(e)
        simfs.pause(True)
        rec['ev'], rec['fired'] = simfs.end()
        out[k] = rec
    return out


def _threaded(plan, root):
    rng = None
    if plan.get('decisions') is None:
        rng = random.Random('c08/%s' % plan['seed'])
    sim = threads.Sim(rng, plan.get('decisions'), p_switch=plan['p'],
                      calls=plan.get('calls', False))
    out, order = {}, []
    n = plan['writers']
    shared = {}
    # stream s is opened by thread s % n; slices are dealt to the threads:
    # own streams are written by their opener, stream 0 by everybody
    share = plan['streams'][0]
    try:
        shared[0] = _open(share, root)
        out['open/0'] = {'out': 'ok', 'file': shared[0].file.filename}
    except Exception as e:
        out['open/0'] = {'out': 'exc', 'err': store.exc_info(e)}

    def step(k, fn):
        sim.point(None)
        order.append(k)
        try:
            out[k] = {'out': 'ok'}
            r = fn()
            if k.startswith('open'):
                out[k]['file'] = r.file.filename
            return r
        except threads.Deadlock:
            raise
        except Exception as e:
            out[k] = {'out': 'exc', 'err': store.exc_info(e)}

    def body(c):
        def fn():
            mine = [s for s in range(1, len(plan['streams'])) if s % n == c]
            ds = {s: step('open/%d' % s,
                          lambda s=s: _open(plan['streams'][s], root))
                  for s in mine}
            work = [(s, k) for s in mine
                    for k in range(len(plan['streams'][s]['writes']))
                    if ds[s] is not None]
            if 0 in shared:
                work += [(0, k) for k in range(len(share['writes']))
                         if k % n == c]
                ds[0] = shared[0]

            def wr(s, k):
                t = plan['streams'][s]
                w = t['writes'][k]
                data = _fit(w, _data(w, t['shape'], t['dtype']))
                ds[s][_sel(w)] = data
            for s, k in work:
                step('write/%d/%d' % (s, k), lambda s=s, k=k: wr(s, k))
            for s in mine:
                if ds[s] is not None:
                    step('close/%d' % s, lambda s=s: ds[s].file.close())
        return fn
    sim.run([body(c) for c in range(n)], timeout=60)
    if 0 in shared:
        out['close/0'] = {'out': 'ok'}
        try:
            shared[0].file.close()
        except Exception as e:
            out['close/0'] = {'out': 'exc', 'err': store.exc_info(e)}
    return out, order, sim.decisions, sim.deadlock, len(sim.trail)


def _read(path, keys):
    import h5py
    import discorpy.losa.loadersaver as losa
    got = {}
    for k in keys:
        try:
            d = losa.load_hdf_object(path, k)
            got[k] = d[()]
            d.file.close()
        except Exception as e:
            got[k] = '%s: %s' % (type(e).__name__, str(e)[:200])
    try:
        with h5py.File(path, 'r') as f:
            names = []
            f.visititems(lambda n, o: names.append(n) if isinstance(
                o, h5py.Dataset) else None)
    except Exception:
        names = None
    return got, names


def _equal(a, b):
    if b.dtype.kind == 'f':
        return np.array_equal(a, b, equal_nan=True)
    if b.dtype.kind == 'S':
        return bytes(a) == bytes(b[()])
    return np.array_equal(a, b)


def run(plan):
    res = core.Result()
    with core.Box() as box:
        root = os.path.join(box, 'w')
        os.makedirs(root)
        _prepare(plan, root)
        before = store.snapshot(root)
        if plan['mode'] == 'thread':
            rc, v = core.isolated(_threaded, plan, root, timeout=90)
            if v is None:
                raise core.HarnessError('thread run ended with %s' % rc)
            out, order, dec, dead, sw = v
            if dead:
                res.fail('stuck', 'threads block for ever: %s' % dead)
            if plan['decisions'] is None:
                res.plan = dict(plan, decisions=dec)
            res.nontrivial = sw > 1
            res.probe('thread switches', sw)
        else:
            rc, out = core.isolated(_sequential, plan, root, timeout=60)
            if out is None:
                if rc == simfs.STUCK_RC or rc is None:
                    res.fail('stuck', 'a stream operation does not come to '
                             'an end')
                    return res
                raise core.HarnessError('stream run ended with %s' % rc)
            order = ['/'.join(map(str, p)) for p in plan['order']]
            res.nontrivial = len(order) > 3
        for k in order:
            r = out.get(k, {})
            res.log.append((k, r.get('out'), tuple(r.get('ev', ())),
                            (r.get('err') or [''])[0]))
            for f, n in (r.get('fired') or {}).items():
                res.fault(f, n)
                res.nontrivial = True
        res.steps = sum(len(r.get('ev', ())) + 1 for r in out.values())
        res.sig = core.digest(*res.log)
        if res.viol:
            return res
        _judge(plan, out, order, root, before, res)
    return res


def _judge(plan, out, order, root, before, res):
    files = {}
    after = store.snapshot(root)
    for s, t in enumerate(plan['streams']):
        o = out.get('open/%d' % s)
        if not o:
            continue
        name = 'stream %d (%s, shape %s, %s, key %s)' % (
            s, t['path'], t['shape'], t['dtype'], t['key'])
        if t.get('refuse'):
            if o['out'] == 'ok':
                if t['refuse'] != 'longer':
                    res.fail('not-refused', name + ': an option at or below '
                             "the dataset's own key path was accepted")
            else:
                rel = _target(t['path'])
                if t['exists'] and before.get(rel) != after.get(rel):
                    res.fail('refused-but-changed', name + ': the option was '
                             'refused but the existing file has changed')
            continue
        recs = [(k, r) for k, r in out.items()
                if k.split('/')[1] == str(s)]
        bad = [(k, r) for k, r in recs if r['out'] == 'exc']
        fired = any(r.get('fired') for _, r in out.items()) if \
            plan['mode'] == 'fault' else False
        if bad:
            if not fired and not (t.get('clash') and o['out'] == 'exc'):
                res.fail('raised', '%s: %s raised %s: %s on a healthy disk'
                         % (name, bad[0][0], bad[0][1]['err'][0],
                            bad[0][1]['err'][2]))
            continue
        rel = os.path.relpath(o['file'], root)
        if rel in files:
            res.fail('same-file', '%s and stream %d share the file %s'
                     % (name, files[rel], rel))
            continue
        files[rel] = s
        if not t['ovw'] and rel in before:
            res.fail('same-file', '%s (overwrite=False) took the existing '
                     'file %s' % (name, rel))
        want = np.zeros(tuple(t['shape']), t['dtype'])
        for k in order:
            p = k.split('/')
            if p[0] == 'write' and p[1] == str(s):
                w = t['writes'][int(p[2])]
                want[_sel(w)] = _fit(w, _data(w, t['shape'], t['dtype']))
        expect = {t['key'].strip('/'): want}
        for k, v in _opts(t).items():
            expect[k.strip('/')] = np.asarray(
                v.encode() if isinstance(v, str) else v)
        rc, v = core.isolated(_read, o['file'], list(expect))
        if v is None:
            res.fail('not-loadable', name + ': reading it back died (%s)' % rc)
            continue
        got, names = v
        how = ' (faults fired, nothing was raised)' if fired else ''
        for k, w in expect.items():
            g = got[k]
            if isinstance(g, str):
                res.fail('lost', '%s: %s does not load: %s%s'
                         % (name, k, g, how))
            elif not (np.shape(g) == w.shape and _equal(g, w)
                      and (w.dtype.kind == 'S'
                           or np.asarray(g).dtype == w.dtype)):
                d = np.argwhere(np.asarray(g) != w)[:1].tolist() \
                    if np.shape(g) == w.shape else 'shape %s' % (np.shape(g),)
                if np.asarray(g).dtype != w.dtype:
                    d = '%s, type %s' % (d, np.asarray(g).dtype)
                res.fail('wrong-data', '%s: %s differs from what was written '
                         '(first at %s)%s' % (name, k, d, how))
        if names is not None and set(names) != set(expect):
            res.fail('other-datasets', '%s holds %s, expected %s'
                     % (name, sorted(names), sorted(expect)))


def shrink(plan):
    st = plan['streams']
    for s in range(len(st)):
        if len(st) > 1:
            m = {j: (j if j < s else j - 1) for j in range(len(st)) if j != s}
            d = dict(plan, streams=st[:s] + st[s + 1:])
            if plan.get('order'):
                d['order'] = [[p[0], m[p[1]]] + p[2:] for p in plan['order']
                              if p[1] != s]
                d['faults'] = {}
                for k, v in (plan.get('faults') or {}).items():
                    q = k.split('/')
                    if int(q[1]) in m:
                        q[1] = str(m[int(q[1])])
                        d['faults']['/'.join(q)] = v
            yield d
    if plan.get('faults') and len(plan['faults']) > 1:
        for k in plan['faults']:
            yield dict(plan, faults={a: b for a, b in plan['faults'].items()
                                     if a != k})
    if plan.get('decisions'):
        for cand in core.drop_each(plan['decisions']):
            yield dict(plan, decisions=cand)
    for s, t in enumerate(st):
        for k in t['opts']:
            yield dict(plan, streams=st[:s] + [dict(t, opts={
                a: b for a, b in t['opts'].items() if a != k})] + st[s + 1:])
        if t['exists']:
            yield dict(plan, streams=st[:s] + [dict(t, exists=False)]
                       + st[s + 1:])
    if plan.get('order'):
        for cand in core.drop_each([p for p in plan['order']
                                    if p[0] == 'write']):
            keep = {tuple(p) for p in cand}
            yield dict(plan, order=[p for p in plan['order'] if
                                    p[0] != 'write' or tuple(p) in keep])
