"""Generators of file workloads (plans for store.run_plan)."""
import simfs
import store

TYPES = ['img', 'hdf', 'stream', 'txt', 'json', 'pkl', 'plot']
DIRS = ['', '', '', 'a', 'a', 'a/b', 'new/deep', 'sp ace', 'dot.dir', 'ünï']
STEMS = ['x', 'x', 'data', 'x_0001', 'a.b', 'v1.0 x', 'img_00000', 'y_0002',
         'Ω', 'B', 'X']
EXTS = {'img': ['.tif', '.tif', '.tiff', '.png', '.png', '.jpg', '.bmp'],
        'hdf': ['.hdf', '.h5', '.nxs', '.hdf5', ''],
        'txt': ['.txt', '.dat', ''], 'json': ['.json', ''],
        'pkl': ['.pkl', ''], 'plot': ['.png', '.png', '.png', '.jpg', '']}
KEYS = [None, 'entry', 'entry/g', 'a/b/c', 'grp', '/lead/g']
SPELL = ['abs', 'abs', 'rel', 'dot', 'Path', 'up']


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = rng.randrange(1 << 20)

    def seed(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------- values
    def image(self, ext):
        r = self.r
        h, w = r.choice([(5, 7), (8, 6), (4, 9), (16, 12), (3, 3), (40, 33)])
        shape = [h, w]
        if ext in ('.png', '.tif', '.tiff') and r.random() < 0.2:
            shape = [max(h, 5), max(w, 5), 3]
            if r.random() < 0.3 and ext != '.png':
                shape = [3, max(h, 5), max(w, 5)]
        dt = r.choice(['uint8', 'uint8', 'uint16', 'float32', 'float64',
                       'int16', 'int32'])
        if len(shape) == 3 and ext == '.png':
            dt = r.choice(['uint8', 'uint16', 'float32'])
        s = {'k': 'arr', 'shape': shape, 'dtype': dt, 'seed': self.seed()}
        if r.random() < 0.1:
            s['mode'] = 'const'
        if r.random() < 0.2:
            s['layout'] = r.choice(['F', 'strided'])
        return s

    def array(self, dims=None):
        r = self.r
        n = dims or r.choice([2, 2, 3, 3, 3, 1, 4])
        shape = [r.choice([2, 3, 4, 5, 7, 11]) for _ in range(n)]
        if r.random() < 0.06 and n <= 3:
            shape = [40 + r.randrange(30)] * min(n, 2) + [9] * (n - 2)
        s = {'k': 'arr', 'shape': shape, 'seed': self.seed(),
             'dtype': r.choice(['float32', 'float64', 'uint8', 'uint16',
                                'int32', 'int64', 'float16', '>f4'])}
        if r.random() < 0.25:
            s['layout'] = r.choice(['F', 'strided'])
        return s

    def value(self, t, ext):
        r = self.r
        if t == 'img':
            return self.image(ext)
        if t in ('hdf', 'stream'):
            return self.array()
        if t in ('txt', 'json'):
            s = {'k': 'coef', 'n': r.choice([0, 1, 3, 5, 5, 8]),
                 'seed': self.seed(),
                 'cont': r.choice(['list', 'list', 'tuple', 'nd', 'np64'])}
            if r.random() < 0.2:
                s['ints'] = True
            if r.random() < 0.2:
                s['exact'] = True
            if r.random() < 0.08:
                s['n'] = 900
            return s
        if t == 'pkl':
            s = {'k': 'list', 'n': r.choice([0, 1, 3, 6]), 'seed': self.seed()}
            if r.random() < 0.2:
                s['big'] = r.choice([1000, 20000])
            return s

    BAD = {'img': ['object', 'complex', 'int64', '1d'],
           'hdf': ['object', 'objarr', 'set', 'raises'],
           'txt': ['raises'], 'json': ['object', 'set', 'raises', 'objarr'],
           'pkl': ['lambda', 'raises']}

    # --------------------------------------------------------------- slots
    def good_slot(self, types):
        """A slot whose path already has the extension of its file."""
        while True:
            s = self.slot(types)
            s['path'] = self.stored_path(s)
            import os
            if os.path.splitext(s['path'])[1] in EXTS[s['fam']]:
                return s

    def slot(self, types):
        r = self.r
        t = r.choice(types)
        fam = store.FAMILY[t]
        path = '/'.join(x for x in [r.choice(DIRS),
                                    r.choice(STEMS) + r.choice(EXTS[fam])]
                        if x)
        return {'fam': fam, 'path': path, 'kinds': [k for k in types
                                                    if store.FAMILY[k] == fam],
                'saved': None}

    def save(self, slot, ovw=0.7, bad=0.0):
        r = self.r
        t = r.choice(slot['kinds'])
        op = {'op': 'save', 't': t, 'path': slot['path'],
              'ovw': r.random() < ovw, 'spell': r.choice(SPELL)}
        import os
        ext = os.path.splitext(slot['path'])[1]
        if t == 'plot':
            op['fn'] = r.choice(['lines', 'resid', 'pts'])
            op['hw'] = [r.choice([40, 60]), r.choice([50, 70])]
            op['dpi'] = r.choice([40, 50])
            op['val'] = {'k': 'lines' if op['fn'] == 'lines' else 'pts',
                         'n': r.randrange(1, 4), 'seed': self.seed()}
            if r.random() < bad:
                op['val'] = {'k': 'bad', 'what': r.choice(
                    ['raises', 'object', 'set']), 'seed': 0}
            return op
        sv = slot.get('saved')
        if sv and sv['t'] == t and sv['val']['k'] != 'bad' and \
                r.random() < 0.45:
            # as before with other values
            op['val'] = dict(sv['val'], seed=self.seed())
            if sv['val']['k'] == 'list':
                op['val']['like'] = sv['val'].get('like', sv['val']['seed'])
        else:
            op['val'] = self.value(t, ext)
        if t == 'hdf':
            op['key'] = r.choice(KEYS)
        if t == 'stream':
            op['key'] = r.choice([None, 'entry/data', 'a/b/data', 'vol'])
            n = op['val']['shape'][0]
            cuts = sorted({0, n, r.randrange(0, n + 1)})
            parts = [[a, b] for a, b in zip(cuts, cuts[1:])]
            r.shuffle(parts)
            if r.random() < 0.3 and len(parts) > 1:
                parts.pop()
            op['parts'] = parts
            if r.random() < 0.5:
                op['opts'] = {'m/angles': {'k': 'arr', 'shape': [5],
                                           'dtype': 'float32',
                                           'seed': self.seed()}}
                if r.random() < 0.5:
                    op['opts']['m/energy'] = r.choice([53, 1.5])
        if r.random() < bad:
            if t == 'stream':
                op['opts'] = r.choice([
                    {(op['key'] or 'entry/data') + '/sub': 3},
                    {'m/q': {'k': 'bad', 'what': 'object', 'seed': 0}}])
                op['refused'] = True
            else:
                op['val'] = {'k': 'bad', 'what': r.choice(self.BAD[t]),
                             'seed': self.seed()}
        if t == 'img' and r.random() < bad * 0.5:
            op['path'] = op['path'] + r.choice(['', '.xyz'])
        return op

    def load(self, slot, rel=None, wrong=0.15):
        r = self.r
        fam = slot['fam']
        sv = slot['saved']
        import os
        path = rel or slot['path']
        if rel is None and not os.path.splitext(path)[1] and \
                r.random() < 0.9 and fam in store.DEFEXT:
            path = path + store.DEFEXT[fam]
        op = {'op': 'load', 't': fam, 'path': path, 'spell': r.choice(SPELL)}
        if fam == 'img':
            op['avg'] = r.random() < 0.6
        if fam == 'hdf':
            self.hdf_load(op, sv, wrong)
        if r.random() < wrong * 0.4:
            op['path'] = op['path'] + 'q'
        return op

    def hdf_load(self, op, sv, wrong):
        r = self.r
        x = r.random()
        op['fn'] = 'file' if x < 0.6 else 'obj' if x < 0.75 else \
            'info' if x < 0.88 else 'find'
        if op['fn'] in ('info', 'find'):
            op['pat'] = r.choice(['data', 'entry', 'a', 'm/', 'b/c', 'zzz'])
            op['disp'] = r.random() < 0.3
            return
        c = store.content_of(sv) if sv and sv['val']['k'] != 'bad' else None
        key = c['main'] if c else 'entry/data'
        if r.random() < wrong:
            key = r.choice(['nope', 'entry', 'm/energy', 'm/angles'])
        elif r.random() < 0.3:
            key = '/' + key.strip('/')
        op['key'] = key
        if op['fn'] == 'file':
            if r.random() < 0.2:
                op['key'] = None
            shape = sv['val'].get('shape') if sv else None
            if shape and len(shape) == 3 and r.random() < 0.75:
                ax = r.choice([0, 1, 2])
                op['axis'] = ax
                n = shape[ax]
                q = r.random()
                if q < 0.35:
                    op['index'] = r.choice([0, n - 1, r.randrange(n), -1, -n])
                elif q < 0.6:
                    a = r.randrange(n)
                    op['index'] = [a, r.randrange(a + 1, n + 1)]
                elif q < 0.8:
                    a = r.randrange(n)
                    op['index'] = [a, r.randrange(a + 1, n + 1),
                                   r.choice([1, 2, 3])]
                else:
                    k = r.choice([1, 4, 5])
                    if n >= k:
                        op['index'] = sorted(r.sample(range(n), k))
                if isinstance(op.get('index'), list) and r.random() < 0.2:
                    # counted from the end
                    x = list(op['index'])
                    if len(x) > 3 or len(x) == 1:
                        op['index'] = [j - n for j in x]
                    elif x[1] < n:
                        op['index'] = [x[0] - n, x[1] - n] + x[2:]
                if r.random() < wrong:
                    op['index'] = r.choice([n + 3, [n + 5, n + 9], [3, 3],
                                            [2, 1], -n - 2])
                if isinstance(op.get('index'), list):
                    op['tuple'] = r.random() < 0.5

    # ---------------------------------------------------------------- plans
    def taken(self):
        """Numbers in use: some of the first ones, or a long series."""
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.sample(range(0, 7), r.randrange(0, 4))
        if x < 0.8:
            return list(range(r.randrange(1, 6)))
        if x < 0.97:
            n = r.choice([9, 10, 11, 12, 17])
            return [j for j in range(n) if r.random() < 0.97]
        return list(range(r.choice([99, 100, 101, 130])))

    def link_target(self, out):
        n = len([f for f in out if f['path'].startswith('tgt')])
        out.insert(0, {'path': 'tgt%d.bin' % n, 'what': 'file', 'n': 60 + n})
        import os
        d = os.path.dirname(out[-1]['path'])
        return os.path.relpath('tgt%d.bin' % n, d or '.')

    def neighbours(self, slots, many):
        """Files already in the folders (other files, candidate names)."""
        r, out = self.r, []
        import os
        for s in slots:
            b, e = os.path.splitext(s['path'])
            e = e or store.DEFEXT.get(s['fam'], '')
            if s['fam'] not in ('img',) and not os.path.splitext(s['path'])[1]:
                b = s['path']
            if r.random() < (0.7 if many else 0.3):
                out.append({'path': b + e, 'what': r.choice(
                    ['file', 'file', 'empty', 'dir'] if many
                    else ['file', 'empty']), 'n': 30 + r.randrange(300)})
                if out[-1]['what'] == 'file' and r.random() < 0.3 and \
                        s['fam'] in ('img', 'plot', 'txt', 'json', 'pkl'):
                    # a second name of the same file (a stream, written in
                    # place, would change both)
                    out.append({'path': 'twin%d' % len(out), 'what': 'hard',
                                'to': out[-1]['path']})
            for j in self.taken() if many else []:
                out.append({'path': '%s_%04d%s' % (b, j, e), 'what': r.choice(
                    ['file', 'file', 'file', 'empty', 'dir']),
                    'n': 40 + r.randrange(100)})
                if r.random() < 0.06:
                    out[-1].update(what='link', to=self.link_target(out))
            if r.random() < 0.4:
                out.append({'path': b + r.choice(
                    ['.tmp', '.bak', e + '~', '_1' + e, e + '.tmp',
                     '_000' + e]), 'what': 'file', 'n': 50})
            d = os.path.dirname(s['path'])
            x = r.random()
            if x < 0.1:                  # an empty folder, perhaps the own one
                out.append({'path': d or 'empty', 'what': 'dir'})
            elif x < 0.2:                # what a dead process left behind
                out.append({'path': os.path.join(d, r.choice(
                    ['.%s.tmp', '.tmp%s', '%s.part', '.%s.lock', '~%s'])
                    % r.choice(['x', 'a1b2c3', '12345'])), 'what': 'file',
                    'n': 70})
        if r.random() < 0.5:
            out.append({'path': 'other.txt', 'what': 'file', 'n': 64})
        for f in out:
            if f['what'] == 'empty':
                f['what'], f['n'] = 'file', 0
        # nothing below a path that is a file
        return out


def add_faults(rng, plan, idxs, crash, nmax=2, classes=None, avoid=(),
               quota=0.15, deep=0.3):
    """Place faults inside the given ops, from a fault-free rehearsal."""
    ev = store.events_of(plan)
    for i in idxs:
        e = ev.get(i)
        if not e:
            continue
        op = plan['ops'][i]
        if rng.random() < quota and op['op'] == 'save':
            tot = sum(x[3] for x in e if x[0] == simfs.C['WRITE'])
            if tot > 0:
                op['quota'] = rng.choice([0, 1, tot - 1, rng.randrange(tot)])
                continue
        fs = []
        for _ in range(rng.choice([1, 1, 1, nmax])):
            f = store.pick_fault(rng, e, crash, classes, avoid)
            if f and f[0] not in [x[0] for x in fs]:
                fs.append(f)
        if fs:
            op['faults'] = sorted(fs)
        if len(fs) == 1 and fs[0][1] in (simfs.ERR, simfs.SHORT,
                                         simfs.EINTR) and \
                rng.random() < deep:
            # a second fault in what the library does about the first one
            e2 = store.events_of(plan, i).get(i, [])[fs[0][0] + 1:]
            f = store.pick_fault(rng, e2, crash, classes, avoid)
            if f:
                op['faults'] = fs + [[f[0] + fs[0][0] + 1] + f[1:]]
    return plan


def shrink(plan):
    """Smaller candidates of a file plan."""
    import core
    ops = plan['ops']
    for cand in core.drop_each(ops):
        if cand:
            yield dict(plan, ops=cand)
    if plan.get('pre'):
        for cand in core.drop_each(plan['pre']):
            yield dict(plan, pre=cand)
    for i, o in enumerate(ops):
        if o.get('faults'):
            for cand in core.drop_each(o['faults']):
                yield dict(plan, ops=ops[:i] + [dict(o, faults=cand)]
                           + ops[i + 1:])
        for k in ('opts', 'keep', 'vfy', 'index', 'quota', 'refused', 'lib'):
            if o.get(k) is not None:
                yield dict(plan, ops=ops[:i] + [
                    {a: b for a, b in o.items() if a != k}] + ops[i + 1:])
        if o.get('spell', 'abs') != 'abs':
            yield dict(plan, ops=ops[:i] + [dict(o, spell='abs')]
                       + ops[i + 1:])
        v = o.get('val')
        if v and v['k'] == 'arr' and max(v['shape']) > 5:
            yield dict(plan, ops=ops[:i] + [
                dict(o, val=dict(v, shape=[min(5, s) for s in v['shape']]))]
                + ops[i + 1:])


def run_for(prop):
    """run(plan) of a check over the file store: the first violation tagged
    with this property."""
    import core

    def run(plan):
        res = core.Result()
        model, recs = store.run_plan(plan, res)
        for p, kind, msg in model.viol:
            if p == prop:
                res.fail(kind, msg)
                break
        return res
    return run


COMPONENTS = {
    'real': 'all of discorpy.losa, pathlib/io of CPython, h5py + HDF5, '
            'Pillow, Matplotlib (Agg), one forked process per life; the '
            'kernel file system (tmpfs) below the fault layer',
    'stub': 'none; the libc file calls below the scratch folder pass through '
            'the simulated-disk layer vsim/shim/simfs.c, which decides '
            'errors, short transfers, full disk and death of the process'}


def _stored_path(self, s):
    import os
    p, fam = s['path'], s['fam']
    b, e = os.path.splitext(p)
    if e not in EXTS[fam] or not e:
        if fam == 'plot' and e:
            return p
        return (b if fam != 'plot' else p) + store.DEFEXT.get(fam, '.tif')
    return p


def _search(self, s):
    import os
    r = self.r
    d = os.path.dirname(s['path'])
    b, e = os.path.splitext(os.path.basename(self.stored_path(s)))
    pat = r.choice(['*', '*' + e, b + '*', '*.t?f', b[:1] + '*' + e, 'zz*',
                    '[a-y]*', '*_000[0-3]' + e])
    return {'op': 'glob', 'path': os.path.join(d, pat),
            'spell': r.choice(['abs', 'rel', 'Path', 'dot'])}


Gen.stored_path = _stored_path
Gen.search = _search
