"""The simulated file store: executes file operations of the library in
process lives on a simulated disk, and judges them against a model of the
folder.  A plan is pure data; a run is a function of the plan and the code."""
import errno
import fnmatch
import gc
import hashlib
import os
import re
from pathlib import Path

import numpy as np

import core
import simfs
import values
from values import mk, same, brief

HDF_EXT = {'.hdf', '.h5', '.nxs', '.hdf5'}
ATOMIC = {'img', 'hdf', 'plot', 'txt', 'json', 'pkl'}
DEFEXT = {'hdf': '.hdf', 'stream': '.hdf', 'txt': '.txt', 'json': '.json',
          'pkl': '.pkl', 'plot': '.png'}
FAMILY = {'img': 'img', 'plot': 'plot', 'hdf': 'hdf', 'stream': 'hdf',
          'txt': 'txt', 'json': 'json', 'pkl': 'pkl'}


# ---------------------------------------------------------------- snapshots
def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root)] = ('d',)
        for n in fs:
            p = os.path.join(d, n)
            try:
                if os.path.islink(p):
                    out[os.path.relpath(p, root)] = ('l', os.readlink(p))
                    continue
                with open(p, 'rb') as f:
                    b = f.read()
            except OSError as e:
                out[os.path.relpath(p, root)] = ('?', e.errno)
                continue
            out[os.path.relpath(p, root)] = (
                'f', hashlib.sha256(b).hexdigest()[:16], len(b))
    return out


def open_files(root):
    out = []
    for n in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + n)
        except OSError:
            continue
        if t.startswith(root + '/'):
            out.append(t[len(root) + 1:].replace(' (deleted)', ''))
    return sorted(out)


def h5_open():
    from h5py import h5f
    return int(h5f.get_obj_count(
        h5f.OBJ_ALL, h5f.OBJ_FILE | h5f.OBJ_DATASET | h5f.OBJ_GROUP
        | h5f.OBJ_ATTR))


# --------------------------------------------------------- executing one op
def spelled(op, root):
    p = op['path']
    s = op.get('spell', 'abs')
    if s == 'rel':
        return p
    if s == 'dot':
        return './' + p
    if s == 'up':
        return os.path.join(root, 'zz', '..', p) if False else \
            os.path.join(root, '.', p)
    if s == 'Path':
        return Path(os.path.join(root, p))
    return os.path.join(root, p)


def do_save(op, root):
    import discorpy.losa.loadersaver as losa
    t, path, ovw = op['t'], spelled(op, root), op['ovw']
    if t == 'img':
        return losa.save_image(path, mk(op['val']), overwrite=ovw)
    if t == 'hdf':
        kw = {} if op.get('key') is None else {'key_path': op['key']}
        return losa.save_hdf_file(path, mk(op['val']), overwrite=ovw, **kw)
    if t == 'txt' or t == 'json':
        v = mk(op['val'])
        if not (isinstance(v, tuple) and len(v) == 3):
            v = (1.0, 2.0, v)
        f = losa.save_metadata_txt if t == 'txt' else losa.save_metadata_json
        return f(path, v[0], v[1], v[2], overwrite=ovw)
    if t == 'pkl':
        return losa.save_python_list(path, mk(op['val']), overwrite=ovw)
    if t == 'plot':
        h, w = op['hw']
        kw = dict(overwrite=ovw, dpi=op.get('dpi', 50))
        if op['fn'] == 'lines':
            return losa.save_plot_image(path, mk(op['val']), h, w, **kw)
        if op['fn'] == 'resid':
            return losa.save_residual_plot(
                path, mk(op['val']), h, w,
                font_family=op.get('font', 'DejaVu Sans'), **kw)
        return losa.save_plot_points(path, mk(op['val']), h, w, **kw)
    if t == 'stream':
        kw = {}
        if op.get('opts'):
            kw['options'] = {k: (mk(v) if isinstance(v, dict) else v)
                             for k, v in op['opts'].items()}
        if op.get('key') is not None:
            kw['key_path'] = op['key']
        v = op['val']
        data = mk(v)
        ds = losa.open_hdf_stream(path, data.shape, data_type=v['dtype'],
                                  overwrite=ovw, **kw)
        name = ds.file.filename
        try:
            for (a, b) in op.get('parts', [[0, data.shape[0]]]):
                ds[a:b] = data[a:b]
        finally:
            ds.file.close()
        return name
    raise ValueError(t)


def do_load(op, root):
    import discorpy.losa.loadersaver as losa
    t, path = op['t'], spelled(op, root)
    if t in ('img', 'plot'):
        return losa.load_image(path, average=op.get('avg', True))
    if t in ('hdf', 'stream'):
        fn = op.get('fn', 'file')
        if fn == 'file':
            idx = op.get('index')
            if isinstance(idx, list) and op.get('tuple'):
                idx = tuple(idx)
            return losa.load_hdf_file(path, key_path=op.get('key'),
                                      index=idx, axis=op.get('axis', 0))
        if fn == 'obj':
            ds = losa.load_hdf_object(path, op['key'])
            try:
                return ds[...]
            finally:
                ds.file.close()
        if fn == 'info':
            return tuple(map(list, _strs(losa.get_hdf_information(
                path, display=op.get('disp', False)))))
        if fn == 'find':
            return tuple(map(list, _strs(losa.find_hdf_key(
                path, op['pat'], display=op.get('disp', False)))))
    if t == 'txt':
        return losa.load_metadata_txt(path)
    if t == 'json':
        return losa.load_metadata_json(path)
    if t == 'pkl':
        return losa.load_python_list(path)
    raise ValueError(t)


def _strs(r):
    return (r[0], [None if s is None else tuple(s) for s in r[1]],
            [None if d is None else str(d) for d in r[2]])


def run_op(op, root, held):
    import discorpy.losa.loadersaver as losa
    k = op['op']
    if k == 'save':
        return str(do_save(op, root))
    if k == 'load':
        return do_load(op, root)
    if k == 'glob':
        return losa.find_file(spelled(op, root))
    if k == 'hold':
        held[op['slot']] = losa.load_hdf_object(spelled(op, root), op['key'])
        return None
    if k == 'drop':
        ds = held.pop(op['slot'], None)
        if ds is not None:
            ds.file.close()
        return None
    if k == 'rm':
        p = os.path.join(root, op['path'])
        if os.path.isfile(p):
            os.unlink(p)
        return None
    if k == 'cut':
        p = os.path.join(root, op['path'])
        if os.path.isfile(p):
            n = os.path.getsize(p)
            os.truncate(p, max(0, n - op['off']) if op.get('off')
                        else int(n * op['frac']))
        return None
    if k == 'link':
        import h5py
        p = os.path.join(root, op['path'])
        if os.path.isfile(p):
            with h5py.File(p, 'r+') as f:
                if op['key'] not in f:
                    f[op['key']] = h5py.SoftLink('/nowhere/at/all') \
                        if op['soft'] else \
                        h5py.ExternalLink('missing.h5', '/x')
        return None
    raise ValueError(k)


def exc_info(e):
    return (type(e).__name__, [c.__name__ for c in type(e).__mro__],
            str(e)[:300])


class LibFaults:
    """Errors that the HDF5 or image library reports when it reads an object
    (what a failing disk looks like above the library's own caches)."""

    def __init__(self, spec):
        self.spec, self.n, self.hits, self.saved = spec, 0, 0, []

    def _wrap(self, cls, name, what):
        real = getattr(cls, name)

        def call(*a, **kw):
            n, self.n = self.n, self.n + 1
            at, exc, sticky = self.spec
            if n == at or (sticky and n > at):
                self.hits += 1
                raise {'OSError': OSError, 'RuntimeError': RuntimeError}[exc](
                    "Can't synchronously read data (%s)" % what)
            return real(*a, **kw)
        self.saved.append((cls, name, cls.__dict__[name]))
        setattr(cls, name, call)

    def __enter__(self):
        if self.spec:
            import h5py
            from PIL import ImageFile
            self._wrap(h5py.Group, '__getitem__', 'object')
            self._wrap(h5py.Dataset, '__getitem__', 'dataset')
            self._wrap(ImageFile.ImageFile, 'load', 'image')

    def __exit__(self, *exc):
        for cls, name, real in self.saved:
            setattr(cls, name, real)


def life(send, plan, start, root, check_fds=True):
    """Body of one process life: runs ops start.. until the end, a restart,
    or its death; sends one record per op."""
    os.chdir(root)
    simfs.root(root)
    simfs.pause(True)
    held, kept = {}, []
    ops = plan['ops']
    gc.collect()
    for i in range(start, len(ops)):
        op = ops[i]
        if op['op'] == 'restart':
            send({'i': i, 'out': 'restart'})
            return
        send({'i': i, 'out': 'begin'})
        real = op['op'] not in ('rm', 'link', 'cut')
        err = None
        libf = LibFaults(op.get('lib'))
        simfs.begin(op.get('faults', ()), op.get('quota'))
        simfs.pause(not real)
        try:
            with libf:
                out, val = 'ok', run_op(op, root, held)
        except BaseException as e:
            err = e
            out, val = 'exc', exc_info(e)
            if op.get('keep'):
                kept.append(e)
            else:
                e.__traceback__ = None
                e.__context__ = e.__cause__ = None
        simfs.pause(True)
        ev, fired = simfs.end()
        if libf.hits:
            fired['library_error'] = libf.hits
        rec = {'i': i, 'out': out, 'val': val, 'ev': ev, 'fired': fired}
        if op.get('keep') and err is not None:
            rec['fds'] = open_files(root)
        err = None
        if 'fds' not in rec:
            if out == 'exc':
                gc.collect()
            rec['fds'] = open_files(root)
        rec['held'] = sorted(held)
        rec['h5'] = h5_open()
        rec['snap'] = snapshot(root)
        if op.get('vfy') and out == 'ok' and op['op'] == 'save':
            vop = default_load(op, os.path.relpath(val, root))
            simfs.pause(False)
            try:
                rec['vfy'] = ('ok', do_load(vop, root))
            except BaseException as e:
                rec['vfy'] = ('exc', exc_info(e))
            simfs.pause(True)
        if plan.get('coarse') and op['op'] == 'save' and out == 'ok' and \
                os.path.isfile(val):
            os.utime(val, (1.7e9, 1.7e9))     # coarse or stepped clock
        send(rec)
        if op['op'] == 'load':
            spoil(val)
        rec = val = None
    send({'i': len(ops), 'out': 'end'})


def spoil(v):
    """What a load returned belongs to the caller, who changes it."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object:
            v.fill(0)
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v.append('spoiled')
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v['spoiled'] = 1


def default_load(op, rel):
    t = FAMILY[op['t']]
    d = {'op': 'load', 't': t, 'path': rel}
    if t == 'hdf':
        d['key'] = content_of(op)['main']
        if mk(op['val']).ndim not in (2, 3):
            d['fn'] = 'obj'
    return d


# -------------------------------------------------------------------- model
def content_of(op):
    """Logical content that a complete save leaves in its file."""
    t = op['t']
    if t == 'stream':
        key = (op.get('key') or 'entry/data').strip('/')
        sets = {key: {'spec': op['val'], 'parts': op.get('parts')}}
        for k, v in (op.get('opts') or {}).items():
            sets[k.strip('/')] = {'spec': v} if isinstance(v, dict) else {'scalar': v}
        return {'t': 'hdf', 'sets': sets, 'main': key}
    if t == 'hdf':
        key = (op.get('key') or 'entry').strip('/') + '/data'
        return {'t': 'hdf', 'sets': {key: {'spec': op['val']}}, 'main': key}
    if t == 'plot':
        return {'t': 'plot', 'op': {k: op[k] for k in
                                    ('t', 'fn', 'hw', 'val', 'dpi', 'font',
                                     'ext') if k in op}}
    return {'t': t, 'spec': op['val']}


def dataset_value(s):
    if 'scalar' in s:
        return np.asarray(s['scalar'])
    a = mk(s['spec'])
    if s.get('parts') is not None:
        z = np.zeros(a.shape, a.dtype)
        for (i, j) in s['parts']:
            z[i:j] = a[i:j]
        a = z
    return a


_plots = {}


def plot_reference(op, ext):
    key = core.digest(repr(sorted(op.items())), ext)
    if key not in _plots:
        def make(op):
            with core.Box() as b:
                o = dict(op, op='save', path='ref' + ext, ovw=True)
                p = do_save(o, b)
                import discorpy.losa.loadersaver as losa
                return losa.load_image(p)
        rc, v = core.isolated(make, op)
        if len(_plots) > 200:
            _plots.clear()
        _plots[key] = v
    return _plots[key]


def expect(content, lop, ext):
    """('val', value, tol) or ('exc',) for a load of this content."""
    t = content['t']
    if t == 'img':
        a, tol = values.image_loaded(content['spec'], ext,
                                     lop.get('avg', True))
        return 'val', a, tol
    if t == 'plot':
        ref = plot_reference(content['op'], ext)
        return ('val', ref, 1.0) if ref is not None else ('any',)
    if t in ('txt', 'json'):
        x, y, f = mk(content['spec'])
        return 'val', (float(x), float(y), [float(v) for v in f]), 0.0
    if t == 'pkl':
        return 'val', mk(content['spec']), 0.0
    fn = lop.get('fn', 'file')
    sets = content['sets']
    if fn in ('info', 'find'):
        want = {}
        for k, s in sets.items():
            if fn == 'find' and lop['pat'] not in k:
                continue
            a = dataset_value(s)
            want[k] = (tuple(a.shape), str(a.dtype))
        return 'listing', want, bool(content.get('broken'))
    key = lop.get('key')
    if key is None:
        cands = [k for k in sets if k.endswith('/data')]
        if len(cands) != 1 or fn == 'obj':
            return ('any',)
        key = cands[0]
    key = key.strip('/')
    if key not in sets:
        return ('exc',)
    a = dataset_value(sets[key])
    if fn == 'obj':
        return 'val', a, 0.0
    try:
        return 'val', values.hdf_select(a, lop.get('index'),
                                        lop.get('axis', 0)), 0.0
    except LookupError:
        return ('exc',)


def judge(content, lop, ext, val, partly=False):
    """Is `val` what a load of `content` must return?"""
    e = expect(content, lop, ext)
    if e[0] == 'any':
        return True
    if e[0] == 'exc':
        return False
    if e[0] == 'listing':
        got = {}
        keys, shapes, types = val
        if not len(keys) == len(shapes) == len(types):
            return False
        for k, s, d in zip(keys, shapes, types):
            if s is not None:
                k = k.strip('/')
                if k in got and got[k] != (s, d):
                    return False
                got[k] = (s, d)
        if partly:
            return all(e[1].get(k) == v for k, v in got.items())
        return got == e[1]
    if content['t'] == 'json' or content['t'] == 'txt':
        return same(tuple(val) if isinstance(val, (list, tuple)) else val,
                    e[1], e[2])
    return same(val, e[1], e[2])


def must_raise(content, lop, ext):
    """The load has, or is free, to raise."""
    return expect(content, lop, ext)[0] in ('exc', 'any')


class Entry:
    """What the model knows about one path."""

    def __init__(self, vals, err=False, how='ack', faulted=False, ovw=True):
        self.vals, self.err, self.how = vals, err, how
        self.faulted, self.ovw = faulted, ovw


def target_names(op):
    """Relative paths the save may use as its target (without numbering)."""
    p = os.path.normpath(op['path'])
    t = op['t']
    base, ext = os.path.splitext(p)
    names = {p}
    if t in DEFEXT:
        names.add(base + DEFEXT[t])
        names.add(p + DEFEXT[t])
    return names


def is_target(rel, op):
    for n in target_names(op):
        if rel == n:
            return True
        if not op['ovw']:
            b, e = os.path.splitext(n)
            if rel.startswith(b + '_') and rel.endswith(e) and \
                    re.fullmatch(r'_\d{4,}', rel[len(b):len(rel) - len(e)]
                                 if e else rel[len(b):]):
                return True
    return False


def expected_path(op):
    """The path an overwriting save must return, or None if not settled."""
    p = os.path.normpath(op['path'])
    base, ext = os.path.splitext(p)
    t = op['t']
    if t == 'img':
        return p
    ok = {'hdf': HDF_EXT, 'stream': HDF_EXT, 'txt': {'.txt', '.dat'},
          'json': {'.json'}, 'pkl': {'.pkl'}}
    if t == 'plot':
        return p if ext else None
    if ext.lower() in ok[t]:
        return p
    if not ext:
        return p + DEFEXT[t]
    return None


class Model:
    def __init__(self, plan, root, res):
        self.root, self.res = root, res
        self.files = {}
        self.viol = []
        self.snap = snapshot(root)
        self.held = {}
        self.any_fault = False
        self.h5_base = 0
        self.plan = plan

    def flag(self, props, kind, msg):
        for p in ([props] if isinstance(props, str) else props):
            self.viol.append((p, kind, msg))

    # ------------------------------------------------------------ structure
    def diff(self, new):
        old = self.snap
        ch = {p for p in set(old) | set(new) if old.get(p) != new.get(p)}
        return ch

    def label(self, i, op):
        f = ' faults=%s' % ([(simfs.KIND[k], a, simfs.CLS[c] if c else n)
                             for n, k, a, c in op['faults']],) \
            if op.get('faults') else ''
        return 'op %d %s %s %s%s%s' % (
            i, op['op'], op.get('fn') or op.get('t', ''), op.get('path', ''),
            '' if op.get('ovw', True) else ' overwrite=False', f)

    def check_fds(self, i, op, rec):
        want = sorted(set(self.held.values()))
        got = sorted(set(rec['fds']))
        if got != want:
            self.flag('C07', 'file-left-open',
                      '%s: %s, open files afterwards: %s, expected %s%s'
                      % (self.label(i, op), rec['out'], got, want,
                         ' (exception: %s)' % (rec['val'][2],)
                         if rec['out'] == 'exc' else ''))
        elif not want and rec['h5'] > self.h5_base and not (
                rec['fired'] and (op.get('t') == 'stream' or op.get('keep'))):
            # (closing a stream is the caller's own h5py call; after a close
            # that the disk failed, HDF5 frees its identifiers only when the
            # objects die, though the file itself is closed)
            self.flag('C07', 'handle-left-open', '%s: %s, %d HDF handles are '
                      'open afterwards' % (self.label(i, op), rec['out'],
                                           rec['h5']))

    def must_save(self, op):
        """Is this a save that has to succeed on a healthy disk?"""
        if op['val']['k'] == 'bad' or op.get('refused'):
            return False
        p = os.path.normpath(op['path'])
        ext = os.path.splitext(p)[1].lower()
        if op['t'] == 'img' and ext not in values.IMG_EXT:
            return False
        if op['t'] == 'plot' and ext not in ('', '.png', '.jpg', '.pdf'):
            return False
        d = os.path.dirname(p)
        while d:
            if self.snap.get(d, ('d',))[0] != 'd':
                return False
            d = os.path.dirname(d)
        names = target_names(op)
        if any(self.snap.get(n, ('f',))[0] != 'f' for n in names) and \
                op['ovw']:
            return False
        return not any(n in self.held.values() for n in names)

    # ----------------------------------------------------------------- saves
    def after_save(self, i, op, rec, new):
        """rec is None when the process died during the save."""
        old = self.snap
        ch = self.diff(new)
        out = rec['out'] if rec else 'crash'
        fired = bool(rec and rec['fired']) or out == 'crash'
        lab = self.label(i, op)
        cont = content_of(op) if op['val']['k'] != 'bad' else None
        rel = None
        if out == 'ok':
            rel = os.path.relpath(rec['val'], self.root)
            if os.path.isabs(rec['val']) is False:
                rel = os.path.normpath(rec['val'])
            if rel.startswith('..'):
                self.flag(['C06', 'C02'], 'outside',
                          '%s wrote outside its folder: %s' % (lab, rec['val']))
                return
        # C01: files that were there
        if not op['ovw']:
            for p in sorted(ch):
                if p in old and old[p][0] != 'd':
                    self.flag('C01', 'clobbered', '%s (%s) changed the '
                              'existing file %s: %s -> %s'
                              % (lab, out, p, old[p], new.get(p)))
            if out == 'ok' and rel in old:
                self.flag('C01', 'existing-path', '%s returned %s, which '
                          'existed before' % (lab, rel))
        # C06: anything but the target
        unlink_failed = bool(rec) and any(
            e[0] == simfs.C['UNLINK'] and e[1] < 0 for e in rec['ev'])
        # ... or whether it is there can't be found out after a first error
        if rec:
            first = False
            for e in rec['ev']:
                if e[0] == simfs.C['STAT']:
                    unlink_failed |= first and bool(e[2])
                first |= bool(e[2]) or e[1] < 0 and e[0] != simfs.C['STAT']
        stickies = bool(op.get('faults'))
        for p in sorted(ch):
            isdir = (new.get(p) or old.get(p))[0] == 'd'
            if out == 'ok':
                tgt = p == rel
                anc = isdir and p in new and p not in old and \
                    (rel + '/').startswith(p + '/')
            else:
                tgt = is_target(p, op)
                anc = isdir and p in new and p not in old and any(
                    (n + '/').startswith(p + '/') and n != p
                    for n in target_names(op))
            if tgt and not isdir or anc:
                continue
            if p in old:
                self.flag('C06', 'touched', '%s (%s) changed %s: %s -> %s'
                          % (lab, out, p, old[p], new.get(p)))
            elif out == 'crash' and not isdir:
                continue                      # leftovers of a dead process
            elif not isdir and unlink_failed and stickies and out == 'exc':
                self.res.probe('temporary left because unlink failed')
            else:
                self.flag('C06', 'stray', '%s (%s) left %s %s behind'
                          % (lab, out, 'folder' if isdir else 'file', p))
        # model
        if out == 'ok':
            if cont is None:
                self.files.pop(rel, None)
                return
            if rel not in new or new[rel][0] == 'd':
                self.flag(['C03' if fired else 'C02']
                          + ([] if op['ovw'] else ['C01']), 'no-file',
                          '%s returned %s but there is no such file'
                          % (lab, rel))
                return
            if op['ovw']:
                want = expected_path(op)
                if want is not None and rel != want:
                    self.flag('C02', 'other-path', '%s stored its data in %s'
                              % (lab, rel))
            elif rel in self.files and rel not in ch:
                pass
            self.files[rel] = Entry([cont], False, 'ack', fired, op['ovw'])
            if 'vfy' in rec:
                lop = default_load(op, rel)
                self.judge_load(i, lop, rec['vfy'][0], rec['vfy'][1], False,
                                'read back after ' + lab)
            return
        if out == 'exc' and not fired and self.must_save(op):
            self.flag(['C03' if self.any_fault else 'C02'], 'save-failed',
                      '%s raised %s: %s on a healthy disk'
                      % (lab, rec['val'][0], rec['val'][2]))
        atomic = op['t'] in ATOMIC
        for p in [q for q in set(new) | set(old) if is_target(q, op)]:
            was, now = old.get(p), new.get(p)
            if (was and was[0] == 'd') or (now and now[0] == 'd'):
                continue
            e = self.files.get(p)
            if now is None:
                if was is not None and e is not None:
                    if atomic and not e.err and op['ovw']:
                        self.flag('C04', 'lost', '%s (%s): the previous file '
                                  '%s is gone' % (lab, out, p))
                    self.files.pop(p, None)
                elif was is not None and atomic and was[0] == 'f':
                    self.flag('C04', 'lost', '%s (%s): the previous file '
                              '%s is gone' % (lab, out, p))
                continue
            if was == now:
                continue
            vals = list(e.vals) if e else []
            if op['t'] == 'stream':
                # a stream that was opened holds what was written so far
                self.files[p] = Entry([{'t': 'any'}], True, 'fail', fired)
                continue
            if cont is not None:
                vals.append(cont)
            err = (not atomic) or e is None or e.err
            if was is not None and was[0] == 'f' and e is None:
                # a foreign file: it must be intact or hold the new content
                err = not atomic
            self.files[p] = Entry(vals, err, 'fail', fired, op['ovw'])

    # ----------------------------------------------------------------- loads
    def judge_load(self, i, lop, out, val, fired, lab, final=False):
        rel = os.path.normpath(lop['path'])
        ext = os.path.splitext(rel)[1].lower()
        e = self.files.get(rel)
        kind_of = self.snap.get(rel)
        if e is None:
            if kind_of is None and out == 'ok':
                self.flag('C02', 'ghost', '%s returned data although the file '
                          'does not exist' % lab)
            return
        if any(v['t'] == 'any' for v in e.vals):
            return
        if fired or e.how == 'cut':
            props = ['C05']
        elif e.how == 'fail':
            props = ['C04']
        elif e.faulted:
            props = ['C03']
        else:
            props = ['C02']
        if not e.ovw and e.how == 'ack':
            props = props + ['C01']
        if out == 'ok':
            hit = [v for v in e.vals if judge(v, lop, ext, val)]
            if not hit and e.how != 'ack' and e.err and \
                    lop.get('fn') in ('info', 'find'):
                # the incomplete file of a failed save may list fewer sets
                hit = [v for v in e.vals
                       if judge(v, lop, ext, val, partly=True)]
            if hit:
                if len(e.vals) > 1:
                    # equal results may come from different contents: narrow
                    e.vals = hit
                self.res.probe('loads matched')
                return
            if all(must_raise(v, lop, ext) for v in e.vals):
                msg = '%s returned %s although the selection holds no data' \
                    % (lab, brief(val))
            else:
                x = expect(e.vals[-1], lop, ext)
                msg = '%s returned %s, stored: %s (last save: %s%s)' % (
                    lab, brief(val), brief(x[1]), e.how,
                    ' under faults' if e.faulted else '')
            self.flag(props, 'wrong-data', msg)
            return
        if fired or e.err:
            return
        free = [v for v in e.vals if must_raise(v, lop, ext)]
        if free:
            e.vals = free                 # what the file can still hold
            return
        self.flag(props, 'not-loadable', '%s raised %s: %s (last save: %s%s)'
                  % (lab, val[0], val[2], e.how,
                     ' under faults' if e.faulted else ''))

    def after(self, i, op, rec, new):
        k = op['op']
        if k == 'save':
            self.after_save(i, op, rec, new)
        elif k in ('load', 'hold', 'drop', 'glob'):
            ch = self.diff(new)
            if ch:
                self.flag('C06', 'load-writes', '%s (%s) changed %s'
                          % (self.label(i, op), rec['out'] if rec else 'crash',
                             sorted(ch)[:5]))
            if rec and k == 'load':
                self.judge_load(i, op, rec['out'], rec['val'],
                                bool(rec['fired']), self.label(i, op))
            if rec and k == 'hold':
                if rec['out'] == 'ok':
                    rel = os.path.normpath(op['path'])
                    self.held[op['slot']] = rel
            if rec and k == 'drop':
                self.held.pop(op['slot'], None)
            if rec and k == 'glob':
                self.judge_glob(i, op, rec)
        elif k == 'rm':
            self.files.pop(os.path.normpath(op['path']), None)
        elif k == 'cut':
            e = self.files.get(os.path.normpath(op['path']))
            if e is not None:
                e.err, e.how = True, 'cut'
        elif k == 'link':
            e = self.files.get(os.path.normpath(op['path']))
            if e is not None:
                e.vals = [dict(v, broken=True) for v in e.vals]
        if rec:
            if k in ('save', 'load', 'hold', 'drop', 'glob'):
                self.check_fds(i, op, rec)
                if not self.held:
                    self.h5_base = rec['h5']
            self.any_fault |= bool(rec['fired'])
        self.snap = new

    def judge_glob(self, i, op, rec):
        d, pat = os.path.split(op['path'])
        names = [p for p in self.snap if os.path.dirname(p) == d
                 and fnmatch.fnmatchcase(os.path.basename(p), pat)]
        base = {'rel': '', 'dot': ''}.get(op.get('spell', 'abs'),
                                          self.root + '/')
        want = sorted(base + p for p in names)
        if rec['out'] == 'ok':
            got = rec['val']
            if list(got) != want:
                self.flag(['C02', 'C13'], 'search', '%s returned %s, the '
                          'folder holds %s' % (self.label(i, op), got, want))
        elif want and not rec['fired']:
            self.flag('C02', 'search', '%s raised %s; the folder holds %s'
                      % (self.label(i, op), rec['val'][:3:2], want))


# ---------------------------------------------------------------- running it
def prepare(plan, root):
    os.makedirs(root)
    for f in plan.get('pre', []):
        p = os.path.join(root, f['path'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.lexists(p):
            continue
        if f['what'] == 'dir':
            os.makedirs(p, exist_ok=True)
        elif f['what'] == 'link':
            os.symlink(f['to'], p)
        elif f['what'] == 'hard':
            to = os.path.join(root, f['to'])
            if os.path.isfile(to) and not os.path.islink(to):
                os.link(to, p)
        else:
            n = f.get('n', 0)
            with open(p, 'wb') as h:
                h.write(bytes((7 * j + n) % 251 for j in range(n)))


def run_plan(plan, res, dirorder=None):
    """Run all lives of a plan; returns (Model, records)."""
    with core.Box() as box:
        root = os.path.join(box, 'w')
        prepare(plan, root)
        model = Model(plan, root, res)
        start, recs_all = 0, []
        ops = plan['ops']
        lives = 0
        while start < len(ops) and lives <= len(ops) + 1:
            lives += 1
            model.held, model.h5_base = {}, 0
            lf = core.Life(life, plan, start, root)
            recs = lf.records(60)
            begun, ended = None, False
            for r in recs:
                if r['out'] == 'begin':
                    begun = r['i']
                    continue
                if r['out'] == 'end':
                    ended = True
                    continue
                if r['out'] == 'restart':
                    start = r['i'] + 1
                    res.log.append(('restart', r['i']))
                    res.probe('restarts')
                    continue
                begun = None
                op = ops[r['i']]
                start = r['i'] + 1
                note(res, op, r)
                recs_all.append(r)
                model.after(r['i'], op, r, r['snap'])
            if begun is not None:
                op = ops[begun]
                start = begun + 1
                if lf.rc == simfs.CRASH_RC:
                    res.fault('crash')
                    for f in op.get('faults', ()):
                        if f[1] in (simfs.CRASH_BEFORE, simfs.CRASH_AFTER,
                                    simfs.CRASH_TORN):
                            res.fault(simfs.KIND[f[1]])
                    res.nontrivial = True
                elif lf.rc is None or lf.rc == simfs.STUCK_RC:
                    model.flag(['C03', 'C05', 'C01', 'C18'], 'stuck',
                               '%s does not come to an end'
                               % model.label(begun, op))
                    break
                else:
                    res.probe('process died rc=%s' % lf.rc)
                    if lf.rc is not None and lf.rc < 0:
                        res.fault('killed by signal %d' % -lf.rc)
                res.log.append(('crash', begun, lf.rc))
                model.after(begun, op, None, snapshot(root))
            elif not ended and lf.rc != 0:
                raise core.HarnessError('life ended with %s' % lf.rc)
            if ended:
                break
        final_loads(plan, model, root, res)
        res.steps = len(res.log)
        res.sig = core.digest(*res.log)
        return model, recs_all


def note(res, op, r):
    for k, v in r['fired'].items():
        res.fault(k, v)
    if r['fired']:
        res.nontrivial = True
    res.log.append((r['i'], op['op'], op.get('t'), r['out'],
                    r['val'][0] if r['out'] == 'exc' else '',
                    tuple(r['ev']), tuple(sorted(r['fired'].items()))))
    res.probe('%s %s' % (op['op'], r['out']))
    res.probe('file-system events', len(r['ev']))


def final_loads(plan, model, root, res):
    """Every file the model knows is loaded once more by a new process."""
    todo = []
    for rel, e in sorted(model.files.items()):
        if not e.vals or model.snap.get(rel, ('',))[0] != 'f':
            continue
        c = e.vals[-1]
        if c['t'] == 'any':
            continue
        lop = {'op': 'load', 't': c['t'], 'path': rel}
        if c['t'] == 'hdf':
            lop['key'] = c['main']
            a = c['sets'][c['main']]
            if len(a['spec']['shape']) not in (2, 3):
                lop['fn'] = 'obj'
        todo.append(lop)
        if c['t'] == 'hdf':
            for k in c['sets']:
                if k != c['main']:
                    todo.append({'op': 'load', 't': 'hdf', 'path': rel,
                                 'key': k, 'fn': 'obj'})
    if not todo:
        return

    def body(send):
        os.chdir(root)
        for lop in todo:
            try:
                send(('ok', do_load(lop, root)))
            except BaseException as e:
                send(('exc', exc_info(e)))
    lf = core.Life(body)
    recs = lf.records(60)
    if len(recs) != len(todo):
        model.flag(['C04', 'C03'], 'stuck', 'a load after the run does not '
                   'come to an end: %s' % (todo[len(recs)],))
        return
    for lop, (out, val) in zip(todo, recs):
        model.judge_load(-1, lop, out, val, False,
                         'load of %s by a new process' % lop['path'],
                         final=True)
    s = snapshot(root)
    if s != model.snap:
        model.flag('C06', 'load-writes', 'loads changed the folder')


# ------------------------------------------------------- fault placement
E = errno
ERRS = {
    'OPEN_W': [E.EIO, E.ENOSPC, E.EACCES, E.EMFILE, E.EROFS, E.EDQUOT],
    'WRITE': [E.EIO, E.ENOSPC, E.ENOSPC, E.EDQUOT],
    'CLOSE': [E.EIO, E.EDQUOT, E.ENOSPC],
    'TRUNC': [E.EIO, E.ENOSPC], 'RENAME': [E.EIO, E.EACCES, E.ENOSPC],
    'UNLINK': [E.EACCES, E.EIO], 'MKDIR': [E.EACCES, E.ENOSPC],
    'STAT': [E.EIO, E.EACCES], 'LOCK': [E.EAGAIN, E.ENOLCK],
    'OPEN_R': [E.EIO, E.EACCES, E.EMFILE], 'READ': [E.EIO, E.EIO],
    'LINK': [E.EIO], 'SYNC': [E.EIO], 'OPENDIR': [E.EIO, E.EACCES],
}
WEIGHT = {'WRITE': 6, 'CLOSE': 3, 'RENAME': 4, 'OPEN_W': 3, 'TRUNC': 4,
          'READ': 6, 'OPEN_R': 2, 'MKDIR': 2, 'STAT': 0.4, 'LOCK': 1,
          'UNLINK': 3, 'LINK': 3, 'SYNC': 3, 'OPENDIR': 2}


def events_of(plan, only=None):
    """Rehearsal without faults (but those of op `only`): the events of each
    op (by index)."""
    clean = dict(plan, ops=[o if i == only else dict(o, faults=[], quota=None)
                            for i, o in enumerate(plan['ops'])])
    out = {}
    with core.Box() as box:
        root = os.path.join(box, 'w')
        prepare(clean, root)
        start = 0
        for _ in range(len(clean['ops']) + 1):
            lf = core.Life(life, clean, start, root)
            recs = lf.records(60)
            last = start - 1
            for r in recs:
                if 'ev' in r:
                    out[r['i']] = r['ev']
                if r['out'] in ('restart', 'begin') or 'ev' in r:
                    last = max(last, r['i'])
            start = last + 1
            if start >= len(clean['ops']):
                break
    return out


def pick_fault(rng, ev, crash=0.0, classes=None, avoid=()):
    """One fault [idx, kind, arg, cls] placed on one of the events."""
    pos = [(i, simfs.CLS[e[0]], e[3]) for i, e in enumerate(ev)
           if simfs.CLS[e[0]] in WEIGHT and simfs.CLS[e[0]] not in avoid
           and (classes is None or simfs.CLS[e[0]] in classes)]
    if not pos:
        return None
    i, c, size = rng.choices(pos, [WEIGHT[p[1]] for p in pos])[0]
    if rng.random() < crash:
        ks = [simfs.CRASH_BEFORE, simfs.CRASH_AFTER]
        if c == 'WRITE' and size > 0:
            ks += [simfs.CRASH_TORN] * 3
        k = rng.choice(ks)
        arg = rng.randrange(0, size) if k == simfs.CRASH_TORN else 0
        return [i, k, arg, 0]
    r = rng.random()
    if c in ('WRITE', 'READ') and size > 1 and r < 0.45:
        return [i, simfs.SHORT, rng.choice([1, size - 1,
                                            rng.randrange(1, size)]), 0]
    if c in ('WRITE', 'READ', 'OPEN_W', 'OPEN_R') and r < 0.55:
        return [i, simfs.EINTR, 0, 0]
    e = rng.choice(ERRS[c])
    if r > 0.85:
        return [i, simfs.STICKY, e, 0]
    return [i, simfs.ERR, e, 0]
