"""Values used by the file workloads, and what each format must give back."""
import io
import numpy as np


def mk(spec):
    """Array or object described by a JSON-able spec."""
    k = spec['k']
    r = np.random.default_rng(spec['seed'])
    if k == 'arr':
        shape, dt = tuple(spec['shape']), np.dtype(spec['dtype'])
        m = spec.get('mode', 'rand')
        if m == 'const':
            a = np.full(shape, int(r.integers(1, 200)))
        elif dt.kind == 'f':
            a = (r.random(shape) - spec.get('shift', 0.3)) * spec.get('amp', 3.0)
        else:
            hi = min(np.iinfo(dt).max, spec.get('amp', 60000))
            lo = 0 if dt.kind == 'u' else max(np.iinfo(dt).min, -hi)
            a = r.integers(lo, hi + 1, shape)
        a = np.asarray(a).astype(dt)
        lay = spec.get('layout')
        if lay == 'F':
            a = np.asfortranarray(a)
        elif lay == 'strided' and a.ndim:
            b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dt)
            b[::2] = a
            a = b[::2]
        return a
    if k == 'coef':
        n = spec['n']
        xs = [float(v) for v in (r.random(2) * 2000 - 200)]
        fs = [float(v) * 10.0 ** (-3 * i) for i, v in
              enumerate(r.normal(size=n))]
        if spec.get('exact'):
            fs = [float(round(f, 3)) for f in fs]
        if spec.get('ints'):
            xs = [int(x) for x in xs]
            fs = [int(r.integers(-5, 50)) for _ in fs]
        c = spec.get('cont', 'list')
        if c == 'tuple':
            fs = tuple(fs)
        elif c == 'nd':
            fs = np.asarray(fs, dtype=np.float64)
        elif c == 'np64':
            fs = [np.float64(f) for f in fs]
            xs = [np.float64(x) for x in xs]
        return xs[0], xs[1], fs
    if k == 'list':
        out = []
        # lists of one structure seed have the same structure and file size
        t = np.random.default_rng(spec.get('like', spec['seed']))
        for j in range(spec['n']):
            q = int(t.integers(0, 7))
            if q == 0:
                out.append(float(r.normal()))
            elif q == 1:
                out.append([int(v) for v in r.integers(0, 9, 3)])
            elif q == 2:
                out.append('s%03d' % r.integers(0, 1000))
            elif q == 3:
                out.append(r.random((2, 3)))
            elif q == 4:
                out.append((1, None, True))
            elif q == 5:
                out.append({'a': int(r.integers(0, 9)), 'b': [1.5]})
            else:
                out.append(int(r.integers(-10 ** 9, 10 ** 9)))
        if spec.get('big'):
            out.append(r.random(spec['big']))
        return out
    if k == 'pts':
        return r.random((spec['n'], 2)) * spec.get('amp', 40)
    if k == 'lines':
        return [r.random((int(r.integers(2, 6)), 2)) * spec.get('amp', 40)
                for _ in range(spec['n'])]
    if k == 'bad':
        w = spec['what']
        if w == 'object':
            return object()
        if w == 'lambda':
            return [lambda: 0, 1]
        if w == 'objarr':
            return np.array([object(), {}], dtype=object)
        if w == 'set':
            return [1.0, {2.0}]
        if w == 'complex':
            return (r.random((6, 7)) + 1j).astype(np.complex128)
        if w == 'int64':
            return r.integers(0, 9, (6, 7)).astype(np.int64)
        if w == '1d':
            return 'no array'
        if w == 'raises':
            return Raiser()
    raise ValueError(k)


class Raiser:
    def __getattr__(self, n):
        raise RuntimeError('no such attribute')

    def __iter__(self):
        yield 1.0
        raise RuntimeError('stops in the middle')

    def __reduce_ex__(self, p):
        raise RuntimeError('not picklable')


# ------------------------------------------------------------------ images
IMG_EXT = ('.tif', '.tiff', '.png', '.jpg', '.bmp')


def image_raw(spec, ext):
    """(array as loaded without averaging, tolerance) for save_image."""
    m = mk(spec)
    if ext in ('.tif', '.tiff'):
        if m.ndim > 2:
            m = m.astype(np.float64).mean(axis=int(np.argmin(m.shape)))
            return m.astype(np.float32), 1e-5
        return m.astype(np.float32), 0.0
    tol = 0.0
    if m.dtype != np.uint8:
        lo, hi = float(m.min()), float(m.max())
        if hi != lo:
            m = (255.0 * (m.astype(np.float64) - lo) / (hi - lo))
            m = np.floor(m).astype(np.uint8)
            tol = 1.0
        else:
            m = m.astype(np.uint8)
    if ext in ('.jpg', '.jpeg'):
        from PIL import Image
        b = io.BytesIO()
        Image.fromarray(m).save(b, format='JPEG')
        m = np.array(Image.open(b))
        # lossy: one level of difference before the encoding (a rescaled
        # image is rounded) can come out as many levels after it
        tol = 30.0 if tol else 1.0
    return m.astype(np.float32), tol


def image_loaded(spec, ext, average):
    a, tol = image_raw(spec, ext)
    if a.ndim > 2 and average:
        a = a.mean(axis=int(np.argmin(a.shape)))
        tol = max(tol, 1e-3)
    return a, tol


# -------------------------------------------------------------------- HDF
def hdf_select(a, index, axis):
    """What a load of dataset `a` with this selection must give; raises
    LookupError if the selection has no data."""
    if a.ndim < 2 or a.ndim > 3:
        raise LookupError('rank')
    if a.ndim == 2:
        return a
    axis = int(np.clip(axis, 0, 2))
    if index is None:
        return a.astype(np.float32)
    n = a.shape[axis]
    if isinstance(index, int):
        if not -n <= index < n:
            raise LookupError('index')
        return np.take(a, index, axis=axis).astype(np.float32)
    index = list(index)
    if len(index) == 3:
        sel = list(range(*index))
    elif len(index) == 2:
        sel = list(range(index[0], index[1]))
    else:
        sel = index
    if not sel or max(sel) >= n or min(sel) < -n or \
            (min(sel) < 0 <= max(sel)):
        raise LookupError('empty or out of range')
    out = np.take(a, sel, axis=axis).astype(np.float32)
    if out.shape[axis] == 1:
        out = np.take(out, 0, axis=axis)
    return out


# -------------------------------------------------------------- comparison
def same(a, b, tol=0.0):
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or a.shape != b.shape:
            return False
        if tol == 0.0:
            return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
        return bool(np.all(np.abs(a.astype(np.float64) - b) <= tol))
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
            same(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k], tol) for k in b)
    if isinstance(a, (np.ndarray,)):
        return False
    return a == b


def brief(v):
    if isinstance(v, np.ndarray):
        if v.size <= 12:
            return '%s%s%s' % (v.dtype, v.shape, v.tolist())
        return '%s%s[%s ...]' % (v.dtype, v.shape,
                                 ', '.join('%.5g' % x for x in v.ravel()[:6]))
    return repr(v)[:300]
