"""Every public processing function with seeded small arguments.

A call is described by a JSON-able spec
    {'f': name, 'd': data seed, 'o': option seed, 's': size seed, 'tw': [...]}
Equal 's' gives equal shapes, equal 'd' equal values, equal 'o' equal options;
'tw' is a list of [parameter, kind, seed] small changes.  build(spec) makes
fresh argument objects.
"""
import copy
import random

import numpy as np


# ------------------------------------------------------------------- data
def _grid(r, s, tilt=True, distort=True, rows=None, cols=None):
    """Distorted grid: array (rows, cols, 2) of (y, x), and its parameters."""
    big = getattr(s, 'big', 0)
    if big:
        rows, cols = rows or s.choice([15, 18]), cols or s.choice([17, 20])
    rows = rows or s.choice([5, 6, 7])
    cols = cols or s.choice([5, 6, 8])
    pitch = s.choice([12.0, 14.0]) if not big else s.choice([26.0, 29.0])
    h, w = int((rows + 1) * pitch), int((cols + 1) * pitch)
    y, x = np.mgrid[1:rows + 1, 1:cols + 1] * pitch
    y = y + r.uniform(-1, 1)
    x = x + r.uniform(-1, 1)
    xc, yc = w / 2 + r.uniform(-4, 4), h / 2 + r.uniform(-4, 4)
    if tilt:
        a = r.uniform(-0.03, 0.03)
        dy, dx = y - yc, x - xc
        y, x = yc + dy * np.cos(a) - dx * np.sin(a), \
            xc + dy * np.sin(a) + dx * np.cos(a)
    if distort:
        dy, dx = y - yc, x - xc
        rr = dx * dx + dy * dy
        k = r.uniform(-1.5e-5, 1.5e-5) + r.choice([-6e-6, 6e-6])
        f = 1.0 + (0.03 if big else 1.0) * k * rr
        y, x = yc + dy * f, xc + dx * f
    if tilt and s.random() < 0.25:           # seen at an angle
        p, q = r.uniform(-3e-4, 3e-4, 2)
        f = 1.0 + p * (x - xc) + q * (y - yc)
        y, x = yc + (y - yc) / f, xc + (x - xc) / f
    y = y + r.normal(0, 0.02, y.shape)
    x = x + r.normal(0, 0.02, x.shape)
    return np.stack((y, x), -1), xc, yc, pitch, h, w


def lines(r, s, **k):
    g, xc, yc, pitch, h, w = _grid(r, s, **k)
    hor = [np.ascontiguousarray(g[i]) for i in range(g.shape[0])]
    ver = [np.ascontiguousarray(g[:, j]) for j in range(g.shape[1])]
    if s.random() < 0.3 and len(hor) > 4 and len(ver) > 4:
        # some points were not found
        for ls in (hor, ver):
            i = int(r.integers(len(ls)))
            ls[i] = np.delete(ls[i], int(r.integers(len(ls[i]))), 0)
    q = s.random()
    if q < 0.22:
        hor = [h_.tolist() for h_ in hor]
        ver = [v.tolist() for v in ver]
    elif q < 0.3 and len({len(x) for x in hor}
                         | {len(x) for x in ver}) < 3 and \
            len({len(x) for x in hor}) == len({len(x) for x in ver}) == 1:
        hor, ver = np.asarray(hor), np.asarray(ver)
    elif q < 0.38:
        hor = [h_.astype(np.float32) for h_ in hor]
        ver = [v.astype(np.float32) for v in ver]
    return hor, ver, xc, yc, pitch, h, w


def dots(r, s, binary=False, gray=True):
    g, xc, yc, pitch, h, w = _grid(r, s, distort=False)
    yy, xx = np.mgrid[0:h, 0:w]
    m = np.zeros((h, w))
    rad = 2.6 + r.uniform(0, 0.3)
    for (y, x) in g.reshape(-1, 2):
        m = np.maximum(m, (yy - y) ** 2 + (xx - x) ** 2 <= rad * rad)
    if binary:
        return m.astype(s.choice([np.int16, np.float32, np.uint8])), pitch, g
    bck = 1.0 + 0.2 * np.sin(xx / w * 2 + r.uniform(0, 3))
    m = (1.0 - 0.7 * m) * bck + 0.02 * r.random((h, w))
    return layout(s, m), pitch, g


def layout(s, m, kinds=('f4', 'f8', 'f4', 'u1', 'u2')):
    k = s.choice(kinds)
    if s.random() < 0.04:
        k = s.choice(['>f4', '>f8', 'i4', 'i2'])
    if k[0] == 'i':
        m = m / max(m.max(), 1e-9) * 3000
    if k == 'u1':
        m = np.clip(m / max(m.max(), 1e-9) * 250, 0, 255)
    elif k == 'u2':
        m = np.clip(m / max(m.max(), 1e-9) * 40000, 0, 65535)
    m = np.ascontiguousarray(m.astype(k))
    q = s.random()
    if q < 0.15:
        m = np.asfortranarray(m)
    elif q < 0.3:
        b = np.zeros((m.shape[0], m.shape[1] * 2) + m.shape[2:], m.dtype)
        b[:, ::2] = m
        m = b[:, ::2]
    return m


def image(r, s, color=False):
    h, w = s.choice([(24, 31), (30, 30), (41, 28)])
    if getattr(s, 'big', 0):
        h, w = s.choice([(460, 511), (520, 520)])
    yy, xx = np.mgrid[0:h, 0:w]
    m = np.sin(yy / 5.0 + r.uniform(0, 6)) * np.cos(xx / 4.0) + 1.5
    m = m + 0.1 * r.random((h, w))
    if color:
        m = np.stack([m * (c + 1) / 3 for c in range(3)], -1)
    return layout(s, m), h, w


def linepat(r, s, small=True):
    n = s.choice([72, 84]) if not getattr(s, 'big', 0) else 480
    step = s.choice([12, 14])
    m = np.zeros((n, n + 6))
    o = int(r.integers(0, 3))
    for i in range(step // 2 + o, n - 3, step):
        m[i - 1:i + 2] = 1
    for j in range(step // 2 + o, n + 3, step):
        m[:, j - 1:j + 2] = 1
    from scipy import ndimage as ndi
    m = ndi.gaussian_filter(1.0 - 0.3 * m, 1)
    m = m + 0.01 * r.random(m.shape)
    return layout(s, m, ('f4', 'f8')), step


def chess(r, s):
    n, step = s.choice([64, 72]), 12
    if getattr(s, 'big', 0):
        n = 504
    yy, xx = np.mgrid[0:n, 0:n + 5]
    m = ((yy // step + xx // step) % 2).astype(float)
    m = m + 0.02 * r.random(m.shape)
    return layout(s, m, ('f4', 'f8')), step


def profile(r, s):
    n = s.choice([60, 80]) if not getattr(s, 'big', 0) else 900
    x = np.arange(n)
    p = 1.0 + 0.05 * r.random(n) + 0.002 * x
    c = r.uniform(6, 9)
    pk = []
    while c < n - 6:
        p = p - 0.6 * np.exp(-((x - c) / 2.0) ** 2)
        pk.append(int(round(c)))
        c += r.uniform(10, 13)
    return p.astype(s.choice([np.float32, np.float64])), pk


def fact(r, s, n=None):
    n = n or s.choice([2, 3, 4])
    f = [1.0 + r.uniform(-0.01, 0.01), r.uniform(-4e-4, 4e-4),
         r.uniform(-6e-6, 6e-6), r.uniform(-1e-8, 1e-8),
         r.uniform(-1e-10, 1e-10)][:n]
    if s.random() < .1:                  # no distortion
        f = [1.0] + [0.0] * s.choice([0, n - 1])
    c = s.choice(['list', 'list', 'tuple', 'nd'])
    return tuple(f) if c == 'tuple' else np.asarray(f) if c == 'nd' else f


def pers(r):
    return [1.0 + r.uniform(-.05, .05), r.uniform(-.02, .02), r.uniform(-1, 1),
            r.uniform(-.02, .02), 1.0 + r.uniform(-.05, .05), r.uniform(-1, 1),
            r.uniform(-2e-4, 2e-4), r.uniform(-2e-4, 2e-4)]


def pts(r, s):
    g, xc, yc, pitch, h, w = _grid(r, s)
    p = g.reshape(-1, 2).copy()
    return p, pitch, h, w


# --------------------------------------------------------------- functions
# name -> builder(r, s, o): r draws values, s shapes, o options
F = {}


def _reg(mod):
    def deco(fn):
        F[fn.__name__] = (mod, fn)
        return fn
    return deco


PREP, LIPA = 'discorpy.prep.preprocessing', 'discorpy.prep.linepattern'
PROC, POST = 'discorpy.proc.processing', 'discorpy.post.postprocessing'
UTIL = 'discorpy.util.utility'


def _opt(o, d, p=0.5):
    """Some of the optional parameters, with values chosen by o."""
    return {k: copy.deepcopy(o.choice(v)) for k, v in d.items()
            if o.random() < p}


@_reg(PREP)
def normalization(r, s, o):
    return dict(mat=dots(r, s)[0], size=o.choice([5, 7, 9]))


@_reg(PREP)
def normalization_fft(r, s, o):
    k = dict(mat=dots(r, s)[0])
    k.update(_opt(o, dict(sigma=[5, 10, 15], pad=[10, 20, 100],
                          mode=['reflect', 'edge', 'mean'])))
    return k


@_reg(PREP)
def binarization(r, s, o):
    k = dict(mat=dots(r, s)[0])
    k.update(_opt(o, dict(ratio=[0.3, 0.6, 1.0], denoise=[True, False])))
    if o.random() < 0.25:
        k['thres'] = float(np.median(k['mat'])) * 0.7
    return k


@_reg(PREP)
def check_num_dots(r, s, o):
    return dict(mat=dots(r, s, True)[0])


@_reg(PREP)
def calc_size_distance(r, s, o):
    return dict(mat=dots(r, s, True)[0], ratio=o.choice([0.8, 0.9, 1.0]))


@_reg(PREP)
def select_dots_based_size(r, s, o):
    return dict(mat=dots(r, s, True)[0], dot_size=o.choice([21.0, 24.0, 9.0]),
                **_opt(o, dict(ratio=[0.1, 0.2, 0.3])))


@_reg(PREP)
def select_dots_based_ratio(r, s, o):
    return dict(mat=dots(r, s, True)[0], **_opt(o, dict(ratio=[.05, .2, .3])))


@_reg(PREP)
def select_dots_based_distance(r, s, o):
    m, pitch, _ = dots(r, s, True)
    return dict(mat=m, dot_dist=o.choice([pitch, pitch * .9]),
                **_opt(o, dict(ratio=[.05, .2, .3])))


def _few(r, s, o):
    m = dots(r, s, True)[0]
    if o.random() < .1:                      # few dots, perhaps one
        a, b = m.shape[0] // 2, m.shape[1] // 2
        n = o.choice([7, 12])
        k = m[a - n:a + n, b - n:b + n].copy()
        m[...] = 0
        m[a - n:a + n, b - n:b + n] = k
    return m


@_reg(PREP)
def calc_hor_slope(r, s, o):
    return dict(mat=_few(r, s, o), ratio=o.choice([0.8, 1.0]))


@_reg(PREP)
def calc_ver_slope(r, s, o):
    return dict(mat=_few(r, s, o), ratio=o.choice([0.8, 1.0]))


def _group(r, s, o):
    if o.random() < 0.5:
        m, pitch, _ = dots(r, s, True)
    else:
        m, pitch, _, _ = pts(r, s)
        m = m if o.random() < 0.7 else m.tolist()
    return dict(mat=m, slope=float(r.uniform(-.02, .02)), dot_dist=pitch,
                **_opt(o, dict(ratio=[.3, .4], num_dot_miss=[3, 6],
                               accepted_ratio=[.4, .65])))


@_reg(PREP)
def group_dots_hor_lines(r, s, o):
    return _group(r, s, o)


@_reg(PREP)
def group_dots_ver_lines(r, s, o):
    return _group(r, s, o)


@_reg(PREP)
def remove_residual_dots_hor(r, s, o):
    hor = lines(r, s)[0]
    return dict(list_lines=[np.asarray(h) for h in hor],
                slope=float(r.uniform(-.02, .02)),
                residual=o.choice([0.02, 0.05, 2.5]))


@_reg(PREP)
def remove_residual_dots_ver(r, s, o):
    ver = lines(r, s)[1]
    return dict(list_lines=[np.asarray(h) for h in ver],
                slope=float(r.uniform(-.02, .02)),
                residual=o.choice([0.02, 0.05, 2.5]))


@_reg(PREP)
def calculate_threshold(r, s, o):
    return dict(mat=dots(r, s)[0], **_opt(o, dict(bgr=['bright', 'dark'],
                                                  snr=[1.0, 2.0, 3.0])))


def _pmask(o):
    return _opt(o, dict(hor_curviness=[0.0, .3, .6], ver_curviness=[0.1, .4],
                        rotate=[0.0, 5.0, -10.0]))


@_reg(PREP)
def make_parabola_mask(r, s, o):
    h, w = s.choice([(60, 70), (64, 64)])
    if getattr(s, 'big', 0):
        h, w = 470, 520
    return dict(height=h, width=w, hor_margin=o.choice([5, 9, (4, 8)]),
                ver_margin=o.choice([5, 11, (4, 8)]), **_pmask(o))


@_reg(PREP)
def remove_points_using_parabola_mask(r, s, o):
    p, pitch, h, w = pts(r, s)
    return dict(points=p if o.random() < .9 else p.tolist(),
                height=h, width=w, hor_margin=o.choice([5, 9]),
                ver_margin=o.choice([5, 11]), **_pmask(o))


@_reg(PREP)
def get_points_dot_pattern(r, s, o):
    if o.random() < 0.5:
        return dict(mat=dots(r, s)[0], **_opt(o, dict(ratio=[.6, 1.0])))
    return dict(mat=dots(r, s, True)[0], binarize=False)


@_reg(PREP)
def rotate_points(r, s, o):
    p = pts(r, s)[0]
    return dict(points=p if o.random() < .7 else p.tolist(),
                angle=float(r.uniform(-3, 3)),
                **_opt(o, dict(degree_unit=[True, False])))


@_reg(PREP)
def remove_subset_points(r, s, o):
    p = pts(r, s)[0]
    sel = p[r.permutation(len(p))[:6]]
    return dict(selected_points=sel, points=p)


def _poly(r, s, o):
    p, pitch, _, _ = pts(r, s)
    return dict(points=p, slope=float(r.uniform(-.02, .02)), line_dist=pitch,
                **_opt(o, dict(ratio=[.1, .2], num_dot_miss=[2, 3],
                               accepted_ratio=[.4, .65], order=[1, 2])))


@_reg(PREP)
def group_dots_hor_lines_based_polyfit(r, s, o):
    return _poly(r, s, o)


@_reg(PREP)
def group_dots_ver_lines_based_polyfit(r, s, o):
    return _poly(r, s, o)


@_reg(LIPA)
def locate_subpixel_point(r, s, o):
    n = s.choice([3, 5])
    x = np.arange(n) - n // 2 - r.uniform(-.4, .4)
    q = o.choice(['min', 'max'])
    p = x * x + r.normal(0, 1e-3, n)
    p = p if q == 'min' else -p
    return dict(list_point=p if s.random() < .7 else p.tolist(), option=q)


@_reg(LIPA)
def select_good_peaks(r, s, o):
    p, pk = profile(r, s)
    return dict(list_data=2 - p, peaks=pk if o.random() < .5
                else np.asarray(pk), **_opt(o, dict(
                    tol=[.1, .2, .4], radius=[5, 7], sigma=[0, 1],
                    use_offset=[True, False])))


@_reg(LIPA)
def sliding_window_slope(r, s, o):
    p = profile(r, s)[0]
    return dict(list_data=p, **_opt(o, dict(size=[3, 5, 7],
                                            norm=[True, False])))


def _ext(o):
    return _opt(o, dict(radius=[4, 5, 7], sensitive=[.02, .05, .1],
                        denoise=[True, False], norm=[True, False],
                        subpixel=[True, False]))


@_reg(LIPA)
def get_local_extrema_points(r, s, o):
    p = profile(r, s)[0]
    q = o.choice(['min', 'max'])
    k = dict(list_data=p if q == 'min' else 3 - p, option=q, **_ext(o))
    if o.random() < 0.4:
        k.update(select_peaks=True, tol=o.choice([.2, .5]))
    return k


def _slope(r, s, o):
    ch = o.random() < 0.25
    m, step = chess(r, s) if ch else linepat(r, s)
    k = dict(mat=m, ratio=o.choice([.6, .8]), search_range=o.choice([2., 3.]),
             **_ext(o))
    k['radius'] = o.choice([3, 4])
    if ch:
        k['chessboard'] = True
    if o.random() < 0.4:
        k.update(select_peaks=True, tol=.5)
    if o.random() < 0.3:
        k['bgr'] = o.choice(['bright', 'dark'])
    return k


@_reg(LIPA)
def calc_slope_distance_hor_lines(r, s, o):
    return _slope(r, s, o)


@_reg(LIPA)
def calc_slope_distance_ver_lines(r, s, o):
    return _slope(r, s, o)


@_reg(LIPA)
def get_tilted_profile(r, s, o):
    m, h, w = image(r, s)
    return dict(mat=m, index=int(r.integers(8, 14)),
                angle_deg=float(r.uniform(-5, 5)),
                direction=o.choice(['horizontal', 'vertical']))


@_reg(LIPA)
def convert_chessboard_to_linepattern(r, s, o):
    return dict(mat=chess(r, s)[0], **_opt(o, dict(
        smooth=[True, False], bgr=['bright', 'dark'], sigma=[2, 3])))


def _cross(r, s, o, which):
    ch = o.random() < 0.2
    m, step = chess(r, s) if ch else linepat(r, s)
    k = {'mat': m, 'slope_' + which: float(r.uniform(-.02, .02)),
         'dist_' + which: float(step), 'ratio': o.choice([.3, .5]),
         'radius': o.choice([4, 5])}
    k.update(_opt(o, dict(norm=[True, False], offset=[0, 3],
                          sensitive=[.05, .1], denoise=[True, False],
                          subpixel=[True, False], bgr=['bright', 'dark'])))
    if ch:
        k['chessboard'] = True
    if o.random() < 0.4:
        k.update(select_peaks=True, tol=.5)
    return k


@_reg(LIPA)
def get_cross_points_hor_lines(r, s, o):
    return _cross(r, s, o, 'ver')


@_reg(LIPA)
def get_cross_points_ver_lines(r, s, o):
    return _cross(r, s, o, 'hor')


@_reg(PROC)
def find_cod_coarse(r, s, o):
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver)


@_reg(PROC)
def find_cod_fine(r, s, o):
    hor, ver, xc, yc, pitch = lines(r, s, rows=5, cols=5)[:5]
    return dict(list_hor_lines=hor, list_ver_lines=ver, xcenter=xc, ycenter=yc,
                point_dist=o.choice([0.5, 1.0]))


def _coef(r, s, o):
    hor, ver, xc, yc = lines(r, s)[:4]
    return dict(list_hor_lines=hor, list_ver_lines=ver, xcenter=xc, ycenter=yc,
                num_fact=o.choice([2, 3, 4]),
                **_opt(o, dict(optimizing=[True, False], threshold=[.3, .5]),
                       .3))


@_reg(PROC)
def calc_coef_backward(r, s, o):
    return _coef(r, s, o)


@_reg(PROC)
def calc_coef_forward(r, s, o):
    return _coef(r, s, o)


@_reg(PROC)
def calc_coef_backward_from_forward(r, s, o):
    return _coef(r, s, o)


@_reg(PROC)
def transform_coef_backward_and_forward(r, s, o):
    k = dict(list_fact=fact(r, s), **_opt(o, dict(
        mapping=['backward', 'forward'])))
    if o.random() < 0.4:
        p = r.uniform(-40, 40, (s.choice([25, 30]), 2))
        k['ref_points'] = p if o.random() < .5 else p.tolist()
    return k


@_reg(PROC)
def find_cod_bailey(r, s, o):
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver,
                **_opt(o, dict(iteration=[0, 1, 2])))


@_reg(PROC)
def regenerate_grid_points_parabola(r, s, o):
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver,
                **_opt(o, dict(perspective=[True, False],
                               find_center=[True, False])))


@_reg(PROC)
def regenerate_grid_points_linear(r, s, o):
    if o.random() < 0.3:
        n = s.choice([4, 5])
        hc = np.stack((r.uniform(-.02, .02, n),
                       10 * np.arange(n) + r.random(n)), 1)
        vc = np.stack((r.uniform(-.02, .02, n),
                       10 * np.arange(n) + r.random(n)), 1)
        return dict(list_hor_lines=hc, list_ver_lines=vc, is_coef=True)
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver)


def _gen(r, s, o):
    hor, ver = lines(r, s, distort=False)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver, **_opt(o, dict(
        equal_dist=[True, False], scale=['mean', 'max', 'min', 'median',
                                         2.0],
        optimizing=[True, False])))


@_reg(PROC)
def generate_undistorted_perspective_lines(r, s, o):
    return _gen(r, s, o)


@_reg(PROC)
def generate_source_target_perspective_points(r, s, o):
    return _gen(r, s, o)


@_reg(PROC)
def generate_4_source_target_perspective_points(r, s, o):
    p = np.array([[5., 6.], [7., 60.], [50., 4.], [55., 58.]])
    p = p + r.uniform(-2, 2, p.shape)
    p = p[r.permutation(4)]
    io = o.choice(['yx', 'xy'])
    return dict(points=p if o.random() < .6 else p.tolist(), input_order=io,
                **_opt(o, dict(equal_dist=[True, False],
                               scale=['mean', 'max', 'min', 'median', 1.5])))


@_reg(PROC)
def calc_perspective_coefficients(r, s, o):
    n = s.choice([4, 6])
    a = np.array([[5., 6.], [7., 60.], [50., 4.], [55., 58.], [20., 31.],
                  [40., 22.]])[:n]
    b = a + r.uniform(-2, 2, a.shape)
    a = a + r.uniform(-2, 2, a.shape)
    return dict(source_points=a, target_points=b, **_opt(o, dict(
        mapping=['backward', 'forward'])))


@_reg(PROC)
def update_center(r, s, o):
    hor, _, xc, yc = lines(r, s)[:4]
    return dict(list_lines=hor, xcenter=xc, ycenter=yc)


@_reg(PROC)
def correct_perspective_effect(r, s, o):
    hor, ver, xc, yc = lines(r, s)[:4]
    return dict(list_hor_lines=hor, list_ver_lines=ver, xcenter=xc, ycenter=yc,
                **_opt(o, dict(method=['mean', 'median', 'min', 'max'],
                               scale=['mean', 'max', 'min', 'median', 1.5])))


@_reg(PROC)
def find_center_based_vanishing_points(r, s, o):
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver)


@_reg(PROC)
def find_center_based_vanishing_points_iteration(r, s, o):
    hor, ver = lines(r, s)[:2]
    return dict(list_hor_lines=hor, list_ver_lines=ver, **_opt(o, dict(
        iteration=[1, 2], method=['mean', 'median'])))


def _on_point(o, ls, xc, yc):
    """The centre, sometimes exactly at one of the points."""
    if o.random() < .15:
        p = ls[len(ls) // 2][1]
        return float(p[1]), float(p[0])
    return xc, yc


@_reg(POST)
def unwarp_line_forward(r, s, o):
    hor, _, xc, yc = lines(r, s)[:4]
    xc, yc = _on_point(o, hor, xc, yc)
    return dict(list_lines=hor, xcenter=xc, ycenter=yc, list_fact=fact(r, s))


@_reg(POST)
def unwarp_line_backward(r, s, o):
    hor, _, xc, yc = lines(r, s)[:4]
    xc, yc = _on_point(o, hor, xc, yc)
    return dict(list_lines=hor, xcenter=xc, ycenter=yc, list_fact=fact(r, s))


def _im(r, s, color=False):
    m, h, w = image(r, s, color)
    f = fact(r, s)
    if s.random() < .15 and not s.big:       # strong distortion
        f = [1.0, float(r.choice([-1, 1])) * 4e-3]
    c = s.choice([.5, .5, .5, .2, .8])
    return dict(mat=m, xcenter=w * c + r.uniform(-3, 3),
                ycenter=h * c + r.uniform(-3, 3), list_fact=f)


MODES = ['reflect', 'nearest', 'constant', 'mirror', 'wrap']


@_reg(POST)
def unwarp_image_backward(r, s, o):
    return dict(_im(r, s), **_opt(o, dict(order=[0, 1, 3], mode=MODES)))


@_reg(POST)
def unwarp_image_forward(r, s, o):
    return _im(r, s)


def _stack(r, s):
    d, h, w = s.choice([(2, 20, 23), (3, 18, 18)])
    if getattr(s, 'big', 0):
        d, h, w = 3, 300, 310
    yy, xx = np.mgrid[0:h, 0:w]
    m = np.sin(yy / 4.0 + r.uniform(0, 6)) * np.cos(xx / 3.0) + 1.5
    m = (m[None] + 0.2 * r.random((d, h, w))).astype(
        s.choice(['f4', 'f8', 'f4']))
    if s.random() < .2:
        m = (m * 40).astype(s.choice(['u1', 'u2', 'i4']))
    if s.random() < .15:
        m = np.asfortranarray(m)
    return dict(mat3D=m, xcenter=w / 2 + r.uniform(-3, 3),
                ycenter=h / 2 + r.uniform(-3, 3), list_fact=fact(r, s)), h


@_reg(POST)
def unwarp_slice_backward(r, s, o):
    k, h = _stack(r, s)
    return dict(k, index=o.randrange(h))


@_reg(POST)
def unwarp_chunk_slices_backward(r, s, o):
    k, h = _stack(r, s)
    a = o.randrange(h)
    b = o.choice([-1, o.randrange(a, h)])
    return dict(k, start_index=a, stop_index=b)


@_reg(POST)
def calc_residual_hor(r, s, o):
    hor, _, xc, yc = lines(r, s)[:4]
    return dict(list_ulines=hor, xcenter=xc, ycenter=yc)


@_reg(POST)
def calc_residual_ver(r, s, o):
    _, ver, xc, yc = lines(r, s)[:4]
    return dict(list_ulines=ver, xcenter=xc, ycenter=yc)


@_reg(POST)
def check_distortion(r, s, o):
    n = s.choice([30, 40])
    p = np.stack((np.sort(r.uniform(0, 50, n)),
                  np.abs(r.normal(0, r.choice([.3, .7, 1.2]), n))), 1)
    return dict(list_data=p)


@_reg(POST)
def correct_perspective_line(r, s, o):
    return dict(list_lines=lines(r, s)[0], list_coef=pers(r))


@_reg(POST)
def correct_perspective_image(r, s, o):
    m, h, w = image(r, s)
    k = dict(mat=m, list_coef=pers(r), **_opt(o, dict(order=[0, 1, 3],
                                                      mode=MODES)))
    if o.random() < 0.25:
        yy, xx = np.mgrid[0:h, 0:w]
        k['map_index'] = (np.float32(yy.reshape(-1, 1) * .9),
                          np.float32(xx.reshape(-1, 1) * .9))
    return k


@_reg(UTIL)
def make_circle_mask(r, s, o):
    return dict(width=s.choice([15, 20]) * (30 if s.big else 1), ratio=o.choice([.5, .8, 1.]))


@_reg(UTIL)
def make_dot_pattern(r, s, o):
    return dict(height=s.choice([60, 70]) * (8 if s.big else 1), width=64,
                dot_distance=o.choice([10, 12]), dot_size=o.choice([3, 5]),
                margin=o.choice([5, (6, 9), [8, 5]]))


@_reg(UTIL)
def make_line_pattern(r, s, o):
    return dict(height=s.choice([60, 70]) * (8 if s.big else 1), width=64,
                line_distance=o.choice([10, 12]), line_size=o.choice([3, 5]),
                margin=o.choice([5, (6, 9), [8, 5]]))


@_reg(UTIL)
def make_chessboard(r, s, o):
    return dict(height=s.choice([60, 70]) * (8 if s.big else 1), width=64, size=o.choice([8, 10]),
                margin=o.choice([5, 8]), margin_grayscale=o.choice([.9, .5]))


@_reg(UTIL)
def find_point_to_point(r, s, o):
    return dict(points=(float(r.uniform(0, 40)), float(r.uniform(0, 40))),
                xcenter=20.5, ycenter=19.0, list_fact=fact(r, s),
                **_opt(o, dict(output_order=['xy', 'yx'])))


PADS = [False, True, 0, 4, (2, 3, 4, 5), [1, 0, 2, 0]]


@_reg(UTIL)
def unwarp_color_image_backward(r, s, o):
    return dict(_im(r, s, s.random() < .6), **_opt(o, dict(
        order=[0, 1, 3], mode=MODES, pad=PADS,
        pad_mode=['constant', 'edge', 'reflect', 'mean'])))


@_reg(UTIL)
def mapping_cv2(r, s, o):
    m, h, w = image(r, s, s.random() < .5)
    yy, xx = np.mgrid[0:h, 0:w]
    return dict(mat=np.ascontiguousarray(m),
                xmat=np.float32(xx * .9 + r.uniform(0, 2)),
                ymat=np.float32(yy * .95 + r.uniform(0, 1)),
                **_opt(o, dict(method=[0, 1, 2], border=[0, 1, 4])))


@_reg(UTIL)
def unwarp_image_backward_cv2(r, s, o):
    return dict(_im(r, s, s.random() < .5), **_opt(o, dict(
        method=[0, 1, 2], border=[0, 1, 4], pad=PADS,
        pad_mode=['constant', 'edge', 'reflect', 'mean'])))


NAMES = sorted(F)
# slow functions are drawn less often
SLOW = {'find_cod_fine': .15, 'get_cross_points_hor_lines': .4,
        'get_cross_points_ver_lines': .4}


# ----------------------------------------------------------------- refusals
def _refused(name, kw, q):
    """Arguments of the right types that the function itself refuses."""
    k = dict(kw)
    x = q.random() < .5
    if 'mat3D' in k:
        if x:
            k['mat3D'] = k['mat3D'][0]
        else:
            k['index' if 'index' in k else 'start_index'] = 5000
            if 'index' in k:
                k['mat3D'] = k['mat3D'][0]
    elif 'list_coef' in k:
        k['list_coef'] = k['list_coef'][:-1] if x else k['list_coef'] * 2
    elif 'hor_margin' in k:
        k['hor_margin' if x else 'ver_margin'] = 5000
    elif 'angle_deg' in k:
        k['angle_deg' if x else 'index'] = 90.0 if x else 5000
    elif name == 'transform_coef_backward_and_forward':
        k['ref_points'] = [[1.0, 2.0]]
    elif name == 'make_dot_pattern':
        k['dot_distance'] = 1
    elif name.startswith(('unwarp_color', 'unwarp_image_backward_cv2')):
        k['pad'] = (1, 2) if x else 2.5
    elif 'points' in k and len(k['points']) > 2:
        k['points'] = k['points'][:2]
    elif 'source_points' in k:
        k['source_points'] = k['source_points'][:3]
    elif 'list_hor_lines' in k:
        y = 'list_hor_lines' if x else 'list_ver_lines'
        k[y] = k[y][:1]
    elif 'list_lines' in k:
        k['list_lines'] = [z[:1] for z in k['list_lines']]
    else:
        return None
    return k


def _bad(name, kw, q):
    """Make the arguments ones that the function refuses or fails on."""
    if q.random() < .5:
        k = _refused(name, kw, q)
        if k is not None:
            return k
    ks = [k for k, v in kw.items()
          if isinstance(v, (np.ndarray, list, tuple))]
    if not ks:
        ks = list(kw)
    k = q.choice(ks)
    w = q.randrange(4)
    if w == 0:
        kw[k] = None
    elif w == 1:
        kw[k] = [] if not isinstance(kw[k], np.ndarray) else kw[k][:0]
    elif w == 2 and isinstance(kw[k], np.ndarray):
        kw[k] = kw[k].astype(object)
        kw[k].flat[kw[k].size // 2] = 'x'
    elif isinstance(kw[k], list) and kw[k]:
        kw[k] = list(kw[k])
        kw[k][-1] = None
    else:
        kw[k] = object()
    return kw


# -------------------------------------------------------------------- tweaks
def _tweak(v, kind, q):
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return v + (q.choice([1, 2]) if v >= 0 else 0)
    if kind == 'tiny' and isinstance(v, (float, np.floating)):
        return type(v)(v + q.choice([1, -1]) * q.choice(
            [4e-8, 4e-7, 4e-6, 3e-4]))
    if isinstance(v, (float, np.floating)):
        return type(v)(v * (1 + q.choice([1e-3, -1e-2])) + q.choice([0, 1e-3]))
    if isinstance(v, np.ndarray):
        w = v.copy(order='K')
        if w.dtype.kind not in 'fiu' or w.size < 2:
            return w
        if kind == 'zeros':              # nothing in a part of the data
            i = q.randrange(len(w))
            w[i // 2:i + 1 + len(w) // 3] = 0
        elif kind == 'sparse':
            w[...] = np.where(np.indices(w.shape).sum(0) % q.choice(
                [7, 11, 20]) == 3, 5, 0)
        elif kind == 'const':
            w[...] = w.flat[q.randrange(w.size)]
        elif kind == 'order':            # another byte order
            w = w.astype(w.dtype.newbyteorder('>'))
        elif kind in ('nan', 'inf', 'neg', 'dup'):
            for _ in range(q.choice([1, 1, 3, 10])):
                i = q.randrange(w.size)
                if kind == 'dup':
                    w[q.randrange(len(w))] = w[i % len(w)]
                elif w.dtype.kind != 'f':
                    w.flat[i] = np.iinfo(w.dtype).max
                else:
                    w.flat[i] = {'nan': np.nan, 'inf': np.inf * q.choice(
                        [1, -1]), 'neg': -abs(w.flat[i]) - .5}[kind]
        elif kind == 'swap':
            i, j = q.randrange(len(w)), q.randrange(len(w))
            w[[i, j]] = w[[j, i]]
        elif kind == 'tiny' and w.dtype.kind == 'f':
            w.flat[q.randrange(w.size)] += q.choice([4e-7, 4e-6, 3e-4])
        elif kind == 'scale' and w.dtype.kind == 'f':
            w *= w.dtype.type(q.choice([0.75, 1.01]))
        else:
            i = q.randrange(w.size)
            if w.dtype.kind == 'f':
                w.flat[i] += 0.25 * (1 + abs(w.flat[i])) * q.choice([.1, 1])
            elif q.random() < .5 and w.ndim == 2 and w.max() > 0:
                # take away a whole dot
                a, b = q.randrange(w.shape[0]), q.randrange(w.shape[1])
                w[max(0, a - 7):a + 7, max(0, b - 7):b + 7] = 0
            else:
                w.flat[i] = w.flat[i] // 2
        return w
    if isinstance(v, (list, tuple)) and len(v):
        w = list(v)
        i = q.randrange(len(w))
        if kind == 'swap' and len(w) > 1 and not isinstance(w[0], float):
            j = q.randrange(len(w))
            w[i], w[j] = w[j], w[i]
        else:
            w[i] = _tweak(w[i], kind, q)
        return tuple(w) if isinstance(v, tuple) else w
    return v


def build(spec):
    """(function, kwargs) with fresh argument objects."""
    import importlib
    mod, fn = F[spec['f']]
    r = np.random.default_rng(spec['d'])
    s, o = random.Random(spec['s']), random.Random(spec['o'])
    s.big = spec.get('big', 0) if spec['f'] not in SLOW else 0
    kw = fn(r, s, o)
    for (k, kind, seed) in spec.get('tw', ()):
        if k == '*' and not spec['f'].endswith('cv2'):
            # (cv2.remap itself crashes on some such arguments)
            q = random.Random(seed)
            a = [n for n in kw if isinstance(kw[n], (np.ndarray, list))]
            k = q.choice(a) if a else k
        if k in kw:
            kw[k] = _tweak(kw[k], kind, random.Random(seed))
    if spec.get('bad') is not None and not spec['f'].endswith('cv2'):
        # (cv2.remap itself crashes on some such arguments)
        kw = _bad(spec['f'], kw, random.Random(spec['bad']))
    return getattr(importlib.import_module(mod), spec['f']), kw


def call(spec, kw=None):
    """('ok', result) or ('exc', type name); interrupts pass through."""
    f, k = build(spec)
    try:
        return 'ok', f(**(k if kw is None else kw))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return 'exc', type(e).__name__


def pick(rng, names=NAMES):
    while True:
        n = rng.choice(names)
        if rng.random() < SLOW.get(n, 1.0):
            return n


def draw(rng, names=NAMES):
    q = {'f': pick(rng, names), 'd': rng.randrange(10 ** 6),
         'o': rng.randrange(10 ** 6), 's': rng.randrange(40)}
    if rng.random() < 0.04:
        q['big'] = 1
    elif rng.random() < 0.07:            # unusual values
        q['tw'] = [['*', rng.choice(['zeros', 'zeros', 'nan', 'inf', 'neg',
                                     'dup', 'sparse', 'const']),
                    rng.randrange(10 ** 6)]]
    return q


def related(rng, spec):
    """A call close to `spec`: other values, options or one small change."""
    q = dict(spec)
    q.pop('bad', None)
    x = rng.random()
    if x < 0.35:
        q['d'] = rng.randrange(10 ** 6)
        q.pop('tw', None)
    elif x < 0.6:
        q['o'] = rng.randrange(10 ** 6)
    elif x < 0.7:
        q['d'] = rng.randrange(10 ** 6)
        q['s'] = rng.randrange(40)
        q.pop('tw', None)
    elif x < 0.95:
        _, kw = build(q)
        # (cv2: other numbers are other, also undefined, methods)
        kw = [k for k in kw if k not in ('method', 'border')]
        q['tw'] = list(q.get('tw', ())) + [
            [rng.choice(sorted(kw)), rng.choice(
                ['one', 'swap', 'scale', 'tiny']), rng.randrange(10 ** 6)]]
    return q


_refs = {}


def alone(spec):
    """Outcome of the call made alone in a fresh copy of this process, which
    has never called the library."""
    import json
    import core
    k = json.dumps(spec, sort_keys=True)
    if k not in _refs:
        if len(_refs) > 3000:
            _refs.clear()

        def body():
            o, v = call(spec)
            return o, plain(v)
        rc, v = core.isolated(body, timeout=120)
        if v is None:
            raise core.HarnessError('%s ended with %s' % (show(spec), rc))
        _refs[k] = v
    return _refs[k]


# ---------------------------------------------------------------- comparison
def plain(v):
    """Result as picklable plain data (views become arrays of their own)."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v) if type(v) in (list, tuple) \
            else list(plain(x) for x in v)
    if hasattr(v, '__next__'):
        return [plain(x) for x in v]
    return v


def same(a, b, rtol=1e-6, atol=1e-9):
    """a equals b; floats within a rounding tolerance."""
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind in 'fc':
            if a.size == 0:
                return True
            with np.errstate(all='ignore'):
                fin = np.isfinite(b)
                sc = float(np.max(np.abs(b[fin]))) if fin.any() else 0.0
                d = np.abs(a.astype(np.float64) - b.astype(np.float64)) \
                    if a.dtype.kind == 'f' else np.abs(a - b)
                ok = (d <= atol + rtol * (np.abs(b) + 1e-3 * sc)) | \
                    ((a == b) | (np.isnan(a) & np.isnan(b)))
            return bool(np.all(ok))
        if a.dtype.kind == 'O':
            return same(a.tolist(), b.tolist(), rtol, atol)
        return bool(np.array_equal(a, b))
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
            same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(
            same(a[k], b[k], rtol, atol) for k in b)
    if isinstance(b, (float, np.floating)) and \
            isinstance(a, (float, int, np.number)):
        a, b = float(a), float(b)
        return a == b or (a != a and b != b) or \
            abs(a - b) <= atol + rtol * abs(b)
    try:
        return bool(a == b)
    except Exception:
        return False


def brief(v):
    if isinstance(v, np.ndarray):
        return '%s%s[%s%s]' % (v.dtype, v.shape, ', '.join(
            '%.9g' % x if v.dtype.kind in 'fiub' else str(x)
            for x in v.ravel()[:6]), ' ...' if v.size > 6 else '')
    if isinstance(v, (list, tuple)):
        return '%s(%s%s)' % (type(v).__name__, ', '.join(
            brief(x) for x in v[:3]), ' ...' if len(v) > 3 else '')
    return repr(v)[:120]


def show(spec):
    t = ''.join(' %s~%s' % (k[0], k[1]) for k in spec.get('tw', ()))
    t += ' big' if spec.get('big') else ''
    return '%s(d=%s o=%s s=%s%s%s)' % (
        spec['f'], spec['d'], spec['o'], spec['s'], t,
        ' refused' if spec.get('bad') is not None else '')
