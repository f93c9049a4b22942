"""C14: video correction shows every frame once, in order; ESC ends it."""
import numpy as np

import core
import screen
import threads

ID = 'C14'
RULE = ('seeded schedules of 1-2 video sessions: delivered frames, failed '
        'reads, stalls (runs of failed reads), a dead camera, camera errors, '
        'ESC and other keys pressed at seeded moments, errors and interrupts '
        'in camera, screen, keyboard or inside the loop, frames that cannot '
        'be processed; gray and colour frames, all padding options. Screen '
        'content is compared with the single-image function in a fresh '
        'process. Non-trivial: a frame was shown and something other than a '
        'plain delivery happened')
MEASURE = 'digest of the sequence of camera, screen and keyboard events'
RUNS = {'quick': 9000, 'thorough': 400000}
WALL = {'quick': 90, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy.util.utility', 'numpy', 'opencv (remap)'],
    'simulated': ['camera', 'keyboard', 'screen', 'delivery of interrupts'],
    'stub': ['cv2.imshow, waitKey, destroyAllWindows (the installed OpenCV '
             'has no display support)']}
ASSUMPTIONS = ['liveness bound: 400 camera, screen and keyboard calls '
               'more than the schedule has']
PADS = [False, True, 0, 1, 5, (2, 3, 4, 5), [1, 0, 2, 0]]
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError,
       'OSError': OSError, 'MemoryError': MemoryError}


def _one(rng):
    h, w = rng.choice([(20, 26), (24, 24), (30, 17)])
    ev = []
    for _ in range(rng.randrange(0, 9)):
        x = rng.random()
        if x < .6:
            ev.append(['frame'])
        elif x < .9:
            ev += [['fail']] * rng.choice([1, 1, 2, 5, 12])
        elif ev:
            ev.append(['frame'])
    if rng.random() < .02:                 # a long session
        ev += [['frame']] * rng.choice([70, 140, 300])
        ev += [['fail']] * rng.choice([0, 3])
        ev += [['frame']] * rng.choice([1, 8])
    n = len(ev)
    s = {'h': h, 'w': w, 'color': rng.random() < .5, 'ev': ev,
         'seed': rng.randrange(10 ** 6),
         'dtype': rng.choice(['u1', 'u1', 'u1', 'u1', 'u2', 'f4']), 'tail': rng.choice(['fail', 'frame']),
         'pad': rng.choice(PADS), 'method': rng.choice([None, None, 0, 2]),
         'border': rng.choice([None, None, 1, 4]),
         'reuse': rng.random() < .3,
         'pad_mode': rng.choice(['constant', 'constant', 'edge', 'reflect',
                                 'mean']), 'keys': {}}
    for _ in range(rng.choice([0, 0, 1, 2])):
        s['keys'].setdefault(str(rng.randrange(1, n + 3)), []).append(
            rng.choice([113, 32, 255, 10]))
    x = rng.random()
    if x < .55:
        s['keys'].setdefault(str(rng.randrange(1, n + 8)), []).append(27)
    elif x < .7 and n:
        s['raise'] = ['read', rng.randrange(n + 1), rng.choice(sorted(EXC))]
    elif x < .8:
        s['raise'] = ['show', rng.randrange(1, 4), rng.choice(sorted(EXC))]
    elif x < .9:
        s['raise'] = ['poll', rng.randrange(1, n + 4), rng.choice(sorted(EXC))]
    elif x < .96:
        s['inject'] = [int(10 ** rng.uniform(0, 1.8)) - 1,
                       rng.choice(sorted(EXC))]
    else:
        s['badframe'] = rng.randrange(3)
    # whatever happens, ESC is pressed in the end
    s['keys'].setdefault(str(n + 10), []).append(27)
    return s


def gen(rng, i, tier):
    return {'sessions': [_one(rng) for _ in range(rng.choice([1, 1, 2]))]}


def _params(s):
    r = np.random.default_rng(s['seed'])
    f = [1.0 + r.uniform(-.02, .02), r.uniform(-8e-4, 8e-4),
         r.uniform(-2e-5, 2e-5)]
    kw = dict(xcenter=s['w'] / 2 + r.uniform(-2, 2),
              ycenter=s['h'] / 2 + r.uniform(-2, 2), list_fact=f,
              pad=tuple(s['pad']) if isinstance(s['pad'], list)
              and len(s['pad']) == 4 and s['seed'] % 2 else s['pad'])
    for k in ('method', 'border', 'pad_mode'):
        if s[k] is not None:
            kw[k] = s[k]
    sh = (s['h'], s['w'], 3) if s['color'] else (s['h'], s['w'])
    n = sum(e[0] == 'frame' for e in s['ev']) + 30
    dt = np.dtype(s.get('dtype', 'u1'))
    frames = [r.integers(0, 256, sh).astype(np.uint8) for _ in range(n)]
    if dt != np.uint8:
        frames = [(f.astype(np.float64) * (200 if dt.kind == 'u' else
                                           1 / 255)).astype(dt)
                  for f in frames]
    q = np.random.default_rng(s['seed'] + 1)
    if q.random() < .6:
        # a scene that stands still, goes dark, or comes back
        for i in range(1, n):
            x = q.random()
            if x < .25:
                frames[i] = frames[i - 1].copy()
            elif x < .35:
                frames[i][:] = q.choice([0, 255, 7])
            elif x < .45:
                frames[i] = frames[int(q.integers(i))].copy()
    return kw, frames


def _play(plan):
    import discorpy.util.utility as util
    out = []
    for s in plan['sessions']:
        kw, frames = _params(s)
        sc = screen.Screen(400 + 4 * len(s['ev']))
        ev = [tuple(e) for e in s['ev']]
        if s.get('raise'):
            w, n, x = s['raise']
            if w == 'read':
                ev.insert(n, ('raise', EXC[x]('injected')))
            else:
                sc.raise_at[(w, n)] = EXC[x]('injected')
        if 'badframe' in s:
            q = s['badframe']
            if q < len(frames):
                frames[q] = [frames[q].astype(object), np.zeros((3, 4, 3, 2)),
                             'no frame'][s['seed'] % 3] \
                    if s['seed'] % 3 < 2 else np.array('no frame')
        cam = screen.Camera(sc, frames, ev,
                            {int(k): v for k, v in s['keys'].items()},
                            s['tail'], (s['h'], s['w']), s.get('reuse'))
        screen.current = sc
        fired = None
        o = 'returned'
        try:
            if 'inject' in s:
                inj = threads.Injector(
                    s['inject'][0], EXC[s['inject'][1]], careful=True,
                    only=lambda f, e, n: cam.reads > 0 and not cam.released
                    and not sc.closed_all and sc.esc_taken is None)
                try:
                    with inj:
                        util.unwarp_video_cv2(cam, **kw)
                finally:
                    fired = inj.fired
            else:
                util.unwarp_video_cv2(cam, **kw)
        except screen.Stuck:
            o = 'stuck'
        except BaseException as e:
            o = type(e).__name__
            e.__traceback__ = None
        screen.current = None
        out.append(dict(o=o, shown=[x[1] for x in sc.shown],
                        delivered=cam.delivered, released=cam.released,
                        open=sorted(sc.open), esc=sc.esc_taken,
                        after=sc.after_esc, log=sc.log, fired=fired,
                        late=cam.used_after_release))
    return out


def _expected(s, delivered):
    import discorpy.util.utility as util
    kw, _ = _params(s)
    return [util.unwarp_image_backward_cv2(f, **kw) for f in delivered]


def run(plan):
    res = core.Result()
    rc, v = core.isolated(_play, plan, timeout=100)
    if v is None:
        raise core.HarnessError('session ended with %s' % rc)
    for n, (s, r) in enumerate(zip(plan['sessions'], v)):
        res.log += r['log'] + [r['o'], r['fired']]
        res.steps += len(r['log'])
        for e in ('read fail', 'read raise'):
            k = sum(x == e for x in r['log'])
            if k:
                res.fault({'read fail': 'failed read',
                           'read raise': 'camera error'}[e], k)
        if r['fired']:
            res.fault('injected ' + s['inject'][1])
        if s.get('raise') and s['raise'][0] != 'read' and \
                r['o'] == s['raise'][2]:
            res.fault('error in ' + s['raise'][0])
        if 'badframe' in s and r['o'] not in ('returned',):
            res.fault('frame that cannot be processed')
        res.probe('frames shown', len(r['shown']))
        res.nontrivial |= bool(r['shown']) and any(
            not x.startswith(('read frame', 'show', 'poll')) for x in
            r['log'])
        w = 'session %d (%s; %s)' % (n, r['o'], ' '.join(r['log'][-40:]))
        if r['o'] == 'stuck':
            res.fail('stuck', w + ': the loop does not end after ESC')
        elif r['esc'] is None and r['o'] == 'returned':
            res.fail('ends-early', w + ': returned without ESC')
        elif r['esc'] is not None and r['after'] > 2:
            res.fail('esc-late', w + ': %d calls after ESC' % r['after'])
        elif r['released'] < 1:
            res.fail('not-released', w + ': the camera was not released')
        elif r['open']:
            res.fail('window-open', w + ': windows left open: %s' % r['open'])
        if res.viol:
            break
        dl, sh = r['delivered'], r['shown']
        ended = r['o'] != 'returned'
        # the frame being handled when an error ended the loop may be missing
        if len(sh) > len(dl) or len(sh) < len(dl) - (1 if ended else 0):
            res.fail('frames', w + ': %d frames delivered, %d shown'
                     % (len(dl), len(sh)))
            break
        good = [d for d in dl[:len(sh)] if d.dtype != object and d.ndim in (
            2, 3)]
        if len(good) != len(sh):
            raise core.HarnessError('a bad frame was shown')
        rc, ref = core.isolated(_expected, s, good)
        if ref is None:
            raise core.HarnessError('reference ended with %s' % rc)
        for k, (a, b) in enumerate(zip(sh, ref)):
            if a.shape != b.shape or a.dtype != b.dtype or np.max(np.abs(
                    a.astype(float) - b.astype(float)), initial=0) > (
                        1 if b.dtype.kind == 'u' else 1e-4):
                res.fail('frame-differs', w + ': frame %d is not shown as '
                         'the single-image function corrects it' % k)
                break
        if res.viol:
            break
    res.sig = core.digest(*res.log)
    return res


def shrink(plan):
    ss = plan['sessions']
    if len(ss) > 1:
        for c in ss:
            yield {'sessions': [c]}
    for i, s in enumerate(ss):
        def put(q):
            return {'sessions': ss[:i] + [q] + ss[i + 1:]}
        for c in core.drop_each(s['ev']):
            yield put(dict(s, ev=c))
        for k in ('raise', 'inject', 'badframe'):
            if k in s:
                yield put({a: b for a, b in s.items() if a != k})
        for k in s['keys']:
            if s['keys'][k] != [27]:
                yield put(dict(s, keys={a: b for a, b in s['keys'].items()
                                        if a != k}))
        if s['pad'] is not False:
            yield put(dict(s, pad=False))
