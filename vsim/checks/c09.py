"""C09: saving plots leaves Matplotlib's global state as the user set it."""
import hashlib
import os

import numpy as np

import core
import simfs
import store
import threads
from filegen import COMPONENTS                              # noqa

ID = 'C09'
RULE = ('a user session with one of 5 backends, 0-6 changed rcParams and '
        '0-3 figures of its own '
        '(any of them current, several axes), then 1-4 plot saves of all '
        'three kinds: plain, with refused arguments, with an exception '
        '(RuntimeError, MemoryError, KeyboardInterrupt) at a seeded point of '
        'the drawing and saving calls, or with disk faults; after each save '
        'all rcParams, the open figures, the current figure and axes, the '
        'backend, the defaults, fonts, registries and log level, and the '
        'pixels of the user figures are compared. '
        'Non-trivial: the user had figures or settings, or a failure fired')
MEASURE = ('digest of the user session, outcomes, file-system events and '
           'injection points')
ASSUMPTIONS = ['an interrupt can arrive where CPython checks for signals: on '
               'entry to a Python function and after a call of a C function, '
               'not inside the enter/exit of context managers or close']
RUNS = {'quick': 700, 'thorough': 30000}
WALL = {'quick': 200, 'thorough': 3000}

RC = {'font.size': [7.0, 20.0], 'font.family': [['serif'], ['monospace']],
      'font.weight': ['bold', 300], 'lines.linewidth': [4.0],
      'lines.markersize': [11.0], 'savefig.dpi': [37.0, 'figure'],
      'savefig.format': ['png', 'jpg'], 'savefig.bbox': ['tight', None],
      'figure.figsize': [[3.0, 2.0]], 'figure.dpi': [72.0],
      'figure.facecolor': ['yellow'], 'axes.grid': [True],
      'axes.facecolor': ['0.8'], 'savefig.facecolor': ['red'],
      'image.cmap': ['gray'], 'axes.labelsize': ['small'],
      'figure.max_open_warning': [2], 'interactive': [True, False],
      'text.color': ['green'], 'axes.labelweight': ['bold']}


def gen(rng, i, tier):
    plan = {'rc': {k: rng.choice(RC[k]) for k in
                   rng.sample(sorted(RC), rng.choice([0, 1, 3, 6]))},
            'figs': [], 'ops': []}
    if rng.random() < 0.3:
        plan['backend'] = rng.choice(['svg', 'pdf', 'ps', 'template'])
    for f in range(rng.choice([0, 1, 1, 2, 3])):
        plan['figs'].append({'num': rng.choice([1, 2, 3, 7, 20]) + 30 * f,
                             'axes': rng.choice([0, 1, 2]),
                             'seed': rng.randrange(999)})
    if rng.random() < 0.06:                # many
        plan['figs'] = [{'num': 100 + f, 'axes': 0, 'seed': 0}
                        for f in range(rng.choice([6, 18, 24]))] \
            + plan['figs']
    if plan['figs']:
        plan['current'] = rng.randrange(len(plan['figs']))
    if plan['figs'] and rng.random() < 0.3:
        plan['late_rc'] = {'font.size': 5.0}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        op = {'op': 'save', 't': 'plot', 'ovw': rng.random() < 0.8,
              'fn': rng.choice(['lines', 'resid', 'pts']),
              'hw': [rng.choice([40, 60]), rng.choice([50, 70])],
              'dpi': rng.choice([40, 50]),
              'path': rng.choice(['x.png', 'x', 'new/y.png', 'z.jpg',
                                  'v.pdf']),
              'val': {'n': rng.randrange(0, 4), 'seed': rng.randrange(9999)}}
        op['val']['k'] = 'lines' if op['fn'] == 'lines' else 'pts'
        if op['fn'] == 'resid':
            op['font'] = rng.choice(['DejaVu Sans', 'DejaVu Serif',
                                     'no such font', 'DejaVu Sans Mono'])
        x = rng.random()
        if x < 0.2:
            bad = rng.choice(['val', 'dpi', 'ext', 'hw', 'dir', 'shape'])
            if bad == 'val':
                op['val'] = {'k': 'bad', 'what': rng.choice(
                    ['raises', 'object', 'set']), 'seed': 0}
            elif bad == 'dpi':
                op['dpi'] = rng.choice([0, -5])
            elif bad == 'ext':
                op['path'] = 'x.nope'
            elif bad == 'hw':
                op['hw'] = rng.choice([[0, 50], [40, -3], ['a', 50]])
            elif bad == 'dir':
                op['path'] = 'isdir.png'
                op['ovw'] = True
            else:
                op['val'] = {'k': 'arr', 'shape': [5], 'dtype': 'float32',
                             'seed': 3}
        elif x < 0.6:
            op['inject'] = [rng.random(), rng.choice(
                ['RuntimeError', 'MemoryError', 'KeyboardInterrupt',
                 'KeyboardInterrupt', 'OSError', 'ValueError'])]
        elif x < 0.8:
            op['disk'] = rng.randrange(1 << 30)
        plan['ops'].append(op)
    return _place(rng, plan)


def _place(rng, plan):
    """Turn fractions into places, from a rehearsal without failures."""
    need = [o for o in plan['ops'] if 'inject' in o or 'disk' in o]
    if not need:
        return plan
    with core.Box() as box:
        root = os.path.join(box, 'w')
        os.makedirs(os.path.join(root, 'isdir.png'))
        rc, v = core.isolated(_rehearse, plan, root)
    for op, (n, ev) in zip(plan['ops'], v or []):
        if 'inject' in op:
            op['inject'][0] = int(op['inject'][0] * max(n, 1))
        if 'disk' in op:
            f = store.pick_fault(rng, ev, 0.0)
            del op['disk']
            if f:
                op['faults'] = [f]
    return plan


def _rehearse(plan, root):
    out = []
    simfs.root(root)
    for op in plan['ops']:
        simfs.begin()
        inj = threads.Injector(careful=True)
        try:
            with inj:
                store.do_save(op, root)
        except Exception:
            pass
        out.append((inj.n, simfs.end()[0]))
    return out


def _pixels(fig):
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    was = fig.canvas
    try:
        if not hasattr(was, 'buffer_rgba'):
            FigureCanvasAgg(fig)
        fig.canvas.draw()
        return hashlib.sha256(
            bytes(fig.canvas.buffer_rgba())).hexdigest()[:16]
    finally:
        if fig.canvas is not was:
            fig.set_canvas(was)


def _shared():
    """Settings of Matplotlib outside of rcParams."""
    import logging
    import matplotlib
    from matplotlib import font_manager, scale, units
    fm = font_manager.fontManager
    return {'defaults': hash(repr(sorted(
                matplotlib.rcParamsDefault.items(), key=lambda x: x[0]))),
            'default fonts': dict(fm.defaultFamily),
            'fonts known': (len(fm.ttflist), len(fm.afmlist)),
            'colour maps': len(list(matplotlib.colormaps)),
            'scales': sorted(scale.get_scale_names()),
            'units': len(units.registry),
            'styles': len(matplotlib.style.library),
            'log level': [logging.getLogger('matplotlib').level,
                          logging.getLogger('matplotlib.font_manager').level]}


def _state(figs):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib._pylab_helpers import Gcf
    rc = {k: repr(v) for k, v in matplotlib.rcParams.items()
          if k != 'backend'}
    nums = plt.get_fignums()
    act = Gcf.get_active()
    out = {'rcParams': rc, 'figures': nums,
           'current figure': act.num if act else None,
           'interactive': matplotlib.is_interactive(),
           'backend': matplotlib.get_backend()}
    out.update(_shared())
    for n, f in figs.items():
        out['figure %d' % n] = (
            [id(a) for a in f.axes],
            id(f._axstack.current()) if f._axstack.current() is not None
            else None, len(f.get_children()), tuple(f.get_size_inches()),
            f.dpi, [len(a.get_children()) for a in f.axes])
        try:
            out['pixels of figure %d' % n] = _pixels(f)
        except Exception as e:
            out['pixels of figure %d' % n] = 'drawing raised %r' % e
        out['figure object %d' % n] = plt.figure(n) is f if n in nums \
            else 'closed'
    if act and act.num in plt.get_fignums():
        plt.figure(act.num)
    return out


def _diff(a, b):
    out = []
    for k in a:
        if a[k] != b.get(k):
            if k == 'rcParams':
                for q in a[k]:
                    if a[k][q] != b[k].get(q):
                        out.append('rcParams[%s]: %s -> %s'
                                   % (q, a[k][q], b[k].get(q)))
            else:
                out.append('%s: %s -> %s' % (k, a[k], b.get(k)))
    return out[:6]


EXC = {'RuntimeError': RuntimeError, 'MemoryError': MemoryError,
       'KeyboardInterrupt': KeyboardInterrupt, 'OSError': OSError,
       'ValueError': ValueError}


def _session(plan, root):
    import matplotlib
    import matplotlib.pyplot as plt
    if plan.get('backend'):
        plt.switch_backend(plan['backend'])
    matplotlib.rcParams.update(plan['rc'])
    figs = {}
    for f in plan['figs']:
        fig = plt.figure(f['num'], figsize=(2, 1.5))
        r = np.random.default_rng(f['seed'])
        for a in range(f['axes']):
            ax = fig.add_subplot(1, f['axes'], a + 1)
            ax.plot(r.random(5), 'o-')
        figs[f['num']] = fig
    if 'current' in plan:
        plt.figure(plan['figs'][plan['current']]['num'])
    matplotlib.rcParams.update(plan.get('late_rc', {}))
    simfs.root(root)
    simfs.pause(True)
    out = []
    for op in plan['ops']:
        was = _state(figs)
        simfs.begin(op.get('faults', ()))
        simfs.pause(False)
        fired = held = None
        inj = threads.Injector(*([op['inject'][0], EXC[op['inject'][1]]]
                                 if 'inject' in op else []),
                               careful=True)
        try:
            if 'inject' in op:
                with inj:
                    store.do_save(op, root)
            else:
                store.do_save(op, root)
            o = 'ok'
        except BaseException as e:
            o = type(e).__name__
            held = e            # as a debugger or an interactive shell does
        simfs.pause(True)
        ev, fl = simfs.end()
        if inj.fired:
            fired = inj.fired
        now = _state(figs)
        if held is not None:
            held.__traceback__ = None
        out.append((o, _diff(was, now), ev, fl, fired))
        if out[-1][1]:
            break
    return out


def run(plan):
    res = core.Result()
    with core.Box() as box:
        root = os.path.join(box, 'w')
        os.makedirs(os.path.join(root, 'isdir.png'))
        rc, v = core.isolated(_session, plan, root)
        if v is None:
            raise core.HarnessError('session ended with %s' % rc)
    res.nontrivial = bool(plan['rc'] or plan['figs'])
    res.log.append((sorted(plan['rc']), len(plan['figs'])))
    for i, (op, (o, d, ev, fl, fired)) in enumerate(zip(plan['ops'], v)):
        res.log.append((op['fn'], o, tuple(ev), fired))
        res.steps += len(ev) + 1
        for k, n in fl.items():
            res.fault(k, n)
        if fired:
            res.fault('injected ' + op['inject'][1])
            res.nontrivial = True
        res.probe('plot ' + ('ok' if o == 'ok' else 'raised'))
        if d:
            res.fail('state-changed', 'save %d (%s, %s%s%s): %s' % (
                i, op['fn'], o, ', exception injected at ' + fired
                if fired else '', ', disk faults %s' % fl if fl else '',
                '; '.join(d)))
            break
    res.sig = core.digest(*res.log)
    return res


def shrink(plan):
    for cand in core.drop_each(plan['ops']):
        if cand:
            yield dict(plan, ops=cand)
    for k in plan['rc']:
        yield dict(plan, rc={a: b for a, b in plan['rc'].items() if a != k})
    if plan['figs']:
        yield {k: v for k, v in dict(plan, figs=[]).items()
               if k not in ('current', 'late_rc')}
        if len(plan['figs']) > 1:
            for i in range(len(plan['figs'])):
                f = plan['figs'][:i] + plan['figs'][i + 1:]
                yield dict(plan, figs=f, current=min(plan['current'],
                                                     len(f) - 1))
    if 'backend' in plan:
        yield {k: v for k, v in plan.items() if k != 'backend'}
    if 'late_rc' in plan:
        yield {k: v for k, v in plan.items() if k != 'late_rc'}
