"""C02: files load back exactly what was last saved."""
import filegen
from filegen import COMPONENTS, shrink                      # noqa

ID = 'C02'
RULE = ('seeded histories of 4-12 saves, overwrites, loads, HDF listings and '
        'searches, folder searches, deletions, broken links and process '
        'restarts over 1-4 paths, fault-free; the caller changes the objects '
        'that a load returned, half of the histories run under a clock that '
        'gives all versions of a file the same time stamp; every load is '
        'compared with a model of the folder and at the end a new process '
        'loads every file. '
        'Non-trivial: some load met a file that had been overwritten or was '
        'written by an earlier process')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results)')
RUNS = {'quick': 5000, 'thorough': 60000}
WALL = {'quick': 150, 'thorough': 3000}


def gen(rng, i, tier):
    g = filegen.Gen(rng)
    n = rng.choice([1, 2, 2, 3, 4])
    types = filegen.TYPES if rng.random() < 0.5 else rng.choice(
        [['hdf', 'stream'], ['img'], ['txt', 'json', 'pkl'], ['plot', 'img']])
    slots = [g.slot(types) for _ in range(n)]
    ops = []
    for _ in range(rng.randrange(4, 13)):
        s = rng.choice(slots)
        x = rng.random()
        if s['saved'] is None or x < 0.3:
            op = g.save(s, ovw=0.85)
            if op['ovw']:
                s['saved'] = op
            ops.append(op)
        elif x < 0.82:
            ops.append(g.load(s))
        elif x < 0.88:
            ops.append({'op': 'restart'})
        elif x < 0.9:
            ops.append({'op': 'rm', 'path': s['path']})
        elif x < 0.94 and s['fam'] == 'hdf' and '.' in s['path']:
            ops.append({'op': 'link', 'path': s['path'],
                        'key': rng.choice(['bad', 'entry/bad', 'm/bad']),
                        'soft': rng.random() < 0.5})
        else:
            ops.append(g.search(s))
    return {'pre': g.neighbours(slots, False), 'ops': ops,
            'coarse': rng.random() < 0.5}


def run(plan):
    res = filegen.run_for(ID)(plan)
    saved, life, new = {}, 0, False
    for o in plan['ops']:
        if o['op'] == 'restart':
            life += 1
        elif o['op'] == 'save':
            saved.setdefault(o['path'], []).append(life)
        elif o['op'] == 'load' and o['path'] in saved:
            s = saved[o['path']]
            new |= len(s) > 1 or s[-1] != life
    res.nontrivial = new
    return res
