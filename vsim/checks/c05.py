"""C05: a load either raises or returns the stored data."""
import filegen
from filegen import COMPONENTS, shrink                      # noqa

ID = 'C05'
RULE = ('1-2 files saved on a healthy disk, then 1-5 loads, listings or '
        'searches with 1-3 faults placed inside them (errors of open, read, '
        'stat, lock, close; short and interrupted reads; errors reported by '
        'the HDF5 or image library itself) or after the file '
        'was cut short, each followed by the same call without faults. '
        'Non-trivial: a fault fired or a file was cut')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired)')
RUNS = {'quick': 4000, 'thorough': 60000}
WALL = {'quick': 150, 'thorough': 3000}


def gen(rng, i, tier):
    g = filegen.Gen(rng)
    types = filegen.TYPES if rng.random() < 0.6 else ['hdf', 'stream']
    slots = [g.slot(types) for _ in range(rng.choice([1, 1, 2]))]
    ops, idx = [], []
    for s in slots:
        ops.append(g.save(s, ovw=1.0))
        s['saved'] = ops[-1]
        if rng.random() < 0.3:
            ops.append({'op': 'restart'})
    for _ in range(rng.randrange(1, 4)):
        s = rng.choice(slots)
        x = rng.random()
        if x < 0.1:
            lo = g.search(s)
        else:
            lo = g.load(s, wrong=0.05)
        if rng.random() < 0.25 and s['fam'] != 'txt':
            cut = {'op': 'cut', 'path': g.stored_path(s)}
            if rng.random() < 0.5:
                cut['frac'] = rng.random()
            else:
                cut['off'] = rng.choice([1, 2, 4, 9, 13, 40, 300])
            ops.append(cut)
        idx.append(len(ops))
        ops.append(lo)
        if rng.random() < 0.7:
            ops.append({k: v for k, v in lo.items()})
    for k in idx:
        if rng.random() < 0.3 and ops[k].get('t') in (
                'img', 'plot', 'hdf', 'stream'):
            ops[k]['lib'] = [rng.choice([0, 0, 0, 1, 1, 2, 3, 5]),
                             rng.choice(['OSError', 'RuntimeError']),
                             rng.random() < 0.2]
            idx = [x for x in idx if x != k]
    plan = {'pre': [], 'ops': ops}
    return filegen.add_faults(rng, plan, idx, 0.0, nmax=3, quota=0)


def run(plan):
    res = filegen.run_for(ID)(plan)
    res.nontrivial |= any(o['op'] == 'cut' for o in plan['ops'])
    return res
