"""C07: no file stays open after a load or save has returned or raised."""
import filegen
from filegen import COMPONENTS, shrink                      # noqa

ID = 'C07'
RULE = ('seeded histories of 2-8 calls: good, with wrong keys, ranks, '
        'indices, paths, options and data, on corrupt (cut) or missing files, '
        'with disk faults, half of the exceptions kept alive, and up to two '
        'live HDF objects held; after each call the descriptors of the '
        'process and the open HDF handles are counted. Non-trivial: some '
        'call raised')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired)')
ASSUMPTIONS = ['when the disk fails the close call itself, the descriptor '
               'counts as released (Linux semantics)']
RUNS = {'quick': 4000, 'thorough': 60000}
WALL = {'quick': 140, 'thorough': 3000}


def gen(rng, i, tier):
    g = filegen.Gen(rng)
    types = filegen.TYPES if rng.random() < 0.5 else ['hdf', 'stream', 'hdf',
                                                      'img']
    slots = [g.slot(types) for _ in range(rng.choice([1, 2, 2]))]
    ops, idx, held = [], [], 0
    for _ in range(rng.randrange(2, 9)):
        s = rng.choice(slots)
        x = rng.random()
        real = True
        if s['saved'] is None or x < 0.3:
            op = g.save(s, ovw=0.85, bad=0.3)
            if op['ovw'] and op['val']['k'] != 'bad':
                s['saved'] = op
        elif x < 0.4 and s['fam'] != 'txt' and rng.random() < 0.4:
            op, real = {'op': 'cut', 'path': g.stored_path(s),
                        'frac': rng.random()}, False
        elif x < 0.52 and s['fam'] == 'hdf' and held < 2:
            op = g.load(s)
            op.update(op='hold', slot=held,
                      key=op.get('key') or rng.choice(['nope', 'entry/data']))
            held += 1
        elif x < 0.58 and held:
            op = {'op': 'drop', 'slot': held - 1}
            held -= 1
        elif x < 0.62:
            op = g.search(s)
        else:
            op = g.load(s, wrong=0.4)
        if rng.random() < 0.5:
            op['keep'] = True
        if real:
            idx.append(len(ops))
        ops.append(op)
    plan = {'pre': g.neighbours(slots, rng.random() < 0.3), 'ops': ops}
    if rng.random() < 0.4:
        return plan
    idx = rng.sample(idx, rng.randrange(0, min(3, len(idx)) + 1))
    return filegen.add_faults(rng, plan, idx, 0.0, nmax=2)


def run(plan):
    res = filegen.run_for(ID)(plan)
    res.nontrivial |= any(k.endswith(' exc') for k in res.probes)
    return res
