"""C06: a call touches nothing on disk but its own target."""
import filegen
from filegen import COMPONENTS, shrink                      # noqa

ID = 'C06'
RULE = ('seeded histories of 1-6 saves, loads, listings and searches, good, '
        'refused and failing, over folders already holding other files '
        '(numbered names, temporary-looking names, folders in the way), half '
        'of them with disk faults or deaths inside the calls; the whole tree '
        'is compared before and after each call. Non-trivial: the tree held '
        'other files or a fault fired')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired)')
RUNS = {'quick': 4000, 'thorough': 60000}
WALL = {'quick': 140, 'thorough': 3000}


def gen(rng, i, tier):
    g = filegen.Gen(rng)
    slots = [g.slot(filegen.TYPES) for _ in range(rng.choice([1, 2, 2]))]
    ops, idx = [], []
    for _ in range(rng.randrange(1, 7)):
        s = rng.choice(slots)
        x = rng.random()
        if s['saved'] is None or x < 0.6:
            op = g.save(s, ovw=0.6, bad=0.15)
            if op['ovw']:
                s['saved'] = op
        elif x < 0.9:
            op = g.load(s)
        else:
            op = g.search(s)
        idx.append(len(ops))
        ops.append(op)
    plan = {'pre': g.neighbours(slots, rng.random() < 0.7), 'ops': ops}
    if rng.random() < 0.5:
        return plan
    idx = rng.sample(idx, rng.randrange(1, min(3, len(idx)) + 1))
    return filegen.add_faults(rng, plan, idx, rng.choice([0.0, 0.0, 0.6]),
                              nmax=2)


def run(plan):
    res = filegen.run_for(ID)(plan)
    res.nontrivial |= bool(plan.get('pre'))
    return res
