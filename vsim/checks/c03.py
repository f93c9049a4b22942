"""C03: a save that returns normally has really stored its data."""
import filegen
from filegen import COMPONENTS, shrink                      # noqa

ID = 'C03'
RULE = ('seeded histories of 1-6 saves (all save functions, overwriting or '
        'not) with 1-3 disk faults or a full disk placed inside one or two of '
        'them by a rehearsal of the same history; the file is read back by a '
        'new process and a later fault-free save to the same path must '
        'succeed. Non-trivial: at least one fault fired')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired)')
ASSUMPTIONS = ['faults are those of the listed file-system calls; writes lost '
               'without any error (power loss without fsync) are outside the '
               'property: the library never promises fsync']
RUNS = {'quick': 5000, 'thorough': 60000}
WALL = {'quick': 140, 'thorough': 3000}


def gen(rng, i, tier):
    g = filegen.Gen(rng)
    slots = [g.slot(filegen.TYPES) for _ in range(rng.choice([1, 1, 2]))]
    ops, idx = [], []
    for s in slots:
        if rng.random() < 0.5:
            ops.append(g.save(s, ovw=0.8))
        op = g.save(s, ovw=0.8)
        op['vfy'] = rng.random() < 0.3
        idx.append(len(ops))
        ops.append(op)
        if rng.random() < 0.6:
            ops.append(dict(g.save(s, ovw=0.9), after=True))
    plan = {'pre': g.neighbours(slots, False), 'ops': ops}
    return filegen.add_faults(rng, plan, idx, 0.0, nmax=3)


run = filegen.run_for(ID)
