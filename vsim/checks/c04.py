"""C04: a save that fails or dies never leaves a file that loads as something
else."""
import conc
import filegen
from filegen import COMPONENTS                              # noqa

ID = 'C04'
RULE = ('two thirds: seeded histories of saves to 1-2 paths in which saves '
        'fail (1-3 disk faults, full disk), are refused (bad arguments) or '
        'their process dies at a file-system operation (torn writes '
        'included), with loads in between and by a new process at the end; '
        'one third: 2-3 processes or threads saving and loading the same '
        'path under a seeded schedule of their file-system operations '
        '(processes) or source lines (threads), with deaths. Non-trivial: a '
        'fault fired, a save was refused, or clients were interleaved')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired) and of the schedule')
ASSUMPTIONS = ['a crash is the death of the process: what it had written '
               'stays (power loss with reordered pages is not simulated)']
RUNS = {'quick': 6000, 'thorough': 60000}
WALL = {'quick': 140, 'thorough': 3000}


def gen(rng, i, tier):
    if i % 3 == 2:
        return conc.gen_register(rng)
    g = filegen.Gen(rng)
    slots = [g.slot(filegen.TYPES) for _ in range(rng.choice([1, 1, 2]))]
    ops, idx = [], []
    for s in slots:
        if rng.random() < 0.85:
            ops.append(dict(g.save(s, ovw=1.0)))
            s['saved'] = ops[-1]
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < 0.25:
                ops.append(g.save(s, ovw=0.9, bad=1.0))
            else:
                idx.append(len(ops))
                ops.append(g.save(s, ovw=0.9))
            if rng.random() < 0.5:
                ops.append(g.load(s, wrong=0.0))
    plan = {'pre': g.neighbours(slots, False), 'ops': ops}
    return filegen.add_faults(rng, plan, idx, rng.choice([0.0, 0.5, 1.0]),
                              nmax=3)


def run(plan):
    if plan.get('mode') == 'conc':
        return conc.run_register(plan)
    res = filegen.run_for(ID)(plan)
    res.nontrivial |= any(o.get('val', {}).get('k') == 'bad' or
                          o.get('refused') for o in plan['ops'])
    return res


def shrink(plan):
    if plan.get('mode') == 'conc':
        return conc.shrink(plan)
    return filegen.shrink(plan)
