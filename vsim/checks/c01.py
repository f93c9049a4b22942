"""C01: a save with overwrite=False never touches a file that is there."""
import conc
import filegen
from filegen import COMPONENTS                              # noqa

ID = 'C01'
RULE = ('two thirds: seeded histories of 1-5 saves, mostly overwrite=False, '
        'over folders with existing files, gaps in the numbering, empty '
        'files and folders with the candidate names, half of them with disk '
        'faults, refused arguments or deaths; one third: 2-4 processes or '
        'threads saving with overwrite=False under the same names, under a '
        'seeded schedule of their file-system operations (processes) or '
        'source lines (threads). Non-trivial: a candidate name was taken, a '
        'fault fired, or clients were interleaved')
MEASURE = ('digest of the sequence of (operation, outcome, all file-system '
           'events with results, faults fired) and of the schedule')
RUNS = {'quick': 5000, 'thorough': 60000}
WALL = {'quick': 140, 'thorough': 3000}


def gen(rng, i, tier):
    if i % 3 == 2:
        return conc.gen_noclobber(rng)
    g = filegen.Gen(rng)
    slots = [g.slot(filegen.TYPES) for _ in range(rng.choice([1, 1, 2]))]
    ops, idx = [], []
    for _ in range(rng.randrange(1, 6)):
        s = rng.choice(slots)
        op = g.save(s, ovw=0.15, bad=0.1)
        idx.append(len(ops))
        ops.append(op)
        if rng.random() < 0.1:
            ops.append({'op': 'restart'})
        if rng.random() < 0.1:
            ops.append({'op': 'rm', 'path': g.stored_path(s)})
    plan = {'pre': g.neighbours(slots, True), 'ops': ops}
    if rng.random() < 0.5:
        return plan
    idx = rng.sample(idx, rng.randrange(1, min(3, len(idx)) + 1))
    return filegen.add_faults(rng, plan, idx, rng.choice([0.0, 0.3, 0.8]),
                              nmax=2)


def run(plan):
    if plan.get('mode') == 'conc':
        return conc.run_noclobber(plan)
    res = filegen.run_for(ID)(plan)
    res.nontrivial |= bool(plan.get('pre')) or len(plan['ops']) > 1
    return res


def shrink(plan):
    if plan.get('mode') == 'conc':
        return conc.shrink(plan)
    return filegen.shrink(plan)
