"""C18: file calls at the same time on different files don't disturb each
other."""
import conc
from filegen import COMPONENTS                              # noqa
from conc import shrink                                     # noqa

ID = 'C18'
RULE = ('2-4 clients (processes, or threads for all but the plots), each with '
        '1-3 saves and loads of its own 1-2 files and loads of one file '
        'nobody saves, in the same, possibly missing, folder and with '
        'similar names; seeded schedule of their file-system operations '
        '(processes) or source lines (threads); some runs let all clients work '
        'on files of one type and shape that differ in their values only; in some process runs one '
        'client meets a disk error or dies. Non-trivial: the clients were '
        'interleaved at least twice')
MEASURE = 'digest of the schedule and of all outcomes'
RUNS = {'quick': 3500, 'thorough': 60000}
WALL = {'quick': 150, 'thorough': 3000}


def gen(rng, i, tier):
    return conc.gen_disjoint(rng)


def run(plan):
    return conc.run_disjoint(plan)
