#!/usr/bin/env python3
"""Write MANIFEST.json from the checks that exist and properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ('a pure function of its input: no schedule, clock, fault, I/O or '
        'shared state for the property to depend on, so simulation cannot '
        'add anything to input generation')
NOTE = {
    'C01': 'Seeded search over histories, disk faults, deaths and schedules of concurrent savers; a clean batch is evidence, not proof. Trusts the shim, the kernel below it and the folder model.',
    'C02': 'Seeded search over fault-free histories with restarts against a model of the folder; evidence, not proof.',
    'C03': 'Seeded search over disk-fault sequences placed inside saves by rehearsal, read back by a new process. Power loss without fsync is not simulated.',
    'C04': 'Seeded search over crash points, torn writes, disk faults, refused arguments and schedules of readers and second savers. A crash is the death of the process, not of the machine.',
    'C05': 'Seeded search over read faults, short reads and cut files for every loader.',
    'C06': 'Seeded search; the whole tree is compared before and after every call, under faults and deaths.',
    'C07': 'Seeded search; descriptors and HDF handles are counted after every call, with exceptions kept alive.',
    'C08': 'Seeded search over partitions, orders, writer interleavings, several streams and disk faults, against a model array.',
    'C09': 'Seeded search over user settings and figures, failures of drawing steps, disk faults and interrupts; all of rcParams and the drawn pixels of user figures are compared.',
    'C10': 'Seeded search over line/call-level interleavings of 2-4 threads; reference is the same call alone in a fresh process. Preemption inside C extensions is not simulated.',
    'C11': 'Seeded search over call histories with mutated inputs and results, failing and interrupted calls; reference is a fresh process.',
    'C12': 'Arguments are compared at scheduling points inside each call by a simulated observer thread, and after return, exception or interrupt at a seeded point.',
    'C13': 'Every call is repeated in simulated environments: other random states, hash seeds, memory fill, clock, directory order.',
    'C14': 'Real video loop on a simulated camera, screen and keyboard with a seeded schedule and a poll budget for liveness.',
    'C15': 'Seeded search over partitions, worker schedules, read faults with retry and worker deaths; reference is the in-memory correction of each image.',
    'C16': 'Seeded search over delivery points of KeyboardInterrupt/MemoryError in library frames and of failing allocations in the C libraries.',
    'C17': 'A snapshot of the process-wide settings is compared around every call, under failure, interrupt and thread interleaving.',
    'C18': 'Seeded search over schedules of clients (processes at file-system operations, threads at lines) on different files.',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    if os.path.exists(os.path.join(V, 'vsim', 'checks', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python vsim/check.py ' + i
        checks.append({
            'property': i, 'quick_cmd': 'VERIF_TIER=quick ' + cmd,
            'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection '
                         '(seeded search over schedules and fault sequences)',
            'level': 'exploration', 'level_note': NOTE[i]})
    elif i.startswith('N'):
        na.append({'property': i, 'reason': PURE})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
doc = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo: all seams are outside the code (an '
                'LD_PRELOAD disk/memory/process-scheduler layer, trace and '
                'profile functions, stand-ins for camera and screen).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
