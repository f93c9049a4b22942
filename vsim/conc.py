"""Several clients of the file store at the same time.

Processes: each client is a forked process that hands the baton back at every
file-system operation below the scratch folder (shim: simfs_sched) and at the
begin and end of each call.  Threads: threads.Sim.  Either way one client runs
at a time and the plan's decisions say who."""
import os
import pickle
import random
import select
import signal
import time

import core
import filegen
import simfs
import store
import threads
from store import FAMILY, content_of, judge, expect, must_raise
from values import brief

BEGIN, END = 200, 201


class Sched:
    """Baton between client processes: a sparse list of preemptions."""

    def __init__(self, plan):
        d = plan.get('decisions')
        self.given = None if d is None else {int(a): int(b) for a, b in d}
        self.rng = random.Random('conc/%s' % plan['seed'])
        self.p = plan['p']
        self.step = 0
        self.decisions = []
        self.cur = None

    def pick(self, ready):
        s = self.step
        self.step += 1
        ok = self.cur in ready
        if self.given is not None:
            t = self.given.get(s)
            if t in ready:
                self.cur = t
            elif not ok:
                self.cur = ready[0]
            return self.cur
        if ok and (len(ready) == 1 or self.rng.random() >= self.p):
            return self.cur
        t = self.rng.choice([c for c in ready if c != self.cur] or ready)
        self.decisions.append([s, t])
        self.cur = t
        return t


def _client(ops, root, out, inn, recfile):
    L = simfs.lib()
    os.chdir(root)
    simfs.root(root)
    simfs.pause(True)
    L.simfs_sched(out, inn)

    def yield_(b):
        os.write(out, bytes([b]))
        if os.read(inn, 1) != b'g':
            os._exit(96)
    held = {}
    for i, op in enumerate(ops):
        yield_(BEGIN)
        simfs.begin(op.get('faults', ()), op.get('quota'))
        simfs.pause(False)
        try:
            o, v = 'ok', store.run_op(op, root, held)
        except BaseException as e:
            o, v = 'exc', store.exc_info(e)
        simfs.pause(True)
        ev, fired = simfs.end()
        with open(recfile, 'ab') as f:
            pickle.dump({'i': i, 'out': o, 'val': v, 'fired': fired,
                         'n': len(ev)}, f, 4)
        yield_(END)


def run_procs(plan, root, box, res):
    """Returns per client a list of records with t0, t1, and the death code."""
    sch = Sched(plan)
    kids = []
    for c, ops in enumerate(plan['clients']):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        rec = os.path.join(box, 'rec%d' % c)
        pid = os.fork()
        if pid == 0:
            code = 97
            try:
                for k in kids:
                    os.close(k['out'])
                    os.close(k['in'])
                os.close(r1)
                os.close(w2)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                _client(ops, root, w1, r2, rec)
                code = 0
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        kids.append({'pid': pid, 'out': r1, 'in': w2, 'rec': rec,
                     'ops': [], 'rc': None, 'pend': None})
    stuck = None
    deadline = time.monotonic() + 90

    def advance(k):
        """Wait until the client yields again or ends."""
        left = deadline - time.monotonic()
        r, _, _ = select.select([k['out']], [], [], max(left, 0.01))
        if not r:
            return False
        b = os.read(k['out'], 1)
        k['pend'] = b[0] if b else None
        if not b:
            k['rc'] = os.waitstatus_to_exitcode(os.waitpid(k['pid'], 0)[1])
        return True
    try:
        for c, k in enumerate(kids):
            if not advance(k):
                stuck = c
        while stuck is None:
            ready = [c for c, k in enumerate(kids) if k['rc'] is None]
            if not ready:
                break
            c = sch.pick(ready)
            k = kids[c]
            b = k['pend']
            t = sch.step
            if b == BEGIN:
                k['ops'].append([t, None])
            elif b == END:
                k['ops'][-1][1] = t
            res.log.append((c, b))
            os.write(k['in'], b'g')
            if not advance(k):
                stuck = c
            if sch.step > 20000:
                stuck = c
        sch.step += 1
    finally:
        for k in kids:
            if k['rc'] is None:
                os.kill(k['pid'], signal.SIGKILL)
                os.waitpid(k['pid'], 0)
            os.close(k['out'])
            os.close(k['in'])
    out = []
    for c, k in enumerate(kids):
        recs = []
        try:
            with open(k['rec'], 'rb') as f:
                while True:
                    try:
                        recs.append(pickle.load(f))
                    except EOFError:
                        break
        except FileNotFoundError:
            pass
        if k['rc'] == 97:
            raise core.HarnessError('client failed')
        for i, (t0, t1) in enumerate(k['ops']):
            if i < len(recs):
                recs[i]['t0'] = t0
                recs[i]['t1'] = t1 if t1 is not None else sch.step
            else:
                recs.append({'i': i, 'out': 'crash', 'val': None, 't0': t0,
                             't1': sch.step, 'fired': {'crash': 1}, 'n': 0,
                             'rc': k['rc']})
        out.append(recs)
    switches = len(sch.decisions) if sch.given is None else len(sch.given)
    return out, sch.decisions, stuck, switches


def _threads_body(plan, root):
    os.chdir(root)
    rng = None
    if plan.get('decisions') is None:
        rng = random.Random('conct/%s' % plan['seed'])
    sim = threads.Sim(rng, plan.get('decisions'), p_switch=plan['p'],
                      calls=plan.get('calls', False))
    out = [[] for _ in plan['clients']]
    clock = [0]

    def client(c, ops):
        def fn():
            for i, op in enumerate(ops):
                clock[0] += 1
                t0 = clock[0]
                try:
                    o, v = 'ok', store.run_op(op, root, {})
                except threads.Deadlock:
                    raise
                except BaseException as e:
                    o, v = 'exc', store.exc_info(e)
                clock[0] += 1
                out[c].append({'i': i, 'out': o, 'val': v, 'fired': {},
                               't0': t0, 't1': clock[0], 'n': 0})
        return fn
    sim.run([client(c, ops) for c, ops in enumerate(plan['clients'])],
            timeout=60)
    return out, sim.decisions, sim.deadlock, len(sim.trail), \
        [(a, b, w) for a, b, w in sim.trail], sim.step


class Conc:
    """One concurrent run: .recs per client, .init entries, .snap0/.snap1."""

    def __init__(self, plan, res, judge_fn):
        with core.Box() as box:
            root = os.path.join(box, 'w')
            self.root = root
            store.prepare(plan, root)
            self.init = []
            if plan.get('init'):
                lf = core.Life(store.life, {'ops': plan['init']}, 0, root)
                for r in lf.records(60):
                    if 'ev' in r:
                        self.init.append(r)
            self.snap0 = store.snapshot(root)
            if plan['kind'] == 'proc':
                self.recs, dec, self.stuck, sw = run_procs(
                    plan, root, box, res)
                n = len(res.log)
            else:
                rc, v = core.isolated(_threads_body, plan, root, timeout=90)
                if v is None:
                    raise core.HarnessError('thread run ended with %s' % rc)
                self.recs, dec, self.stuck, sw, trail, n = v
                res.log += trail
                if self.stuck is None and any(
                        len(r) < len(o) for r, o in
                        zip(self.recs, plan['clients'])):
                    self.stuck = 'a client did not finish'
            if plan.get('decisions') is None:
                res.plan = dict(plan, decisions=dec)
            self.snap1 = store.snapshot(root)
            res.steps += n
            res.probe('client switches', sw)
            res.nontrivial = sw > 1
            for c, rs in enumerate(self.recs):
                for r in rs:
                    res.log.append((c, r['i'], r['out'], r['t0'], r['t1'],
                                    r['val'][0] if r['out'] == 'exc' else ''))
                    for k, v in r['fired'].items():
                        res.fault(k, v)
                    res.probe('%s %s (%s)' % (plan['clients'][c][r['i']]['op'],
                                              r['out'], plan['kind']))
            res.sig = core.digest(*res.log)
            judge_fn(self, plan, res)

    def rel(self, val):
        return os.path.normpath(os.path.relpath(val, self.root)
                                if os.path.isabs(val) else val)

    def loads(self, lops):
        """Results of loads made by a new process after the run."""
        root = self.root

        def body(send):
            os.chdir(root)
            for lop in lops:
                try:
                    send(('ok', store.do_load(lop, root)))
                except BaseException as e:
                    send(('exc', store.exc_info(e)))
        lf = core.Life(body)
        recs = lf.records(60)
        while len(recs) < len(lops):
            recs.append(('exc', ('died', [], 'the loading process died')))
        return recs


def lab(c, op):
    return 'client %d: %s %s %s%s' % (
        c, op['op'], op.get('fn') or op['t'], op['path'],
        '' if op.get('ovw', True) else ' overwrite=False')


def shrink(plan):
    d = plan.get('decisions') or []
    for c in range(len(plan['clients'])):
        if len(plan['clients']) > 1:
            m = {j: (j if j < c else j - 1)
                 for j in range(len(plan['clients'])) if j != c}
            yield dict(plan, clients=plan['clients'][:c]
                       + plan['clients'][c + 1:],
                       decisions=[[s, m[t]] for s, t in d if t in m])
    for cand in core.drop_each(d):
        yield dict(plan, decisions=cand)
    for c, ops in enumerate(plan['clients']):
        for cand in core.drop_each(ops):
            if cand:
                yield dict(plan, clients=plan['clients'][:c] + [cand]
                           + plan['clients'][c + 1:])
        for i, o in enumerate(ops):
            if o.get('faults'):
                no = [{k: v for k, v in x.items() if k != 'faults'}
                      if j == i else x for j, x in enumerate(ops)]
                yield dict(plan, clients=plan['clients'][:c] + [no]
                           + plan['clients'][c + 1:])
    if plan.get('pre'):
        for cand in core.drop_each(plan['pre']):
            yield dict(plan, pre=cand)


def _base(rng, kind=None):
    kind = kind or rng.choice(['proc', 'proc', 'thread'])
    p = {'mode': 'conc', 'kind': kind, 'seed': rng.randrange(1 << 40),
         'p': rng.choice([0.1, 0.3, 0.6]), 'decisions': None}
    if kind == 'thread':
        p['p'] = rng.choice([0.05, 0.15, 0.4])
        p['calls'] = rng.random() < 0.4
    return p


def types_for(kind):
    t = ['img', 'txt', 'json', 'pkl', 'hdf', 'stream']
    return t + ['plot'] if kind == 'proc' else t


def _inject(rng, op, crash=0.6):
    k = simfs.CRASH_BEFORE if rng.random() < crash else simfs.ERR
    op['faults'] = [[rng.randrange(0, 22), k,
                     0 if k == simfs.CRASH_BEFORE else rng.choice(
                         [5, 28, 13]), 0]]


# ------------------------------------------------ C04: one path, many clients
def gen_register(rng):
    p = _base(rng)
    g = filegen.Gen(rng)
    types = [t for t in types_for(p['kind']) if t in store.ATOMIC]
    s = g.good_slot(types)
    path = g.stored_path(s)
    s['path'] = path
    p['pre'] = g.neighbours([s], False)
    p['pre'] = [f for f in p['pre'] if f['path'] != path]
    p['init'] = [dict(g.save(s, ovw=1.0), ovw=True)] \
        if rng.random() < 0.85 else []
    n = rng.choice([2, 2, 3])
    cl = []
    for c in range(n):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if c == 0 or rng.random() < 0.45:
                op = g.save(s, ovw=1.0)
                if p['kind'] == 'proc' and rng.random() < 0.2:
                    _inject(rng, op)
                ops.append(op)
            else:
                ops.append(g.load(s, wrong=0.0))
        cl.append(ops)
    p['clients'] = cl
    if s['fam'] == 'hdf':
        for op in p['init'] + sum(cl, []):
            if op['op'] == 'save':
                op.update(key='entry', val=g.array(3))
            else:
                for k in ('index', 'axis', 'tuple', 'pat', 'disp'):
                    op.pop(k, None)
                op.update(fn='file', key='entry/data')
    return p


def run_register(plan):
    res = core.Result()
    Conc(plan, res, judge_register)
    return res


def judge_register(cc, plan, res):
    if cc.stuck is not None:
        res.fail('stuck', 'client %s does not come to an end' % (cc.stuck,))
        return
    writes, reads = [], []
    for op, r in zip(plan.get('init', []), cc.init):
        if r['out'] == 'ok':
            writes.append((content_of(op), -2, -1, True))
    path = os.path.normpath((plan.get('init') or sum(plan['clients'], []))
                            [0]['path'])
    for c, (ops, recs) in enumerate(zip(plan['clients'], cc.recs)):
        for op, r in zip(ops, recs):
            if op['op'] == 'save':
                writes.append((content_of(op), r['t0'], r['t1'],
                               r['out'] == 'ok'))
                if r['out'] == 'exc' and not r['fired']:
                    res.fail('save-failed', '%s raised %s: %s while others '
                             'worked on the same path'
                             % (lab(c, op), r['val'][0], r['val'][2]))
            elif r['out'] != 'crash':
                reads.append((lab(c, op), op, r['t0'], r['t1'], r['out'],
                              r['val']))
    end = 10 ** 9
    if writes:
        lop = {'op': 'load', 't': writes[0][0]['t'], 'path': path}
        if lop['t'] == 'hdf':
            lop.update(fn='file', key='entry/data')
        out, val = cc.loads([lop])[0]
        reads.append(('load of %s by a new process' % path, lop, end, end + 1,
                      out, val))
    ext = os.path.splitext(path)[1].lower()
    for name, op, t0, t1, out, val in reads:
        must = any(ok and w1 < t0 for _, _, w1, ok in writes)
        if out == 'exc':
            if must:
                res.fail('not-loadable', '%s raised %s: %s although a '
                         'complete file had been there'
                         % (name, val[0], val[2]))
            continue
        cand = [w for w in writes if w[1] < t1 and not any(
            v[3] and v[1] > w[2] and v[2] < t0 for v in writes)]
        # a save that died or failed may still have taken effect: it never
        # hides another one
        if not any(judge(w[0], op, ext, val) for w in cand):
            old = any(judge(w[0], op, ext, val) for w in writes)
            res.fail('stale' if old else 'wrong-data',
                     '%s returned %s, %s' % (name, brief(val), (
                         'which had been replaced' if old else
                         'which nobody saved there')))


# ------------------------------------- C01: savers that must not overwrite
def gen_noclobber(rng):
    p = _base(rng)
    g = filegen.Gen(rng)
    slots = [g.good_slot(types_for(p['kind']))
             for _ in range(rng.choice([1, 1, 2]))]
    p['pre'] = g.neighbours(slots, True)
    p['init'] = []
    cl = []
    for c in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            op = g.save(rng.choice(slots), ovw=0.0)
            if p['kind'] == 'proc' and rng.random() < 0.12:
                _inject(rng, op)
            ops.append(op)
        cl.append(ops)
    p['clients'] = cl
    return p


def run_noclobber(plan):
    res = core.Result()
    Conc(plan, res, judge_noclobber)
    return res


def judge_noclobber(cc, plan, res):
    if cc.stuck is not None:
        res.fail('stuck', 'client %s does not come to an end' % (cc.stuck,))
        return
    for p, was in cc.snap0.items():
        if was[0] != 'd' and cc.snap1.get(p) != was:
            res.fail('clobbered', 'the file %s that was there before was '
                     'changed: %s -> %s' % (p, was, cc.snap1.get(p)))
    given, todo = {}, []
    for c, (ops, recs) in enumerate(zip(plan['clients'], cc.recs)):
        for op, r in zip(ops, recs):
            if r['out'] == 'ok':
                rel = cc.rel(r['val'])
                if rel in given:
                    res.fail('same-name', '%s and %s were both given %s'
                             % (given[rel], lab(c, op), rel))
                given[rel] = lab(c, op)
                if rel in cc.snap0:
                    res.fail('existing-path', '%s was given %s, which existed'
                             % (lab(c, op), rel))
                todo.append((c, op, rel))
            elif r['out'] == 'exc' and not r['fired']:
                res.fail('save-failed', '%s raised %s: %s while others saved '
                         'in the same folder'
                         % (lab(c, op), r['val'][0], r['val'][2]))
    check_stored(cc, todo, res)


def check_stored(cc, todo, res):
    lops = [store.default_load(op, rel) for _, op, rel in todo]
    for (c, op, rel), lop, (out, val) in zip(todo, lops, cc.loads(lops)):
        ext = os.path.splitext(rel)[1].lower()
        if out != 'ok':
            res.fail('not-loadable', '%s stored its data in %s, which does '
                     'not load: %s: %s' % (lab(c, op), rel, val[0], val[2]))
        elif not judge(content_of(op), lop, ext, val):
            x = expect(content_of(op), lop, ext)
            res.fail('wrong-data', '%s: its file %s holds %s, stored: %s'
                     % (lab(c, op), rel, brief(val), brief(x[1])))


# ------------------------------------------- C18: clients on different files
def gen_twins(rng, p):
    """Clients doing the same thing at the same time: files of one type,
    shape and folder that differ in their values only."""
    g = filegen.Gen(rng)
    types = types_for(p['kind'])
    s = g.good_slot(types + ['img', 'img'] * 2)
    first = dict(g.save(s, ovw=1.0))
    ext = os.path.splitext(g.stored_path(s))[1]
    d = rng.choice(['', 'a/'])
    p['init'], p['pre'], p['clients'] = [], [], []
    for c in range(rng.choice([2, 2, 3])):
        op = dict(first, path=d + 'f%d%s' % (c, ext), spell='abs',
                  val=dict(first['val'], seed=g.seed()))
        if first['val']['k'] == 'list':
            op['val']['like'] = first['val'].get('like',
                                                 first['val']['seed'])
        p['init'].append(op)
        slot = dict(s, path=op['path'], saved=op)
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.65:
                ops.append(g.load(slot, wrong=0.0))
            else:
                q = dict(op, val=dict(op['val'], seed=g.seed()))
                slot['saved'] = q
                ops.append(q)
        p['clients'].append(ops)
    return p


def gen_disjoint(rng):
    p = _base(rng, rng.choice(['proc', 'thread']))
    if rng.random() < (0.5 if p['kind'] == 'thread' else 0.1):
        return gen_twins(rng, p)
    g = filegen.Gen(rng)
    types = types_for(p['kind'])
    n = rng.choice([2, 2, 3, 4])
    d = rng.choice(['', 'new/deep', 'a', 'sp ace'])
    stems = rng.choice([['x', 'x', 'x', 'x'], ['x', 'y', 'z', 'w'],
                        ['x', 'x_0000', 'x_0001', 'x.1']])
    taken, cl = set(), []
    ro = g.good_slot(types)
    ro['path'] = 'ro/' + os.path.basename(g.stored_path(ro))
    p['init'] = [dict(g.save(ro, ovw=1.0))]
    ro['saved'] = p['init'][0]
    p['pre'] = []
    for c in range(n):
        slots = []
        for _ in range(rng.choice([1, 1, 2])):
            s = g.good_slot(types)
            ext = os.path.splitext(g.stored_path(s))[1]
            for st in [stems[c]] + ['q%d' % k for k in range(9)]:
                path = '/'.join(x for x in (
                    d if rng.random() < 0.8 else 'd%d' % c, st + ext) if x)
                if path not in taken:
                    break
            taken.add(path)
            s['path'] = path
            slots.append(s)
        ops = []
        victim = p['kind'] == 'proc' and rng.random() < 0.15
        for _ in range(rng.choice([1, 2, 3])):
            s = rng.choice(slots)
            x = rng.random()
            if x < 0.2:
                ops.append(g.load(ro, wrong=0.0))
            elif s['saved'] is None or x < 0.6:
                op = g.save(s, ovw=1.0)
                s['saved'] = op
                ops.append(op)
            else:
                ops.append(g.load(s, wrong=0.0))
        if victim:
            _inject(rng, rng.choice(ops))
        cl.append(ops)
    p['clients'] = cl
    return p


def run_disjoint(plan):
    res = core.Result()
    Conc(plan, res, judge_disjoint)
    return res


def judge_disjoint(cc, plan, res):
    if cc.stuck is not None:
        res.fail('stuck', 'client %s does not come to an end' % (cc.stuck,))
        return
    final = []
    ro = {}
    for op, r in zip(plan['init'], cc.init):
        if r['out'] == 'ok':
            ro[cc.rel(r['val'])] = op
            final.append((-1, op, cc.rel(r['val'])))
    used = {os.path.normpath(op['path']) for ops in plan['clients']
            for op in ops if op['op'] == 'save'}
    final = [f for f in final if f[2] not in used]
    for c, (ops, recs) in enumerate(zip(plan['clients'], cc.recs)):
        mine, hurt = dict(ro), False
        for op, r in zip(ops, recs):
            hurt |= bool(r['fired']) or r['out'] == 'crash'
            if r['out'] == 'crash':
                mine.pop(os.path.normpath(op['path']), None)
                break
            if op['op'] == 'save':
                if r['out'] == 'ok':
                    rel = cc.rel(r['val'])
                    mine[rel] = op
                else:
                    mine.pop(os.path.normpath(op['path']), None)
                    if not r['fired']:
                        res.fail('save-failed', '%s raised %s: %s while '
                                 'others worked on other files'
                                 % (lab(c, op), r['val'][0], r['val'][2]))
                continue
            rel = os.path.normpath(op['path'])
            if rel not in mine:
                continue
            cont = content_of(mine[rel])
            ext = os.path.splitext(rel)[1].lower()
            if r['out'] == 'exc':
                if not r['fired'] and not must_raise(cont, op, ext):
                    res.fail('load-failed', '%s raised %s: %s while others '
                             'worked on other files'
                             % (lab(c, op), r['val'][0], r['val'][2]))
            elif not judge(cont, op, ext, r['val']):
                x = expect(cont, op, ext)
                res.fail('wrong-data', '%s returned %s, stored: %s' % (
                    lab(c, op), brief(r['val']),
                    brief(x[1]) if len(x) > 1 else x))
        if not hurt:
            final += [(c, o, rel) for rel, o in mine.items()
                      if ro.get(rel) is not o]
    check_stored(cc, final, res)
