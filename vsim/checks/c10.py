"""C10: calls from several threads give the results of calls made alone."""
import random

import catalog
import core
import threads

ID = 'C10'
RULE = ('seeded runs of 2-4 threads with 1-2 calls of processing functions '
        'each (mostly the same function with other values, options or one '
        'small change; shared or separate argument objects), preempted at '
        'source lines and around calls of C functions of the library by a '
        'seeded schedule, in a process in which the library was never '
        'called; every result is compared with the same call alone in a '
        'fresh process. Non-trivial: at least one preemption inside a call')
MEASURE = ('digest of the calls and of the sequence of (preempted thread, '
           'next thread, source position) at all switches')
RUNS = {'quick': 6000, 'thorough': 300000}
WALL = {'quick': 170, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy.prep', 'discorpy.proc', 'discorpy.post',
             'discorpy.util', 'numpy', 'scipy', 'scikit-image', 'opencv',
             'Python threads'],
    'simulated': ['thread scheduler (trace functions and a baton)',
                  "the library's own locks"],
    'stub': []}
ASSUMPTIONS = ['a call into a C extension is one step of the schedule']


def gen(rng, i, tier):
    # every function in turn, so that none is left out by chance
    n = catalog.NAMES[i % len(catalog.NAMES)]
    if rng.random() >= catalog.SLOW.get(n, 1.0):
        n = catalog.pick(rng)
    base = catalog.draw(rng, [n]) if n not in catalog.SLOW else dict(
        catalog.draw(rng), f=n)
    ths = []
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        calls = []
        for _ in range(rng.choice([1, 1, 2]) if n not in catalog.SLOW else 1):
            x = rng.random()
            if x < 0.25:
                calls.append(dict(base))
            elif x < 0.8:
                calls.append(catalog.related(rng, base))
            else:
                calls.append(catalog.draw(rng))
            if rng.random() < 0.04:
                calls[-1]['bad'] = rng.randrange(1000)
        ths.append(calls)
    return {'threads': ths, 'share': rng.random() < 0.6,
            'p': 10 ** (rng.uniform(-2.2, -0.3) if rng.random() < .8
                          else rng.uniform(-3.5, -2)), 'calls': rng.random() < 0.4,
            'sseed': rng.randrange(10 ** 9)}


def _session(plan):
    import json
    import warnings
    warnings.simplefilter('ignore')
    shared = {}

    def args(spec):
        if not plan['share']:
            return None
        k = json.dumps(spec, sort_keys=True)
        if k not in shared:
            shared[k] = catalog.build(spec)[1]
        return shared[k]

    def body(calls):
        # arguments are made before the simulation starts
        made = [(c, args(c) or catalog.build(c)[1]) for c in calls]

        def fn():
            out = []
            for c, kw in made:
                o, v = catalog.call(c, kw)
                out.append((o, catalog.plain(v)))
            return out
        return fn
    fns = [body(c) for c in plan['threads']]
    if 'decisions' in plan:
        sim = threads.Sim(decisions=plan['decisions'], calls=plan['calls'])
    else:
        sim = threads.Sim(rng=random.Random(plan['sseed']), p_switch=plan['p'],
                          calls=plan['calls'])
    res = sim.run(fns, timeout=100)
    out = []
    for r in res:
        if r is not None and r[0] == 'exc':
            r = ('exc', repr(r[1]))
        out.append(r)
    return out, sim.decisions, sim.trail, sim.step, sim.deadlock


def run(plan):
    res = core.Result()
    refs = [[catalog.alone(c) for c in calls] for calls in plan['threads']]
    rc, v = core.isolated(_session, plan, timeout=150)
    if v is None:
        raise core.HarnessError('session ended with %s' % rc)
    out, dec, trail, steps, dead = v
    if 'decisions' not in plan:
        plan = dict(plan, decisions=dec)
    res.plan = plan
    res.steps = steps
    sw = [t for t in trail if t[2] not in ('end',)]
    res.nontrivial = bool(sw)
    res.fault('preemption', len(sw))
    res.probe('lock waits', sum(t[2] == 'lock' for t in trail))
    res.log = [[catalog.show(c) for c in t] for t in plan['threads']] + trail
    res.sig = core.digest(*res.log)
    if dead:
        if dead.startswith('no progress'):
            raise core.HarnessError(dead)
        res.fail('deadlock', '%s: %s' % (dead, [
            [catalog.show(c) for c in t] for t in plan['threads']]))
        return res
    for t, (calls, ref, r) in enumerate(zip(plan['threads'], refs, out)):
        if r is None or r[0] != 'ok':
            raise core.HarnessError('thread ended with %s' % (r,))
        for c, a, b in zip(calls, ref, r[1]):
            res.probe('calls')
            res.log.append((b[0], catalog.brief(b[1])))
            if b[0] != a[0] or not catalog.same(b[1], a[1]):
                res.fail('differs', 'thread %d, %s: alone %s %s; together '
                         'with %s it gives %s %s' % (
                             t, catalog.show(c), a[0], catalog.brief(a[1]),
                             [[catalog.show(q) for q in x] for i, x in
                              enumerate(plan['threads']) if i != t],
                             b[0], catalog.brief(b[1])))
                return res
    return res


def shrink(plan):
    ths = plan['threads']
    if len(ths) > 2:
        for i in range(len(ths)):
            q = dict(plan, threads=ths[:i] + ths[i + 1:])
            q.pop('decisions', None)
            yield q
            yield dict(q, p=0.1)
    for i, t in enumerate(ths):
        if len(t) > 1:
            for j in range(len(t)):
                q = dict(plan, threads=ths[:i] + [t[:j] + t[j + 1:]]
                         + ths[i + 1:])
                q.pop('decisions', None)
                yield q
                yield dict(q, p=0.1)
    d = plan.get('decisions')
    if d:
        for c in core.drop_each(d):
            yield dict(plan, decisions=c)
