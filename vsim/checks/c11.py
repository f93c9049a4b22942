"""C11: results don't depend on what was called before."""
import json

import numpy as np

import catalog
import core
import threads

ID = 'C11'
RULE = ('seeded histories of 4-10 steps in one process: calls (the same '
        'function with other values, options, shapes or one small change, '
        'and other functions), calls with refused arguments, calls '
        'interrupted at a seeded point, calls on the same argument objects '
        'refilled in place, changes of results already handed out; every '
        'completed call is compared with the same call in a fresh process, '
        'and all results handed out earlier are compared with their copies '
        'after every step. Non-trivial: the history holds at least one '
        'repeated function, refill, failure, interrupt or changed result')
MEASURE = 'digest of the steps and of their outcomes'
RUNS = {'quick': 9000, 'thorough': 300000}
WALL = {'quick': 170, 'thorough': 3300}
COMPONENTS = {
    'real': ['discorpy.prep', 'discorpy.proc', 'discorpy.post',
             'discorpy.util', 'numpy', 'scipy', 'scikit-image', 'opencv'],
    'simulated': ['delivery of interrupts (profile function)'],
    'stub': []}


def _interrupt(rng, spec):
    return {'op': 'interrupt', 'spec': spec,
            'at': int(10 ** rng.uniform(0, 3)) - 1,
            'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])}


def gen(rng, i, tier):
    n = catalog.NAMES[i % len(catalog.NAMES)]
    if rng.random() >= catalog.SLOW.get(n, 1.0):
        n = catalog.pick(rng)
    base = dict(catalog.draw(rng), f=n)
    steps = [{'op': 'call', 'spec': dict(base)}]
    if rng.random() < 0.25:
        # the first call of the process never comes to its end
        steps = [_interrupt(rng, rng.choice([
            dict(base), catalog.related(rng, base)]))] + steps
    last = base
    for _ in range(rng.randrange(3, 10) if n not in catalog.SLOW else 2):
        x = rng.random()
        if x < 0.08:
            s = dict(rng.choice([base, catalog.draw(rng)]))
            s['bad'] = rng.randrange(1000)
            steps.append({'op': 'call', 'spec': s})
        elif x < 0.2:
            steps.append(_interrupt(rng, catalog.related(rng, base)))
        elif x < 0.4:
            last = catalog.related(rng, last)
            steps.append({'op': 'refill', 'spec': last})
        elif x < 0.55:
            steps.append({'op': 'spoil', 'which': rng.randrange(8),
                          'seed': rng.randrange(1000)})
        elif x < 0.65:
            steps.append({'op': 'call', 'spec': dict(base)})
        elif x < 0.92:
            s = catalog.related(rng, rng.choice([base, last]))
            last = s
            steps.append({'op': 'call', 'spec': s})
        else:
            steps.append({'op': 'call', 'spec': catalog.draw(rng)})
    if steps[-1]['op'] in ('spoil', 'interrupt'):
        steps.append({'op': 'call', 'spec': dict(base)})
    return {'steps': steps}


def arrays(v):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays(x)


def _refill(old, new):
    """Put the values of `new` into the object `old`, in place if possible."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and \
            old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    if isinstance(old, list) and isinstance(new, list):
        k = [_refill(a, b) for a, b in zip(old, new)]
        old[:] = k + new[len(k):]
        return old
    return new


def _spoil(v, q):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in 'fiub':
            v[...] = v.dtype.type(q % 7)
        return
    if isinstance(v, (list, tuple)):
        for x in v:
            _spoil(x, q)
        if isinstance(v, list):
            v[:] = v[::-1] if q % 2 else v[:-1]


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def _session(plan):
    import warnings
    warnings.simplefilter('ignore')
    out = []
    objs = {}                 # function -> argument objects kept by the user
    held = []                 # [result, copy, kwargs]
    for st in plan['steps']:
        rec = {}
        if st['op'] == 'spoil':
            if held:
                h = held[st['which'] % len(held)]
                _spoil(h[0], st['seed'])
                h[1] = catalog.plain(h[0])
                # results that are views of one another change together
                for g in held:
                    if g is not h and _alias(g[0], h[0]):
                        g[1] = catalog.plain(g[0])
                # and so do argument objects the user holds
                for k in list(objs):
                    if _alias(h[0], objs[k]):
                        del objs[k]
        else:
            f, kw = catalog.build(st['spec'])
            if st['op'] == 'refill':
                have = objs.get(st['spec']['f'])
                if have is not None and have.keys() == kw.keys():
                    alias = [h for h in held if _alias(h[0], have)]
                    for k in kw:
                        have[k] = _refill(have[k], kw[k])
                    kw = have
                    for h in alias:
                        h[1] = catalog.plain(h[0])
            objs[st['spec']['f']] = kw
            if st['op'] == 'interrupt':
                inj = threads.Injector(st['at'], EXC[st['exc']])
                try:
                    with inj:
                        v = ('ok', f(**kw))
                except BaseException as e:
                    v = ('exc', type(e).__name__)
                rec['fired'] = inj.fired
                if inj.fired is None:
                    rec['out'] = (v[0], catalog.plain(v[1]))
            else:
                v = catalog.call(st['spec'], kw)
                rec['out'] = (v[0], catalog.plain(v[1]))
            if v[0] == 'ok':
                if _shared(v[1], kw):
                    rec['shared'] = True
                if hasattr(v[1], '__next__'):
                    v = ('ok', None)
                held.append([v[1], catalog.plain(v[1])])
                held[:] = held[-8:]
        for j, h in enumerate(held):
            if not catalog.same(h[0], h[1], 0, 0):
                rec['changed'] = (j - len(held), catalog.brief(h[1]),
                                  catalog.brief(h[0]))
        out.append(rec)
    return out


def _alias(a, b):
    return any(np.may_share_memory(x, y) for x in arrays(a)
               for y in arrays(b))


def _shared(v, kw):
    """Would a change of the result be a change of an argument?"""
    for a in arrays(v):
        for b in arrays(kw):
            try:
                if a.flags.writeable and np.may_share_memory(a, b) and \
                        np.shares_memory(a, b, max_work=100000):
                    return True
            except Exception:
                pass
    return False


def run(plan):
    res = core.Result()
    refs = [catalog.alone(s['spec']) if s['op'] in ('call', 'refill',
                                                   'interrupt') else None
            for s in plan['steps']]
    rc, v = core.isolated(_session, plan, timeout=120)
    if v is None and rc is None:
        # every call has ended when made alone
        rc, v = core.isolated(_session, plan, timeout=200)
        if v is None and rc is None:
            res.fail('hangs', 'the session does not end: %s' % [
                s['op'] + (' ' + catalog.show(s['spec']) if 'spec' in s
                           else '') for s in plan['steps']])
            res.sig = core.digest('hangs')
            return res
    if v is None:
        raise core.HarnessError('session ended with %s' % rc)
    seen = set()
    hist = []
    for i, (st, ref, rec) in enumerate(zip(plan['steps'], refs, v)):
        d = st['op'] + (' ' + catalog.show(st['spec']) if 'spec' in st else '')
        hist.append(d)
        res.steps += 1
        res.probe(st['op'])
        if 'spec' in st:
            res.nontrivial |= st['spec']['f'] in seen
            seen.add(st['spec']['f'])
        else:
            res.nontrivial = True
        if rec.get('fired'):
            res.fault('injected ' + st['exc'])
        res.log.append((d, rec.get('fired'), rec.get('out', ('',))[0],
                        catalog.brief(rec['out'][1]) if 'out' in rec else ''))
        if 'out' in rec:
            o = rec['out']
            if o[0] != ref[0] or not catalog.same(o[1], ref[1]):
                res.fail('differs', 'step %d, %s: alone %s %s; after %s it '
                         'gives %s %s' % (i, d, ref[0], catalog.brief(ref[1]),
                                          hist[:-1], o[0],
                                          catalog.brief(o[1])))
                break
        if 'shared' in rec:
            res.fail('shared', 'step %d, %s: the result is (a part of) an '
                     'argument, so changing one changes the other' % (i, d))
            break
        if 'changed' in rec:
            res.fail('result-changed', 'step %d, %s changed a result handed '
                     'out %d calls earlier: was %s, is %s (history %s)'
                     % (i, d, -rec['changed'][0], rec['changed'][1],
                        rec['changed'][2], hist[:-1]))
            break
    res.sig = core.digest(*res.log)
    return res


def shrink(plan):
    for c in core.drop_each(plan['steps']):
        if c:
            yield {'steps': c}
    for i, s in enumerate(plan['steps']):
        if s['op'] in ('refill', 'interrupt'):
            yield {'steps': plan['steps'][:i]
                   + [{'op': 'call', 'spec': s['spec']}]
                   + plan['steps'][i + 1:]}
        if s.get('spec', {}).get('tw'):
            t = dict(s['spec'])
            t.pop('tw')
            yield {'steps': plan['steps'][:i] + [dict(s, spec=t)]
                   + plan['steps'][i + 1:]}
