"""Simulator core: isolated lives, seeded runs, search, minimisation, reports."""
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('VSIM_SCRATCH', '/tmp')
REPO = os.environ.get('VSIM_REPO', '/repo')


class HarnessError(Exception):
    """The simulator itself went wrong (never a verdict about the code)."""


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:16]


def rng_for(seed, check, run):
    return random.Random('%s/%s/%s' % (seed, check, run))


# ------------------------------------------------------------ isolated lives
def _read_exact(fd, n, deadline):
    buf = b''
    while len(buf) < n:
        left = deadline - time.monotonic()
        if left <= 0:
            raise TimeoutError
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            raise TimeoutError
        b = os.read(fd, min(1 << 20, n - len(buf)))
        if not b:
            return None
        buf += b
    return buf


class Life:
    """One process life: a fork that streams pickled records to its parent."""

    def __init__(self, fn, *args, stderr=None):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            code = 97
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                dn = os.open(stderr or '/dev/null',
                             os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
                os.dup2(dn, 2)
                os.dup2(dn, 1)

                def send(obj):
                    b = pickle.dumps(obj, 4)
                    b = struct.pack('<Q', len(b)) + b
                    while b:
                        b = b[os.write(w, b):]
                try:
                    fn(send, *args)
                    code = 0
                except BaseException:
                    send(('__harness__', traceback.format_exc()))
                    code = 97
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r
        self.rc = None

    def records(self, timeout):
        """All records up to the end of the life; sets rc (None: timed out)."""
        out = []
        deadline = time.monotonic() + timeout
        try:
            while True:
                h = _read_exact(self.fd, 8, deadline)
                if h is None:
                    break
                b = _read_exact(self.fd, struct.unpack('<Q', h)[0], deadline)
                if b is None:
                    break
                rec = pickle.loads(b)
                if isinstance(rec, tuple) and rec and rec[0] == '__harness__':
                    self._reap(False)
                    raise HarnessError(rec[1])
                out.append(rec)
            self._reap(False)
        except TimeoutError:
            self._reap(True)
        finally:
            os.close(self.fd)
        return out

    def _reap(self, kill):
        if kill:
            os.kill(self.pid, signal.SIGKILL)
        st = os.waitpid(self.pid, 0)[1]
        self.rc = None if kill else os.waitstatus_to_exitcode(st)


def isolated(fn, *args, timeout=60):
    """fn(*args) in a fork of this process; returns (rc, value or None)."""
    def body(send):
        send(('v', fn(*args)))
    life = Life(body)
    recs = life.records(timeout)
    return life.rc, (recs[-1][1] if recs else None)


class Box:
    """A scratch folder for one run, removed afterwards."""
    n = 0

    def __enter__(self):
        Box.n += 1
        self.path = os.path.join(SCRATCH, 'b%d_%d' % (os.getpid(), Box.n))
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------ results
class Result:
    __slots__ = ('viol', 'sig', 'nontrivial', 'faults', 'steps', 'probes',
                 'log', 'plan')

    def __init__(self):
        self.viol = None          # dict(kind=..., msg=...)
        self.sig = ''             # digest of the interleaving / event history
        self.nontrivial = False
        self.faults = {}
        self.steps = 0            # simulated steps (events, switches, calls)
        self.probes = {}
        self.log = []             # normalised event log (for determinism)
        self.plan = None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, kind, msg):
        if self.viol is None:
            self.viol = {'kind': kind, 'msg': str(msg)[:1500]}


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


# ------------------------------------------------------------------- worker
def run_one(check, plan):
    """check.run(plan); in a new process each time where the state of the
    memory allocator matters."""
    if not getattr(check, 'FRESH', False):
        return check.run(plan)
    rc, v = isolated(check.run, plan, timeout=600)
    if v is None:
        raise HarnessError('run ended with %s' % rc)
    return v


def gen_run(check, seed, i, tier):
    def body():
        plan = check.gen(rng_for(seed, check.ID, i), i, tier)
        return plan, check.run(plan)
    if not getattr(check, 'FRESH', False):
        return body()
    rc, v = isolated(body, timeout=600)
    if v is None:
        raise HarnessError('run ended with %s' % rc)
    return v


def _worker(check, seed, idxs, tier, deadline, wfd):
    def send(obj):
        b = pickle.dumps(obj, 4)
        b = struct.pack('<Q', len(b)) + b
        while b:
            b = b[os.write(wfd, b):]
    for i in idxs:
        if time.monotonic() > deadline:
            break
        try:
            plan, res = gen_run(check, seed, i, tier)
            if res.plan is not None:
                plan = res.plan
            msg = ('r', i, plan if (res.viol or i < 3) else None, res.viol,
                   res.sig, res.nontrivial, res.faults, res.steps, res.probes,
                   digest(*res.log) if res.log else '')
        except Exception:
            msg = ('e', i, traceback.format_exc())
        send(msg)
    send(('d',))


def run_batch(check, seed, count, tier, wall, workers=None, start=0,
              stop_on_violation=True, on_result=None):
    """Search: `count` seeded runs over forked workers.  The runs and their
    outcome do not depend on the number of workers."""
    workers = workers or min(8, os.cpu_count() or 1)
    workers = max(1, min(workers, count))
    deadline = time.monotonic() + wall
    procs = {}
    for w in range(workers):
        r, wr = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for o in procs:
                    os.close(o)
                os.setpgid(0, 0)
                _worker(check, seed, range(start + w, start + count, workers),
                        tier, deadline, wr)
            except BaseException:
                pass
            finally:
                os._exit(0)
        os.close(wr)
        procs[r] = [pid, b'', False]
    results, errors = [], []
    hard = deadline + 240
    try:
        while procs:
            rl, _, _ = select.select(list(procs), [], [], 1.0)
            if not rl and time.monotonic() > hard:
                raise HarnessError('workers did not finish in time')
            for fd in rl:
                b = os.read(fd, 1 << 20)
                p = procs[fd]
                if not b:
                    if not p[2]:
                        errors.append((-1, 'worker died'))
                    os.waitpid(p[0], 0)
                    os.close(fd)
                    del procs[fd]
                    continue
                p[1] += b
                while len(p[1]) >= 8:
                    n = struct.unpack('<Q', p[1][:8])[0]
                    if len(p[1]) < 8 + n:
                        break
                    m = pickle.loads(p[1][8:8 + n])
                    p[1] = p[1][8 + n:]
                    if m[0] == 'd':
                        p[2] = True
                    elif m[0] == 'e':
                        errors.append((m[1], m[2]))
                    else:
                        results.append(m[1:])
                        if on_result:
                            on_result(m[1:])
            if stop_on_violation and any(r[2] for r in results):
                break
            if len(errors) > 20 and len(errors) * 50 > len(results):
                break
    finally:
        for fd, p in procs.items():
            try:
                os.killpg(p[0], signal.SIGKILL)
            except OSError:
                try:
                    os.kill(p[0], signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(p[0], 0)
            os.close(fd)
    results.sort(key=lambda r: r[0])
    return results, errors


# -------------------------------------------------------------- minimisation
def minimise(check, plan, kind, budget=60.0, tries=400):
    """Shrink a failing plan while the same kind of violation persists."""
    t0 = time.monotonic()
    best, n = plan, 0
    improved = True
    while improved and time.monotonic() - t0 < budget and n < tries:
        improved = False
        for cand in check.shrink(best):
            if time.monotonic() - t0 > budget or n >= tries:
                break
            n += 1
            try:
                res = run_one(check, cand)
            except Exception:
                continue
            if res.viol and res.viol['kind'] == kind:
                best = res.plan if res.plan is not None else cand
                improved = True
                break
    return best, n


def drop_each(seq):
    """Candidates with halves, then single elements removed (ddmin order)."""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            cand = seq[:i] + seq[i + size:]
            if len(cand) < n:
                yield cand
        size //= 2


# -------------------------------------------------------------------- report
def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'known': [], 'fixed': []}


def plan_digest(plan):
    return digest(json.dumps(plan, sort_keys=True, default=str))


def jdump(obj, path):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=_jdef)


def _jdef(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)
