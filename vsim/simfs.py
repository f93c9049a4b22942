"""Python side of the storage / memory / process-scheduler seam (shim/simfs.c)."""
import ctypes
import os

CLS = ['', 'OPEN_R', 'OPEN_W', 'WRITE', 'READ', 'CLOSE', 'TRUNC', 'SYNC',
       'RENAME', 'UNLINK', 'MKDIR', 'STAT', 'LINK', 'OPENDIR', 'LOCK']
C = {n: i for i, n in enumerate(CLS) if n}
ERR, SHORT, CRASH_BEFORE, CRASH_AFTER, CRASH_TORN, EINTR, STICKY = range(1, 8)
KIND = ['', 'error', 'short', 'crash_before', 'crash_after', 'crash_torn',
        'eintr', 'sticky_error']
CRASH_RC = 137
STUCK_RC = 98

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['VSIM_SHIM'])
        _lib.simfs_quota.argtypes = [ctypes.c_long]
        _lib.simfs_budget.argtypes = [ctypes.c_long]
        _lib.simfs_mask.argtypes = [ctypes.c_uint32]
        _lib.simfs_dirorder.argtypes = [ctypes.c_uint64, ctypes.c_int]
        _lib.simmem_fill.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _lib.simclock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64,
                                  ctypes.c_int, ctypes.c_int64]
        _lib.siment.argtypes = [ctypes.c_int, ctypes.c_uint64]
        _lib.simmem_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long]
    return _lib


def root(path):
    lib().simfs_root(path.encode() if path else b'')


def begin(faults=(), quota=None, budget=20000):
    L = lib()
    L.simfs_clear_plan()
    L.simfs_begin()
    for (idx, kind, arg, cls) in faults:
        L.simfs_add_fault(idx, kind, arg, cls)
    L.simfs_quota(-1 if quota is None else quota)
    L.simfs_budget(budget)


def end():
    """Stop injecting; return (events, number of faults fired by kind)."""
    L = lib()
    ev = log()
    q = L.simfs_quota_hits()
    fired = {}
    for e in ev:
        if e[2]:
            fired[KIND[e[2]]] = fired.get(KIND[e[2]], 0) + 1
    if q:
        fired['disk_full'] = q
    L.simfs_clear_plan()
    L.simfs_quota(-1)
    L.simfs_budget(-1)
    return ev, fired


def log():
    L = lib()
    out = []
    c, r, f = ctypes.c_int(), ctypes.c_int(), ctypes.c_int()
    s, p = ctypes.c_long(), ctypes.c_uint32()
    for i in range(L.simfs_log_len()):
        L.simfs_log_get(i, ctypes.byref(c), ctypes.byref(r), ctypes.byref(f),
                        ctypes.byref(s), ctypes.byref(p))
        out.append((c.value, r.value, f.value, s.value))
    return out


def pause(on):
    lib().simfs_pause(1 if on else 0)
