"""What the simulator owns: the disk and clock (simdisk.so), randomness, uuids,
locks, and how la is imported.  Imported before la."""
import ctypes
import hashlib
import imp
import os
import random
import struct
import sys
import threading
import thread
import uuid

REPO = os.environ['SIM_REPO']
LAROOT = os.path.join(REPO, 'la') + os.sep

sd = ctypes.CDLL(os.environ['SIM_DISK_SO'])
_i64 = ctypes.c_int64
sd.sim_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int,
                         ctypes.c_long, ctypes.c_int, ctypes.c_char_p]
sd.sim_fault_fired.restype = ctypes.c_long
sd.sim_quota.argtypes = [_i64]
sd.sim_quota_left.restype = _i64
sd.sim_quota_denied.restype = ctypes.c_long
sd.sim_events.restype = ctypes.c_long
sd.sim_log_count.restype = ctypes.c_long
sd.sim_log_data.restype = ctypes.c_void_p
sd.sim_log_data.argtypes = [_i64]
sd.sim_path.restype = ctypes.c_char_p
sd.sim_clock.argtypes = [ctypes.c_int, _i64, _i64]
sd.sim_clock_jump.argtypes = [_i64]
sd.sim_clock_now.restype = _i64
sd.sim_clock_reads.restype = _i64
sd.sim_alloc_arm.argtypes = [ctypes.c_long, ctypes.c_long]
sd.sim_alloc_fired.restype = ctypes.c_long
sd.sim_alloc_seen.restype = ctypes.c_long


class Rec(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int32) for n in ('op', 'file', 'file2', 'action')] + \
               [(n, _i64) for n in ('off', 'len', 'res')] + \
               [('err', ctypes.c_int32), ('flags', ctypes.c_int32),
                ('ino', ctypes.c_int32), ('pad', ctypes.c_int32), ('data', _i64)]

sd.sim_log_rec.restype = ctypes.POINTER(Rec)
sd.sim_log_rec.argtypes = [ctypes.c_long]

OPEN, CLOSE, READ, WRITE, TRUNC, FSYNC, RENAME, UNLINK, CREATE = \
    1, 2, 4, 8, 16, 32, 64, 128, 256
ERR, SHORT, CRASH, TORN, CRASH_AFTER = 1, 2, 3, 4, 5
CLASSNAME = {OPEN: 'open', CLOSE: 'close', READ: 'read', WRITE: 'write',
             TRUNC: 'truncate', FSYNC: 'fsync', RENAME: 'rename',
             UNLINK: 'unlink', CREATE: 'create'}
ACTIONNAME = {ERR: 'error', SHORT: 'short', CRASH: 'crash', TORN: 'torn',
              CRASH_AFTER: 'crash-after'}
CRASHED = 86

# ---- imports of la --------------------------------------------------------


class Finder(object):
    """la.cflabel comes from the extension built from /repo's cflabel.pyx;
    modules in `blocked` are not installed on the simulated machine."""
    blocked = ()

    def find_module(self, name, path=None):
        if name in self.blocked or name.split('.')[0] in self.blocked:
            return self
        if name == 'la.cflabel' and os.environ.get('SIM_CFLABEL_SO'):
            return self
        return None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        if name in self.blocked or name.split('.')[0] in self.blocked:
            raise ImportError('No module named %s (simulated)' % name)
        return imp.load_dynamic(name, os.environ['SIM_CFLABEL_SO'])

finder = Finder()


def install():
    sys.meta_path.insert(0, finder)
    sys.path.insert(0, REPO)

# ---- randomness and uuids -------------------------------------------------

_uuid_n = [0]


def _uuid4():
    _uuid_n[0] += 1
    h = hashlib.md5('sim%d' % _uuid_n[0]).digest()
    return uuid.UUID(bytes=h, version=4)

uuid.uuid4 = _uuid4


def reseed(n):
    import numpy as np
    random.seed(n)
    np.random.seed(n % (2 ** 32))
    _uuid_n[0] = 0
    sd.sim_clock(1, 1400000000 * 1000000, 1000)

# ---- locks ----------------------------------------------------------------

real_allocate = thread.allocate_lock
scheduler = [None]                # the active sched.Scheduler, if any


class SimLock(object):
    "A lock whose waiters wait in the simulator, never in the kernel."

    def __init__(self):
        self._l = real_allocate()

    def acquire(self, blocking=1, *a):
        s = scheduler[0]
        if s is None or not s.mine():
            return self._l.acquire(blocking)
        while True:
            if self._l.acquire(0):
                return True
            if not blocking:
                return False
            s.blocked()

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _alloc():
    return SimLock()


def install_locks():
    """Locks made from here on are simulated (call before importing la)."""
    thread.allocate_lock = _alloc
    thread.allocate = _alloc
    threading.Lock = _alloc
    threading._allocate_lock = _alloc
