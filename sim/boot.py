"""Installs the seams, then imports the code under test.

Seams: wall clock (datetime/time), storage (open & co., see simfs), locks
(threading.Lock/RLock become scheduler-aware), hashes of identity-hashed
gdspy objects (they depend on memory addresses; here: seeded).
"""
import datetime as _dt
import os
import sys
import threading
import time as _time
import warnings

from . import simfs

real_time = _time.time
real_monotonic = _time.monotonic
real_datetime = _dt.datetime


class Clock(object):
    """Readings come from a seeded script; every reading is logged."""

    def __init__(self):
        self.now = real_datetime(2001, 2, 3, 4, 5, 6)
        self.step = _dt.timedelta(0)
        self.jumps = {}
        self.readings = []
        self.yield_point = None

    def reset(self, now, step_s=0.0, jumps=None):
        self.now = now
        self.step = _dt.timedelta(seconds=step_s)
        self.jumps = dict(jumps or {})
        self.readings = []

    def read(self):
        n = len(self.readings)
        if n in self.jumps:
            try:
                self.now = self.now + _dt.timedelta(seconds=self.jumps[n])
            except OverflowError:
                pass
        else:
            try:
                self.now = self.now + self.step
            except OverflowError:
                pass
        self.readings.append(self.now)
        return self.now


clock = Clock()


class _Meta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real_datetime)


class SimDateTime(_dt.datetime, metaclass=_Meta):
    @classmethod
    def _wrap(cls, d, tz=None):
        r = real_datetime(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)
        return r if tz is None else r.replace(tzinfo=_dt.timezone.utc).astimezone(tz)

    @classmethod
    def now(cls, tz=None):
        return cls._wrap(clock.read(), tz)

    @classmethod
    def today(cls):
        return cls._wrap(clock.read())

    @classmethod
    def utcnow(cls):
        return cls._wrap(clock.read())


_epoch = real_datetime(1970, 1, 1)


def _sim_time():
    return (clock.read() - _epoch).total_seconds()


class SimDate(_dt.date):
    @classmethod
    def today(cls):
        return clock.read().date()


# -- locks -------------------------------------------------------------------
import _thread

scheduler = None  # the active sched.Scheduler


class SimLock(object):
    """Lock whose waiting is done by the simulated scheduler."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = scheduler
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while True:
            if self._real.acquire(False):
                self._owner = me
                self._count = 1
                return True
            if not blocking:
                return False
            if s is None or not s.controls(me):
                return self._real.acquire(True, timeout)
            s.blocked()

    def release(self):
        if self._reentrant:
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _thread.allocate_lock()
        self._owner = None

    def _is_owned(self):
        return self._owner == _thread.get_ident()


class SimRLock(SimLock):
    _reentrant = True


gdspy = None
pkgdir = None


def install(path):
    """path: directory produced by build.build()."""
    global gdspy, pkgdir
    sys.dont_write_bytecode = True
    os.environ["TZ"] = "UTC"
    _time.tzset()
    sys.path.insert(0, path)
    simfs.install()
    import numpy  # noqa: F401  (before the locks are replaced)
    import numpy.linalg, numpy.random  # noqa: F401,E401
    import tempfile, hashlib, json, random, copy, io, warnings  # noqa: F401,E401
    _dt.datetime = SimDateTime
    _dt.date = SimDate
    _time.time = _sim_time
    _time.time_ns = lambda: int(_sim_time() * 10 ** 9)
    rl, rg = _time.localtime, _time.gmtime
    _time.localtime = lambda s=None: rl(_sim_time() if s is None else s)
    _time.gmtime = lambda s=None: rg(_sim_time() if s is None else s)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    import gdspy as g
    assert os.path.realpath(g.__file__).startswith(os.path.realpath(path)), g.__file__
    gdspy = g
    pkgdir = os.path.dirname(os.path.realpath(g.__file__))
    g.use_current_library = False
    import gdspy.library
    g.library.use_current_library = False
    warnings.simplefilter("ignore")
    return g


# -- memory layout -----------------------------------------------------------
class HashSeam(object):
    """Gives every identity-hashed gdspy object a seeded hash, so that set and
    dict orders that really depend on addresses are decided by the seed."""

    def __init__(self):
        self.table = {}
        self.rng = None
        self.classes = []

    def install(self, rng):
        self.rng = rng
        self.table = {}
        mods = [m for n, m in sorted(sys.modules.items()) if n == "gdspy" or n.startswith("gdspy.")]
        seen = set()
        for m in mods:
            for n, c in sorted(vars(m).items()):
                if isinstance(c, type) and c.__module__.startswith("gdspy") and c not in seen:
                    seen.add(c)
                    if c.__hash__ is object.__hash__ or c in self.classes:
                        if c not in self.classes:
                            self.classes.append(c)
                        try:
                            c.__hash__ = lambda s, _t=self: _t.of(s)
                        except TypeError:
                            pass

    def of(self, obj):
        k = id(obj)
        e = self.table.get(k)
        if e is None:
            e = self.table[k] = (obj, self.rng.getrandbits(48))
        return e[1]


hashes = HashSeam()
