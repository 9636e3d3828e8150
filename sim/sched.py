"""Seeded thread scheduler.

Real threads, released one at a time.  A thread can lose the processor only
where an interpreter could switch: on entry of a Python function, after a
call returns, on a backward jump, at the start of a source line
(sys.monitoring events of gdspy's own code and of the copy module) and in
stream operations.  The schedule is
an explicit list of [gap, thread] pairs, so one plan is one interleaving.
"""
import _thread
import copy as _copy
import sys

from . import boot

mon = sys.monitoring
TOOL = 4
_files = None


class Deadlock(BaseException):
    pass


class Sched(object):
    def __init__(self, switches, sites=(), record=False):
        """switches: [[gap in steps, thread index], ...]; when exhausted the
        running thread continues to its end, then the next lowest one.
        sites: [[thread, place in the code, occurrence, to, steps], ...]: the
        thread loses the processor there, and gets it back after so many
        steps (None: when the other one ends).
        record: collects the places passed, in the order of first passage."""
        self.sites = {}
        for who, place, occ, to, back in sites:
            self.sites.setdefault((who, place), []).append([occ, to, back])
        self.places = {} if record else None
        self.switches = [tuple(s) for s in switches]
        self.pos = 0
        self.left = self.switches[0][0] if self.switches else None
        self.cur = None
        self.threads = []
        self.ident = {}
        self.done = []
        self.steps = 0
        self.trace = []
        self.waiting = set()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.preempted = 0
        self.dead = None
        self.spins = 0

    # -- called by controlled threads ----------------------------------------
    def controls(self, ident):
        return ident in self.ident

    def step(self, place=None):
        me = self.cur
        self.steps += 1
        if self.places is not None:
            self.places[place] = self.places.get(place, 0) + 1
        if self.sites and (me, place) in self.sites:
            for e in self.sites[me, place]:
                e[0] -= 1
                if e[0] == 0:
                    to = e[1] % len(self.threads)
                    if self.done[to] or to == me:
                        continue
                    if e[2] is not None:
                        # the interrupted one comes next
                        self.switches[self.pos:self.pos] = [(e[2], me)]
                        self.left = e[2]
                    self.preempted += 1
                    self.hand(me, to)
                    return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        to = self.switches[self.pos][1] % len(self.threads)
        self.pos += 1
        self.left = self.switches[self.pos][0] if self.pos < len(self.switches) else None
        if self.done[to] or to == me:
            return
        self.preempted += 1
        self.hand(me, to)

    def hand(self, me, to):
        self.trace.append((self.steps, me, to))
        self.cur = to
        self.threads[to].release()
        self.threads[me].acquire()

    def blocked(self):
        """The running thread waits for a lock: somebody else runs."""
        me = self.cur
        n = len(self.threads)
        self.spins += 1
        if self.spins > 1000:
            self.dead = "all threads wait"
            raise Deadlock("all threads wait")
        for k in range(1, n):
            to = (me + k) % n
            if not self.done[to]:
                self.hand(me, to)
                return
        self.dead = "waits for itself"
        raise Deadlock("a thread waits for itself")

    # -- running --------------------------------------------------------------
    def run(self, programs):
        n = len(programs)
        self.results = [None] * n
        self.done = [False] * n
        self.threads = []
        for i in range(n):
            l = _thread.allocate_lock()
            l.acquire()
            self.threads.append(l)
        started = _thread.allocate_lock()

        def body(i, fn):
            self.threads[i].acquire()
            self.ident[_thread.get_ident()] = i
            try:
                try:
                    self.results[i] = ("ok", fn())
                except BaseException as e:
                    self.results[i] = ("raised", e)
            finally:
                self.ident.pop(_thread.get_ident(), None)
                self.done[i] = True
                self.spins = 0
                for k in range(n):
                    if not self.done[k]:
                        self.trace.append((self.steps, i, k))
                        self.cur = k
                        self.threads[k].release()
                        break
                else:
                    self.main.release()
        for i, fn in enumerate(programs):
            _thread.start_new_thread(body, (i, fn))
        boot.scheduler = self
        install(self)
        self.cur = 0
        try:
            self.threads[0].release()
            self.main.acquire()
        finally:
            uninstall()
            boot.scheduler = None
        return self.results


_active = None
_slots = {}


def _ev(code, off=-1):
    s = _active
    if s is None:
        return None
    if _thread.get_ident() in s.ident:
        s.step((code.co_filename, code.co_firstlineno, code.co_name, off))
    return None


def codes():
    """Code objects of gdspy and of the copy module, nested ones included."""
    import gc
    import types
    out, todo = set(), []
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            n = f.__code__.co_filename
            if n.startswith(boot.pkgdir) or n == _copy.__file__:
                todo.append(f.__code__)
    while todo:
        c = todo.pop()
        if c not in out:
            out.add(c)
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))
    return out


def _start(code, off):
    return _ev(code, off)


def _jump(code, a, b):
    # (never DISABLE: an event that fires now and then is cheap enough)
    return _ev(code, a) if b <= a else None


def _line(code, line):
    return _ev(code, -line)


def _call(code, off, fn, arg):
    return None


def _cret(code, off, fn, arg):
    return _ev(code, off)


def _ret(code, off, val):
    return _ev(code, off)


_ready = False


def install(s):
    """Instruments the code once per process; only an active scheduler acts."""
    global _active, _ready
    if not _ready:
        mon.use_tool_id(TOOL, "gdspy-sched")
        ev = mon.events
        mon.register_callback(TOOL, ev.PY_START, _start)
        mon.register_callback(TOOL, ev.PY_RESUME, _start)
        mon.register_callback(TOOL, ev.JUMP, _jump)
        mon.register_callback(TOOL, ev.LINE, _line)
        mon.register_callback(TOOL, ev.CALL, _call)
        mon.register_callback(TOOL, ev.C_RETURN, _cret)
        mon.register_callback(TOOL, ev.PY_RETURN, _ret)
        what = ev.PY_START | ev.PY_RESUME | ev.JUMP | ev.LINE | ev.CALL | ev.PY_RETURN
        for c in codes():
            mon.set_local_events(TOOL, c, what)
        _ready = True
    _active = s


def uninstall():
    global _active
    _active = None


def io_point():
    s = _active
    if s is not None and _thread.get_ident() in s.ident:
        s.step()


def record(program):
    """Runs a program alone; its result and the places where it could lose the processor."""
    s = Sched([], record=True)
    kind, v = s.run([program])[0]
    if kind == "raised":
        raise v
    return v, s.places


def gen_sites(rng, nthreads):
    """Which thread is interrupted how far into the list of places, at which passage, by whom and for how long."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
        out.append([rng.randrange(nthreads), round(rng.random(), 4), round(rng.random() ** 3, 4), rng.randrange(nthreads), rng.choice([None, None, None, 3, 30, 300])])
    return out


def place_sites(sites, places):
    """The schedule for a list of gen_sites, given the places each thread passes."""
    out = []
    for who, f, g, to, back in sites:
        l = list(places[who])
        if l:
            p = l[int(f * len(l))]
            out.append([who, p, 1 + int(g * places[who][p]), to, back])
    return out


def gen_switches(rng, nthreads, total):
    """Explicit schedules: a few preemptions anywhere, or many close ones."""
    style = rng.choice(["few", "few", "few", "many", "burst", "storm"])
    out = []
    if style == "few":
        for _ in range(rng.randint(1, 6)):
            out.append([1 + int(total * rng.random() ** 2), rng.randrange(nthreads)])
    elif style == "many":
        for _ in range(rng.randint(20, 80)):
            out.append([1 + int(rng.expovariate(1.0 / max(1.0, total / 60.0))), rng.randrange(nthreads)])
    elif style == "burst":
        out.append([1 + int(total * rng.random()), rng.randrange(nthreads)])
        for _ in range(rng.randint(10, 60)):
            out.append([rng.randint(1, 12), rng.randrange(nthreads)])
    else:
        g = rng.choice([1, 2, 5, 20])
        for _ in range(rng.randint(50, 300)):
            out.append([rng.randint(1, g), rng.randrange(nthreads)])
    return out
