"""Controlled execution of threads of the real code.

Exactly one of the controlled threads runs at any time.  Scheduling points are the line (or call,
or opcode) events of the traced files.  A schedule says after how many scheduling points of the
running thread the control is handed over to another one; a thread that ends or has to wait for
a lock hands the control over in any case.  Locks of the module `threading` that were created
after `install()` cooperate with the scheduler."""
import gc
import sys
import threading
import time
import types
import _thread

_real_lock = _thread.allocate_lock
_SCHED = None


class CoopLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = _SCHED
        if s is None or not s.controls():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not s.blocked():
                return False if timeout >= 0 else self._l.acquire(True, timeout)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock:
    def __init__(self):
        self._l, self._owner, self._n = CoopLock(), None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner, self._n = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = self._n
        self._n, self._owner = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._owner, self._n = _thread.get_ident(), st

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install():
    threading.Lock = CoopLock
    threading.RLock = CoopRLock


class Execution:
    """Runs functions in threads under a schedule.

    traced: function(filename) -> '' (not traced), 'call', 'line' or 'opcode'; code that is not
    loaded at the beginning of the execution is not traced; with an attribute by_code the function is
    called with code objects
    schedule: list of (n, target): after n further scheduling points hand over to thread target"""

    def __init__(self, funcs, traced, schedule, first=0, timeout=30.0):
        self.funcs, self.traced, self.schedule = funcs, traced, list(schedule)
        self.first, self.timeout = first, timeout
        self.results = [None] * len(funcs)
        self.points = [0] * len(funcs)
        self.locks = [_real_lock() for _ in funcs]
        self.done = [False] * len(funcs)
        self.finished = _real_lock()
        self.idents = {}
        self.waiting = [False] * len(funcs)
        self.countdown = self.schedule[0][0] if self.schedule else -1
        self.free = False
        self.deadlock = False
        self.switches = []

    def controls(self):
        return not self.free and _thread.get_ident() in self.idents

    # ---- called from controlled threads

    def transfer(self, me, target):
        self.switches.append((me, target, self.points[me]))
        self.locks[target].release()
        self.locks[me].acquire()

    def point(self, me):
        self.points[me] += 1
        if self.countdown < 0 or self.free:
            return
        if self.countdown == 0:
            _, target = self.schedule.pop(0)
            self.countdown = self.schedule[0][0] if self.schedule else -1
            if target != me and not self.done[target]:
                self.transfer(me, target)
        else:
            self.countdown -= 1

    def blocked(self):
        """The running thread has to wait for a lock."""
        me = self.idents[_thread.get_ident()]
        self.waiting[me] = True
        others = [i for i in range(len(self.funcs)) if i != me and not self.done[i]]
        runnable = [i for i in others if not self.waiting[i]]
        if not runnable:
            if not others or self.deadlock:
                # held by a thread that is not controlled (any more), or by the
                # thread itself: wait for it; run() notices if that takes too long
                return False
            runnable = others
            self.spins = getattr(self, 'spins', 0) + 1
            time.sleep(0.0005)
            if self.spins > 1000:
                self.deadlock = True
                return False
        self.transfer(me, runnable[0])
        self.waiting[me] = False
        return True

    def body(self, i):
        self.idents[_thread.get_ident()] = i
        self.locks[i].acquire()
        try:
            self.results[i] = self.funcs[i]()
        except BaseException as e:
            self.results[i] = ('EXCEPTION', type(e).__name__, str(e)[:300])
        finally:
            self.done[i] = True
            self.waiting = [False] * len(self.funcs)
            rest = [k for k in range(len(self.funcs)) if not self.done[k]]
            if rest:
                if not self.free:
                    self.locks[rest[0]].release()
            else:
                self.finished.release()

    def run(self, before=None):
        global _SCHED
        for l in self.locks:
            l.acquire()
        self.finished.acquire()
        _SCHED = self
        threads = []
        monitor(self.traced)
        try:
            started = [_real_lock() for _ in self.funcs]
            for i in range(len(self.funcs)):
                started[i].acquire()

                def start(i=i):
                    try:
                        if before:
                            before(i)
                    finally:
                        started[i].release()
                    self.body(i)
                t = threading.Thread(target=start, daemon=True)
                threads.append(t)
                t.start()
                started[i].acquire()
            self.locks[self.first].release()
            if not self.finished.acquire(timeout=self.timeout):
                # something blocks that the scheduler cannot see: let all threads run
                self.free = True
                for i, l in enumerate(self.locks):
                    if not self.done[i]:
                        try:
                            l.release()
                        except RuntimeError:
                            pass
                if not self.finished.acquire(timeout=self.timeout):
                    self.deadlock = True
                    return self.results
            for t in threads:
                t.join(self.timeout)
        finally:
            _SCHED = None
        return self.results


TOOL = 4
_codes = {}         # traced function -> number of instrumented code objects
_current = None


def _event(*args):
    s = _SCHED
    if s is not None:
        me = s.idents.get(_thread.get_ident())
        if me is not None and not s.done[me]:
            s.point(me)


def monitor(traced):
    """Instruments the code of the traced files (once)."""
    global _current
    if _current is traced:
        return
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'explorer')
        for ev in (mon.events.PY_START, mon.events.LINE, mon.events.INSTRUCTION):
            mon.register_callback(TOOL, ev, _event)
    events = {'': 0, 'call': mon.events.PY_START, 'line': mon.events.LINE | mon.events.PY_START,
              'opcode': mon.events.INSTRUCTION}
    seen = set()

    def visit(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        kind = traced(code) if hasattr(traced, 'by_code') else traced(code.co_filename)
        if kind or _current is not None:
            mon.set_local_events(TOOL, code, events[kind])
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                visit(c)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            visit(f.__code__)
    _current = traced
