"""Simulated threads: real threads, of which only the baton holder runs.

The baton moves at source lines of the code under test.  `moves` is a list of
[lines, target]: the holder goes on for that many lines, then hands over to
the target-th live thread.  When the list is used up, each thread in turn runs
to its end.  Locks made after `install()` hand the baton over instead of
blocking, so a lock in the code under test is a schedule point, not a hang.
"""
import gc
import sys
import threading
import time
import types
import _thread

PREFIX = '/repo/'
RealLock = threading.Lock
RealRLock = threading.RLock
_current = {}          # thread ident -> (Sched, index)


class SimLock(object):
    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _current.get(_thread.get_ident())
        if me is None or not blocking:
            return self._l.acquire(blocking, timeout)
        sched, index = me
        tries = 0
        while not self._l.acquire(False):
            tries += 1
            if timeout is not None and timeout >= 0 and tries > 64:
                return False
            sched.yield_blocked(index)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(object):
    def __init__(self):
        self._b = SimLock()
        self._o = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._o == me:
            self._n += 1
            return True
        got = self._b.acquire(blocking, timeout)
        if got:
            self._o, self._n = me, 1
        return got

    def release(self):
        if self._o != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._n -= 1
        if not self._n:
            self._o = None
            self._b.release()

    def _is_owned(self):
        return self._o == _thread.get_ident()

    def _release_save(self):
        st = (self._n, self._o)
        self._n, self._o = 0, None
        self._b.release()
        return st

    def _acquire_restore(self, st):
        self._b.acquire()
        self._n, self._o = st

    def _at_fork_reinit(self):
        self._b = SimLock()
        self._o, self._n = None, 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock


TOOL = 3
_codes = []


def _walk(code):
    _codes.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c)


def watch():
    """Find all code of the code under test.  Call once, after it is imported."""
    seen = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(PREFIX):
            if f.__code__ not in seen:
                seen.add(f.__code__)
                _walk(f.__code__)
    # a fixed order, so that nothing depends on object addresses
    _codes.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    sys.monitoring.use_tool_id(TOOL, 'baton')
    sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, _line)
    for c in _codes:
        sys.monitoring.set_local_events(TOOL, c, sys.monitoring.events.LINE)
    _arm(False)


def _arm(on):
    for c in _codes:
        sys.monitoring.set_local_events(TOOL, c, sys.monitoring.events.LINE if on else 0)


def _line(code, line):
    me = _current.get(_thread.get_ident())
    if me is not None:
        me[0].on_line(me[1], code.co_name)


class Stuck(Exception):
    pass


class Sched(object):
    def __init__(self, moves, limit=40.0):
        self.moves = [list(m) for m in moves]
        self.pos = 0
        self.go = []
        self.alive = []
        self.results = []
        self.trace = []
        self.left = 0
        self.target = 0
        self.switches = 0
        self.lines = 0
        self.limit = limit
        self.all_done = _thread.allocate_lock()
        self.all_done.acquire()
        self.failed = None
        self._load()

    def _load(self):
        if self.pos < len(self.moves):
            n, self.target = self.moves[self.pos]
            self.pos += 1
            self.left = max(1, int(n))
        else:
            self.left = -1

    def _pass(self, me, to):
        if to == me:
            return
        self.switches += 1
        self.go[to].release()
        self.go[me].acquire()

    def _live(self):
        return [i for i, a in enumerate(self.alive) if a]

    def on_line(self, me, where):
        self.lines += 1
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        live = self._live()
        to = live[self.target % len(live)]
        self._load()
        if to != me:
            self.trace.append((me, where, to))
            self._pass(me, to)

    def yield_blocked(self, me):
        live = self._live()
        if len(live) < 2:
            time.sleep(0.001)
            return
        to = live[(live.index(me) + 1) % len(live)]
        self.trace.append((me, 'lock', to))
        self._pass(me, to)

    def _body(self, me, fn):
        self.go[me].acquire()
        _current[_thread.get_ident()] = (self, me)
        try:
            res = ('ok', fn())
        except BaseException as e:      # noqa: the verdict needs every kind
            _current.pop(_thread.get_ident(), None)
            import traceback
            res = ('error', e, traceback.format_exc())
        _current.pop(_thread.get_ident(), None)
        self.results[me] = res
        self.alive[me] = False
        live = self._live()
        if live:
            to = live[self.target % len(live)] if self.left >= 0 else live[0]
            self.trace.append((me, 'end', to))
            self.go[to].release()
        else:
            self.all_done.release()

    def run(self, fns):
        """Run the functions as simulated threads; returns their results."""
        n = len(fns)
        self.alive = [True] * n
        self.results = [None] * n
        for _ in range(n):
            lk = _thread.allocate_lock()
            lk.acquire()
            self.go.append(lk)
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn))
        _arm(True)
        self.go[0].release()
        if not self.all_done.acquire(True, self.limit):
            raise Stuck('threads made no progress')
        _arm(False)
        return self.results
