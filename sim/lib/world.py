"""The simulated machine: real processes, one running at a time.

A `World` owns a scratch directory (the simulated disk) and a set of forked
processes running real code.  Every file call a process makes on the scratch
directory, and every mark it places, stops it until the controller answers
(see native/shim.c).  The controller therefore picks which process moves
next, decides what each call does (proceed, fail, move fewer bytes, die
before or in the middle of it) and may look at the disk between any two
calls.  Given one scenario the run is always the same.
"""
import ctypes
import errno
import mmap
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time
import traceback

REQ = struct.Struct('=IiQQII400s400s')
REP = struct.Struct('=IiQ')
CLK = struct.Struct('=qqqq')

OPS = {1: 'open', 2: 'read', 3: 'write', 4: 'trunc', 5: 'sync', 6: 'close',
       7: 'rename', 8: 'unlink', 9: 'mkdir', 10: 'stat', 11: 'lock', 12: 'link',
       13: 'alloc', 14: 'mark', 15: 'rmdir', 16: 'copy'}
PROCEED, FAIL, SHORT, CRASH, TORN = range(5)
ERRNO = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EINTR': errno.EINTR,
         'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE, 'ESTALE': errno.ESTALE,
         'EDQUOT': errno.EDQUOT, 'ENOENT': errno.ENOENT}

# Calls a fault can apply to.  A fault names a class, and the n-th call of
# that class made by that process is the one hit.
CLASS = {'open': 'open', 'openw': 'open', 'read': 'read', 'write': 'write', 'copy': 'write',
         'trunc': 'resize', 'alloc': 'resize', 'sync': 'sync', 'close': 'close',
         'rename': 'rename', 'link': 'rename', 'unlink': 'unlink', 'rmdir': 'unlink',
         'mkdir': 'mkdir', 'stat': 'stat', 'lock': 'lock', 'mark': 'mark'}

WALL_LIMIT = 40.0


class HarnessError(Exception):
    """The simulator itself went wrong; never reported as a violation."""


def shim():
    lib = ctypes.CDLL(None)
    try:
        lib.sim_activate
    except AttributeError:
        raise HarnessError('the shim is not preloaded')
    lib.sim_mark.restype = ctypes.c_uint64
    lib.sim_mark.argtypes = [ctypes.c_char_p, ctypes.c_uint64]
    return lib


def mark(label, value=0):
    """Called by driver code inside a simulated process: a named schedule point."""
    return shim().sim_mark(label.encode(), value)


class Clock(object):
    """Realtime clock page shared with one process (or several)."""

    def __init__(self, now, step):
        self.page = mmap.mmap(-1, 4096)
        self.set(now, step)

    def set(self, now=None, step=None):
        n, s, r, _ = CLK.unpack_from(self.page, 0)
        if now is not None:
            n = int(round(now * 1e9))
        if step is not None:
            s = int(round(step * 1e9))
        CLK.pack_into(self.page, 0, n, s, r, 1)

    def read(self):
        n, s, r, e = CLK.unpack_from(self.page, 0)
        return n / 1e9, r

    def advance(self, dt):
        self.set(now=self.read()[0] + dt)


class Request(object):
    __slots__ = ('op', 'fd', 'size', 'offset', 'flags', 'path', 'path2', 'cls', 'nth', 'index')

    def __init__(self, raw):
        op, self.fd, self.size, self.offset, self.flags, seq, p, p2 = REQ.unpack(raw)
        self.op = OPS.get(op, str(op))
        self.path = p.split(b'\0', 1)[0].decode('utf-8', 'replace')
        self.path2 = p2.split(b'\0', 1)[0].decode('utf-8', 'replace')


class Proc(object):
    def __init__(self, name):
        self.name = name
        self.pid = None
        self.sock = None
        self.pending = None
        self.alive = False
        self.crashed = False
        self.status = None
        self.result = None
        self.error = None
        self.counts = {}
        self.calls = 0
        self.fds = {}
        self.wrote = False


class World(object):
    def __init__(self, root, faults=(), schedule=(), max_steps=60000, stats=None, log=True, also=None):
        self.root = os.path.realpath(root)
        self.disk = os.path.join(self.root, 'disk')
        self.side = os.path.join(self.root, 'side')
        os.makedirs(self.disk)
        os.makedirs(self.side)
        self.procs = {}
        self.order = []
        self.schedule = list(schedule)
        self.cursor = 0
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f['proc'], f['cls'], f['nth']), f)
        self.fired = []
        self.fired_kinds = {}
        self.trace = []
        self.log = log
        self.also = also         # a file outside the disk whose calls count as 'table-...'
        self.steps = 0
        self.max_steps = max_steps
        self.names = {}
        self.on_step = None      # called after every call completes
        self.on_mark = None      # called with (proc, label, value) -> int
        self.current = None
        self.switches = 0
        self.broken_forever = set()

    # -- naming, so logs do not depend on pids or random temporary names
    def canon(self, path):
        if not path.startswith(self.disk):
            return path
        rel = path[len(self.disk):] or '/'
        if rel not in self.names:
            self.names[rel] = None
        return rel

    # -- processes
    def spawn(self, name, fn, clock=None, env=None, cwd=None):
        p = Proc(name)
        here, there = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        out = os.path.join(self.side, name + '.result')
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                here.close()
                for q in self.procs.values():
                    if q.sock is not None:
                        q.sock.close()
                os.setpgid(0, 0)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                err = os.open(os.path.join(self.side, name + '.err'),
                              os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
                os.dup2(err, 1)
                os.dup2(err, 2)
                if env:
                    os.environ.update(env)
                    time.tzset()
                if cwd:
                    os.chdir(cwd)
                lib = shim()
                if clock is not None:
                    # the page stays mapped: it is inherited MAP_SHARED memory
                    buf = (ctypes.c_char * 4096).from_buffer(clock.page)
                    lib.sim_clock(ctypes.byref(buf))
                lib.sim_activate(there.fileno(), self.disk.encode())
                if self.also:
                    lib.sim_also(self.also.encode())
                lib.sim_mark(b'start', 0)
                try:
                    res = ('ok', fn())
                except BaseException as e:  # noqa: the verdict needs every kind
                    res = ('error', {'type': type(e).__name__, 'text': str(e)[:2000],
                                     'mro': [c.__name__ for c in type(e).__mro__],
                                     'errno': getattr(e, 'errno', None),
                                     'where': traceback.format_exc()[-4000:]})
                lib.sim_mark(b'end', 0)
                lib.sim_deactivate()
                with open(out + '.tmp', 'wb') as f:
                    pickle.dump(res, f)
                os.rename(out + '.tmp', out)
            finally:
                os._exit(0)
        there.close()
        p.pid, p.sock, p.alive = pid, here, True
        p.out = out
        self.procs[name] = p
        self.order.append(name)
        self._wait(p)
        return p

    def _wait(self, p):
        """Wait until p asks for its next call, or is gone."""
        limit = time.monotonic() + WALL_LIMIT
        while True:
            left = limit - time.monotonic()
            if left <= 0:
                p.status = 'stuck'
                self._kill(p)
                return
            r, _, _ = select.select([p.sock], [], [], left)
            if not r:
                continue
            try:
                raw = p.sock.recv(REQ.size)
            except ConnectionResetError:
                raw = b''
            if not raw:
                self._reap(p)
                return
            rq = Request(raw)
            if rq.op == 'mark' and rq.path == 'end':
                # nothing observable happens after this point
                p.sock.send(REP.pack(PROCEED, 0, 0))
                continue
            rq.cls = CLASS.get(rq.op, rq.op)
            if rq.flags >> 31:
                rq.cls = 'table-' + rq.cls
            rq.nth = p.counts.get(rq.cls, 0)
            p.counts[rq.cls] = rq.nth + 1
            rq.index = p.calls
            p.calls += 1
            p.pending = rq
            return

    def _reap(self, p):
        p.alive = False
        p.pending = None
        p.sock.close()
        p.sock = None
        _, st = os.waitpid(p.pid, 0)
        p.exit = st
        if os.path.exists(p.out):
            with open(p.out, 'rb') as f:
                kind, val = pickle.load(f)
            if kind == 'ok':
                p.status, p.result = 'ok', val
            else:
                p.status, p.error = 'error', val
        elif p.crashed:
            p.status = 'crashed'
        elif os.WIFSIGNALED(st):
            p.status = 'signal'
            p.error = {'type': 'Signal', 'text': 'killed by signal %d' % os.WTERMSIG(st),
                       'mro': [], 'errno': None, 'where': ''}
        else:
            p.status = 'vanished'

    def _kill(self, p):
        try:
            os.kill(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if p.sock:
            p.sock.close()
            p.sock = None
        try:
            os.waitpid(p.pid, 0)
        except ChildProcessError:
            pass
        p.alive = False
        p.pending = None

    def runnable(self):
        return [n for n in self.order if self.procs[n].alive]

    # -- one step
    def pick(self):
        names = self.runnable()
        if not names:
            return None
        if self.cursor < len(self.schedule):
            c = self.schedule[self.cursor]
            self.cursor += 1
            if c > 0 or self.current not in names:
                name = names[c % len(names)]
            else:
                name = self.current
        else:
            name = self.current if self.current in names else names[0]
        if self.current in names and name != self.current:
            self.switches += 1
        self.current = name
        return self.procs[name]

    def step(self, p):
        rq = p.pending
        action, err, n, note = PROCEED, 0, 0, ''
        f = self.faults.get((p.name, rq.cls, rq.nth))
        if f is None and (p.name, rq.cls) in self.broken_forever and f is not False:
            f = {'do': 'err', 'err': 'ENOSPC', 'cls': rq.cls, 'repeat': True}
        if rq.op == 'mark':
            if self.on_mark is not None:
                n = int(self.on_mark(p, rq.path, rq.size) or 0)
        if f is not None:
            do = f['do']
            if do == 'crash':
                action = CRASH
                p.crashed = True
                note = 'crash'
            elif do == 'torn':
                if rq.op in ('write', 'copy'):
                    action, n = TORN, int(rq.size * f.get('frac', 0.5))
                else:
                    action = CRASH
                p.crashed = True
                note = 'torn'
            elif do == 'short':
                if rq.op in ('read', 'write', 'copy') and rq.size > 1:
                    action, n = SHORT, max(1, int(rq.size * f.get('frac', 0.5)))
                    note = 'short'
            elif do == 'err':
                if rq.op != 'mark':
                    action, err = FAIL, ERRNO[f['err']]
                    note = f['err']
                    if f.get('stay'):
                        self.broken_forever.add((p.name, rq.cls))
        if note:
            self.fired.append((p.name, rq.cls, rq.nth, note))
            key = note if note in ('crash', 'torn', 'short') else note + ' on ' + rq.cls
            self.fired_kinds[key] = self.fired_kinds.get(key, 0) + 1
        if self.log:
            self.trace.append((p.name, rq.op, self.canon(rq.path), self.canon(rq.path2),
                               rq.size if rq.op in ('write', 'read', 'trunc') else 0,
                               rq.offset, note))
        p.pending = None
        p.sock.send(REP.pack(action, err, n))
        self._wait(p)
        self.steps += 1
        if self.on_step is not None:
            self.on_step(p, rq, note)

    def run(self):
        """Run until every process is gone.  False if the step cap was hit."""
        while True:
            p = self.pick()
            if p is None:
                return True
            if self.steps >= self.max_steps:
                return False
            self.step(p)

    def run_one(self, name):
        """Run one process to its end, leaving the others parked."""
        p = self.procs[name]
        while p.alive:
            if self.steps >= self.max_steps:
                return False
            self.current = name
            self.step(p)
        return True

    def kill_all(self):
        for p in self.procs.values():
            if p.alive:
                self._kill(p)

    def normal_trace(self):
        """Trace with run-specific temporary names replaced by their order."""
        seen = {}
        out = []
        for name, op, a, b, size, off, note in self.trace:
            row = []
            for x in (a, b):
                if x and x.startswith('/'):
                    if x not in seen:
                        seen[x] = len(seen)
                    x = 'f%d' % seen[x]
                row.append(x)
            out.append((name, op, row[0], row[1], size, off, note))
        return out
