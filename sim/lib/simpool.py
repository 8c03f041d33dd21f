"""A process pool whose workers are real forked processes and whose order of
dispatch, completion and failure is decided by a plan.

plan = {'order': [ints], 'faults': [{'task': n, 'do': 'die'|'raise'}]}
"""
import concurrent.futures as cf
import concurrent.futures._base as base
import concurrent.futures.process as cfp
import os
import pickle
import struct

PLAN = {'order': [], 'faults': []}
STATS = {}
RealPool = cfp.ProcessPoolExecutor
real_wait, real_as_completed = base.wait, base.as_completed


def reset(plan):
    PLAN.clear()
    PLAN.update({'order': list(plan.get('order', ())), 'faults': list(plan.get('faults', ())),
                 'pos': 0, 'tasks': 0})
    STATS.clear()
    STATS.update(tasks=0, out_of_order=0, died=0, raised=0, pools=0, log=[])


class WorkerFailure(Exception):
    pass


class Worker(object):
    def __init__(self, init, initargs):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                if init:
                    init(*initargs)
                while True:
                    job = _recv(a)
                    if job is None:
                        break
                    fault, blob = job
                    if fault == 'die':
                        os._exit(1)
                    try:
                        if fault == 'raise':
                            raise WorkerFailure('injected worker failure')
                        fn, args, kw = pickle.loads(blob)
                        res = (True, fn(*args, **kw))
                        raw = pickle.dumps(res)
                    except BaseException as e:      # noqa
                        try:
                            raw = pickle.dumps((False, e))
                        except Exception:
                            raw = pickle.dumps((False, RuntimeError(repr(e))))
                    _send(d, raw)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.tx, self.rx = b, c

    def call(self, fault, blob):
        _send(self.tx, pickle.dumps((fault, blob)))
        return _recv(self.rx)

    def stop(self):
        os.close(self.tx)
        os.close(self.rx)

    def reap(self):
        os.waitpid(self.pid, 0)


def _send(fd, raw):
    raw = struct.pack('=Q', len(raw)) + raw
    while raw:
        raw = raw[os.write(fd, raw):]


def _recv(fd):
    def exact(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = exact(8)
    if h is None:
        return None
    raw = exact(struct.unpack('=Q', h)[0])
    return None if raw is None else pickle.loads(raw)


class SimFuture(base.Future):
    def __init__(self, pool):
        base.Future.__init__(self)
        self.pool = pool

    def _drive(self):
        while not self.done():
            if not self.pool._step():
                break

    def result(self, timeout=None):
        self._drive()
        return base.Future.result(self, 0)

    def exception(self, timeout=None):
        self._drive()
        return base.Future.exception(self, 0)


def _batch(fn, jobs):
    return [fn(*a) for a in jobs]


class SimPool(base.Executor):
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.n = max_workers or 4
        self.init = (initializer, initargs)
        self.workers = []
        self.pending = []
        self.broken = False
        self.closed = False
        self.finished = []
        STATS['pools'] = STATS.get('pools', 0) + 1

    def submit(self, fn, *args, **kw):
        if self.closed:
            raise RuntimeError('cannot schedule new futures after shutdown')
        if self.broken:
            raise cfp.BrokenProcessPool('pool is broken')
        f = SimFuture(self)
        # real pools pickle the call in a feeder thread: errors land in the future
        try:
            blob = pickle.dumps((fn, args, kw))
        except Exception as e:
            f.set_exception(e)
            return f
        self.pending.append((PLAN.get('tasks', 0), blob, f))
        PLAN['tasks'] = PLAN.get('tasks', 0) + 1
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        jobs = list(zip(*iterables))
        fs = [self.submit(_batch, fn, jobs[k:k + chunksize]) for k in range(0, len(jobs), chunksize)]

        def results():
            try:
                fs.reverse()
                while fs:
                    yield from fs.pop().result()
            finally:
                for f in fs:
                    f.cancel()
        return results()

    def _step(self):
        """Complete one pending task.  False if there is none."""
        if not self.pending:
            return False
        if not self.workers:
            self.workers = [Worker(*self.init) for _ in range(self.n)]
        order, pos = PLAN['order'], PLAN['pos']
        # at most as many tasks are in flight as there are workers
        window = min(len(self.pending), self.n)
        c = order[pos] if pos < len(order) else 0
        PLAN['pos'] = pos + 1
        k = c % window
        n, blob, f = self.pending.pop(k)
        if k:
            STATS['out_of_order'] += 1
        if not f.set_running_or_notify_cancel():
            return True
        fault = None
        for x in PLAN['faults']:
            if x['task'] == n:
                fault = x['do']
        STATS['tasks'] += 1
        STATS['log'].append((n, k, fault))
        w = self.workers[c // window % self.n if window else 0]
        got = w.call(fault, blob)
        if got is None:
            STATS['died'] += 1
            self.broken = True
            err = cfp.BrokenProcessPool('A process in the process pool was terminated abruptly')
            f.set_exception(err)
            for _, _, g in self.pending:
                if g.set_running_or_notify_cancel():
                    g.set_exception(err)
            self.pending = []
            return True
        if fault == 'raise':
            STATS['raised'] += 1
        ok, val = got
        if ok:
            f.set_result(val)
        else:
            f.set_exception(val)
        return True

    def shutdown(self, wait=True, cancel_futures=False):
        self.closed = True
        if cancel_futures:
            for _, _, f in self.pending:
                f.cancel()
            self.pending = []
        while self.pending:
            self._step()
        # a worker holds copies of the pipes of earlier ones, so all are closed first
        for w in self.workers:
            w.stop()
        for w in reversed(self.workers):
            w.reap()
        self.workers = []


def sim_wait(fs, timeout=None, return_when=base.ALL_COMPLETED):
    fs = set(fs)
    if not all(isinstance(f, SimFuture) for f in fs):
        return real_wait(fs, timeout, return_when)
    while True:
        done = {f for f in fs if f.done()}
        if done == fs or (done and return_when == base.FIRST_COMPLETED) or (
                return_when == base.FIRST_EXCEPTION and
                any(not f.cancelled() and base.Future.exception(f, 0) for f in done)):
            break
        if not any(f.pool._step() for f in fs - done):
            break
    return base.DoneAndNotDoneFutures(done, fs - done)


def sim_as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not all(isinstance(f, SimFuture) for f in fs):
        yield from real_as_completed(fs, timeout)
        return
    seen = set()
    while len(seen) < len(fs):
        new = [f for f in fs if f.done() and f not in seen]
        if not new:
            todo = [f for f in fs if not f.done()]
            if not any(f.pool._step() for f in todo[:1]):
                return
            continue
        for f in new:
            seen.add(f)
            yield f


def install():
    reset({})
    for m in (cf, cfp):
        m.ProcessPoolExecutor = SimPool
    for m in (cf, base):
        m.wait = sim_wait
        m.as_completed = sim_as_completed
