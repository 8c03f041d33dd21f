"""Seeds, runs, workers, minimisation, replay files, evidence.

A property module has
  ID, RUNS {'quick': n, 'thorough': n}, RULE (what counts as a distinct
  non-trivial run), REAL / STUB (what ran as real code and what as stand-in),
  ASSUMPTIONS, SHRINK (paths of lists that may be cut, '*' for any index),
  generate(rng, tier) -> scenario (JSON), execute(scenario, ctx).
`execute` is a pure function of the scenario and of the code in /repo.
"""
import copy
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
RUN_LIMIT = 60.0


class Violation(Exception):
    def __init__(self, kind, detail=''):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, str(detail)[:3000]


class SkipRun(Exception):
    """The scenario is not meaningful (only arises while minimising)."""


class Ctx(object):
    """What one run records."""

    def __init__(self, root):
        self.root = root
        self.h = hashlib.sha256()
        self.events = 0
        self.tail = []
        self.probes = {}
        self.faults = {}
        self.states = set()
        self.steps = 0
        self.switches = 0
        self.sim_seconds = 0.0
        self.nontrivial = False
        self.worlds = []

    def log(self, *what):
        """Goes into the trace hash: must be the same on every replay."""
        s = repr(what)
        self.h.update(s.encode())
        self.events += 1
        self.tail.append(s[:300])
        if len(self.tail) > 400:
            del self.tail[:200]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n
        self.nontrivial = True

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

    def fail(self, kind, detail=''):
        self.log('fail', kind)
        raise Violation(kind, detail)

    def check(self, ok, kind, detail=''):
        if not ok:
            self.fail(kind, detail() if callable(detail) else detail)

    def world(self, name='w', **kw):
        from world import World
        w = World(os.path.join(self.root, name), **kw)
        self.worlds.append(w)
        return w

    def absorb(self, w, trace=True):
        """Add the faults, steps and trace of a finished world."""
        for k, n in w.fired_kinds.items():
            self.fault(k, n)
        self.steps += w.steps
        self.switches += w.switches
        if w.switches:
            self.nontrivial = True
        if trace:
            for row in w.normal_trace():
                self.log(row)

    def scratch(self, name):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p


def rng_for(seed, prop, index):
    return random.Random('%s/%s/%s' % (seed, prop, index))


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def from_repo(tb):
    """Does the traceback go through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def run_once(mod, scenario, root):
    """Run one scenario here; returns a plain dict."""
    ctx = Ctx(root)
    out = {'verdict': 'ok', 'kind': None, 'detail': None}
    try:
        mod.execute(scenario, ctx)
    except Violation as v:
        out.update(verdict='violation', kind=v.kind, detail=v.detail)
    except SkipRun as e:
        out.update(verdict='skip', detail=str(e))
    except Exception as e:
        text = traceback.format_exc()
        if type(e).__name__ == 'Stuck':
            out.update(verdict='violation', kind='no-progress', detail=text[-2500:])
        elif from_repo(e.__traceback__):
            out.update(verdict='violation', kind='exception:' + type(e).__name__, detail=text[-2500:])
        else:
            out.update(verdict='harness', kind=type(e).__name__, detail=text[-4000:])
    finally:
        for w in ctx.worlds:
            w.kill_all()
    ctx.log('end', out['verdict'], out['kind'])
    out.update(hash=ctx.h.hexdigest(), events=ctx.events, probes=ctx.probes, faults=ctx.faults,
               states=sorted(ctx.states), steps=ctx.steps, switches=ctx.switches,
               sim_seconds=ctx.sim_seconds, nontrivial=ctx.nontrivial)
    if out['verdict'] != 'ok':
        out['tail'] = ctx.tail[-120:]
    return out


class Job(object):
    """One run in its own forked process."""

    def __init__(self, mod, scenario, base, tag):
        self.root = os.path.join(base, 'r%s' % tag)
        os.makedirs(self.root)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                err = os.open(os.path.join(self.root, 'log'), os.O_CREAT | os.O_WRONLY, 0o600)
                os.dup2(err, 1)
                os.dup2(err, 2)
                os.chdir(self.root)
                out = run_once(mod, scenario, self.root)
                data = pickle.dumps(out)
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r
        self.start = time.monotonic()
        self.buf = b''

    def finish(self):
        os.close(self.fd)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        _, st = os.waitpid(self.pid, 0)
        try:
            out = pickle.loads(self.buf)
        except Exception:
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
                out = {'verdict': 'died', 'kind': 'signal-%d' % os.WTERMSIG(st)}
            else:
                out = {'verdict': 'harness', 'kind': 'no-result'}
            try:
                with open(os.path.join(self.root, 'log')) as f:
                    tail = f.read()[-2000:]
            except OSError:
                tail = ''
            out.update(detail='run process ended with status %d\n%s' % (st, tail), hash='', events=0,
                       probes={}, faults={}, states=[], steps=0, switches=0, sim_seconds=0.0,
                       nontrivial=False, tail=[])
        shutil.rmtree(self.root, ignore_errors=True)
        return out

    def hang(self):
        os.close(self.fd)
        for kill in (os.killpg, os.kill):
            try:
                kill(self.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        os.waitpid(self.pid, 0)
        shutil.rmtree(self.root, ignore_errors=True)
        return {'verdict': 'hang', 'kind': 'no-progress', 'hash': '', 'events': 0, 'probes': {},
                'faults': {}, 'states': [], 'steps': 0, 'switches': 0, 'sim_seconds': 0.0,
                'nontrivial': False, 'tail': [], 'detail': 'run exceeded %g s' % RUN_LIMIT}


def pump(mod, source, base, workers, deadline=None):
    """Run (tag, scenario) pairs from the iterator, yield (tag, scenario, result)."""
    live = {}
    done = False
    while True:
        while not done and len(live) < workers:
            if deadline is not None and time.monotonic() > deadline:
                done = True
                break
            try:
                tag, sc = next(source)
            except StopIteration:
                done = True
                break
            j = Job(mod, sc, base, tag)
            live[j.fd] = (tag, sc, j)
        if not live:
            return
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            chunk = os.read(fd, 1 << 20)
            tag, sc, j = live[fd]
            if chunk:
                j.buf += chunk
            else:
                del live[fd]
                yield tag, sc, j.finish()
        now = time.monotonic()
        for fd in list(live):
            tag, sc, j = live[fd]
            if now - j.start > RUN_LIMIT:
                del live[fd]
                yield tag, sc, j.hang()


def one(mod, scenario, base, tag='x'):
    for _, _, out in pump(mod, iter([(tag, scenario)]), base, 1):
        return out


# -- minimisation

def walk(sc, pattern):
    """Concrete paths of lists matching a dotted pattern."""
    paths = [()]
    for part in pattern.split('.'):
        nxt = []
        for p in paths:
            node = sc
            for k in p:
                node = node[k]
            if part == '*':
                if isinstance(node, list):
                    nxt.extend(p + (i,) for i in range(len(node)))
                elif isinstance(node, dict):
                    nxt.extend(p + (k,) for k in sorted(node))
            elif isinstance(node, dict) and part in node:
                nxt.append(p + (part,))
            elif isinstance(node, list) and part.isdigit() and int(part) < len(node):
                nxt.append(p + (int(part),))
        paths = nxt
    return paths


def get(sc, path):
    for k in path:
        sc = sc[k]
    return sc


def put(sc, path, val):
    out = copy.deepcopy(sc)
    node = out
    for k in path[:-1]:
        node = node[k]
    node[path[-1]] = val
    return out


def candidates(sc, patterns):
    """Smaller scenarios, biggest cuts first."""
    sizes = []
    for pat in patterns:
        for path in walk(sc, pat):
            v = get(sc, path)
            if isinstance(v, list) and v:
                sizes.append((path, len(v)))
    frac = 1
    while True:
        any_cut = False
        for path, n in sizes:
            size = n // frac
            if size < 1:
                continue
            any_cut = True
            v = get(sc, path)
            for lo in range(0, n, size):
                yield put(sc, path, v[:lo] + v[lo + size:])
        if not any_cut:
            break
        frac *= 2
    for path, n in sizes:
        v = get(sc, path)
        if all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            for i, x in enumerate(v):
                if x:
                    yield put(sc, path, v[:i] + [0] + v[i + 1:])


def minimise(mod, sc, kind, base, workers, budget, max_evals):
    start = time.monotonic()
    evals = 0
    tag = 0
    best, best_out = sc, None
    improved = True
    while improved and time.monotonic() - start < budget and evals < max_evals:
        improved = False
        gen = candidates(best, mod.SHRINK)
        seen = set()
        while time.monotonic() - start < budget and evals < max_evals:
            batch = []
            for c in gen:
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                batch.append(c)
                if len(batch) >= workers:
                    break
            if not batch:
                break
            res = {}
            src = iter([('m%d_%d' % (tag, i), c) for i, c in enumerate(batch)])
            for t, c, out in pump(mod, src, base, workers):
                res[int(t.split('_')[1])] = (c, out)
            tag += 1
            evals += len(batch)
            for i in sorted(res):
                c, out = res[i]
                if out['verdict'] in ('violation', 'died') and out['kind'] == kind:
                    best, best_out, improved = c, out, True
                    break
            if improved:
                break
    return best, best_out, evals


# -- known findings

def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out[key.split('=', 1)[1]] = text
    return out


# -- evidence

def write_evidence(mod, tier, seed, agg, wall, violations, workers):
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['hashes']),
        'rule': mod.RULE,
        'samples': agg['samples'][:4],
        'seeds_per_hour': int(agg['runs'] / max(wall, 1e-6) * 3600),
        'simulated_seconds': round(agg['sim_seconds'], 3),
        'simulated_steps': agg['steps'],
        'context_switches': agg['switches'],
        'faults_injected': dict(sorted(agg['faults'].items())),
        'fault_kinds': len(agg['faults']),
        'reach_probes': dict(sorted(agg['probes'].items())),
        'distinct_states': len(agg['states']),
        'state_measure': getattr(mod, 'STATES', 'distinct values of the per-step abstract state'),
        'ran_real': mod.REAL, 'ran_stub': mod.STUB,
        'planned_runs': agg['planned'], 'workers': workers,
    }
    if agg['known']:
        cov['known_findings_seen'] = agg['known']
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': cov, 'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2),
          'violations': violations}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (mod.ID, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(tmp, os.path.join(d, mod.ID + '.json'))


def scratch_base():
    for d in ('/dev/shm', None):
        try:
            return tempfile.mkdtemp(prefix='simrun-', dir=d)
        except OSError:
            continue
    raise SystemExit(2)


def brief(sc, limit=600):
    s = json.dumps(sc, sort_keys=True)
    return s if len(s) <= limit else s[:limit] + '... (%d bytes)' % len(s)


def scenario_for(mod, seed, tier, i):
    rng = rng_for(seed, mod.ID, i)
    sc = mod.generate(rng, tier)
    return json.loads(json.dumps(sc))


def check(prop, tier, seed):
    mod = load(prop)
    t0 = time.monotonic()
    print('property=%s tier=%s seed=%d' % (mod.ID, tier, seed), flush=True)
    workers = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    runs = int(os.environ.get('VERIF_RUNS', '0')) or mod.RUNS[tier]
    wall_cap = float(os.environ.get('VERIF_WALL', '0')) or {'quick': 420.0, 'thorough': 7200.0}[tier]
    base = scratch_base()
    known = known_findings(mod.ID)
    agg = dict(runs=0, hashes=set(), samples=[], sim_seconds=0.0, steps=0, switches=0, faults={},
               probes={}, states=set(), planned=runs, known={})
    try:
        bad = {}
        stop = [runs]
        todo = iter(range(runs))

        def source():
            for i in todo:
                if i >= stop[0]:
                    return
                yield i, scenario_for(mod, seed, tier, i)

        harness = []
        results = {}
        for i, sc, out in pump(mod, source(), base, workers, t0 + wall_cap):
            if out['verdict'] == 'hang':
                if bad:
                    continue            # one is enough, each costs the full limit
                again = one(mod, sc, base, 'again%d' % i)
                if again['verdict'] == 'hang':
                    again['verdict'] = 'violation'
                out = again
            if out['verdict'] == 'died':
                out['verdict'] = 'violation'
            results[i] = out
            if out['verdict'] == 'violation':
                if out['kind'] in known:
                    agg['known'][out['kind']] = agg['known'].get(out['kind'], 0) + 1
                else:
                    bad[i] = (sc, out)
                    stop[0] = min(stop[0], i)
            elif out['verdict'] in ('harness', 'skip'):
                harness.append((i, out))
        for i in sorted(results):
            out = results[i]
            agg['runs'] += 1
            for k in ('sim_seconds', 'steps', 'switches'):
                agg[k] += out[k]
            for k in ('faults', 'probes'):
                for n, c in out[k].items():
                    agg[k][n] = agg[k].get(n, 0) + c
            agg['states'].update(out['states'])
            if out['nontrivial'] and out['verdict'] == 'ok':
                if out['hash'] not in agg['hashes'] and len(agg['samples']) < 4:
                    agg['samples'].append({'run': i, 'trace_hash': out['hash'][:16],
                                           'faults': out['faults'], 'steps': out['steps'],
                                           'scenario': brief(scenario_for(mod, seed, tier, i))})
                agg['hashes'].add(out['hash'])
        for key, n in sorted(agg['known'].items()):
            print('KNOWN-FINDING: property=%s %s' % (mod.ID, known[key]))
        if bad:
            return report(mod, tier, seed, bad, base, workers, agg, t0)
        wall = time.monotonic() - t0
        if harness:
            i, out = min(harness, key=lambda h: h[0])
            print('HARNESS-ERROR run %d of %s (%d in all): %s\n%s' % (
                i, mod.ID, len(harness), out['kind'], out['detail']))
            return 2
        if agg['runs'] < min(runs, max(5, runs // 10)):
            print('HARNESS-ERROR only %d of %d runs finished in %.0f s' % (agg['runs'], runs, wall))
            return 2
        missing = [p for p in getattr(mod, 'MUST_REACH', ()) if not agg['probes'].get(p)
                   and not agg['faults'].get(p)]
        if missing and agg['runs'] == mod.RUNS.get(tier) and not agg['known']:
            print('note: never reached: %s' % ', '.join(missing))
        write_evidence(mod, tier, seed, agg, wall, 0, workers)
        print('held: %d runs, %d distinct non-trivial, %d faults of %d kinds, %d states, %.1f s' % (
            agg['runs'], len(agg['hashes']), sum(agg['faults'].values()), len(agg['faults']),
            len(agg['states']), wall))
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)


def report(mod, tier, seed, bad, base, workers, agg, t0):
    i = min(bad)
    sc, out = bad[i]
    print('violation in run %d: %s\n%s' % (i, out['kind'], out['detail']), flush=True)
    small, small_out, evals = sc, out, 0
    if out['kind'] != 'no-progress':
        budget = float(os.environ.get('VERIF_SHRINK_S', '0')) or {'quick': 40.0, 'thorough': 240.0}[tier]
        small, so, evals = minimise(mod, sc, out['kind'], base, workers, budget, 400 if tier == 'quick' else 3000)
        small_out = so or out
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (mod.ID, seed, i))
    rec = {'property': mod.ID, 'seed': seed, 'tier': tier, 'run': i, 'kind': out['kind'],
           'detail': small_out.get('detail'), 'trace_hash': small_out['hash'],
           'scenario': small, 'original_scenario': sc, 'original_hash': out['hash'],
           'shrink_evaluations': evals, 'trace_tail': small_out.get('tail', [])}

    def save():
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, sort_keys=True)
            f.write('\n')
    save()
    same = confirm(path)
    if not same:
        rec.update(scenario=sc, trace_hash=out['hash'], detail=out['detail'])
        save()
        same = confirm(path)
    rec['replayed'] = same
    save()
    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, agg, wall, len(bad), workers)
    if not same:
        print('HARNESS-ERROR the violation did not replay: %s' % path)
        return 2
    print('minimised with %d evaluations; replayed %s' % (evals, same))
    print('VIOLATION property=%s replay=%s' % (mod.ID, path), flush=True)
    return 1


def confirm(path):
    """Replay twice in fresh interpreters.  'exact', 'same-kind' or ''."""
    import subprocess
    hashes = []
    for _ in range(2):
        p = subprocess.run([os.path.join(HERE, 'run.sh'), 'replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith('REPLAY ')]
        if p.returncode != 1 or not line:
            return ''
        hashes.append(line[-1].split()[1])
    return 'exact' if 'exact' in hashes[0] and 'exact' in hashes[1] else 'same-kind'


def replay(path, verbose=True):
    with open(path) as f:
        rec = json.load(f)
    mod = load(rec['property'])
    base = scratch_base()
    try:
        out = one(mod, rec['scenario'], base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if out['verdict'] in ('hang', 'died'):
        out['verdict'] = 'violation'
    print('property=%s seed=%s run=%s verdict=%s kind=%s' % (
        rec['property'], rec['seed'], rec['run'], out['verdict'], out['kind']))
    print(out['detail'])
    if verbose:
        for line in out.get('tail', [])[-40:]:
            print('  ' + line)
    if out['verdict'] == 'violation' and out['kind'] == rec['kind']:
        how = 'exact' if out['hash'] == rec['trace_hash'] else 'other-steps'
        print('REPLAY %s reproduced' % how)
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    if out['verdict'] == 'harness':
        return 2
    print('REPLAY not-reproduced')
    return 0


def digests(prop, seed, n, workers, tier='quick'):
    """Per-run digests, for the determinism self test."""
    mod = load(prop)
    base = scratch_base()
    res = {}
    try:
        src = ((i, scenario_for(mod, seed, tier, i)) for i in range(n))
        for i, sc, out in pump(mod, src, base, workers):
            res[i] = [out['verdict'], out['kind'], out['hash'], out['events'], sorted(out['faults'].items()),
                      out['steps'], hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res
