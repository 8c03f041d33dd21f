import os
import pickle
import traceback
from datetime import timedelta

import numpy as np

import baton
import feed
import model
import synth as S
from core import Violation
from props import c02, c04, c06
from world import Clock, mark

ID = 'C19'
RUNS = {'quick': 1500, 'thorough': 12000}
RULE = ('a run counts when a read fault or a failing receiver struck inside a table read, or threads were switched inside one, and '
        'every table was judged; distinct by the hash of the operation trace or thread trace and of the outcomes')
STATES = 'distinct (batch size, limits given, receiver, faults fired, outcome, rows per level) tuples'
REAL = ['glmtools.io.mimic_lma', 'glmtools.io.glm', 'glmtools.io.traversal', 'xarray', 'netCDF4/HDF5', 'kernel file system',
        'threads (one runs at a time)']
STUB = ['file call results at injected faults', 'thread scheduler', 'receivers of the tables', 'input files are synthetic',
        'lmatools coordinate systems']
ASSUMPTIONS = ['IDs are unique per level', 'tables hold 32 bits of an ID',
               'a crash inside the netCDF library after an injected error ends the history',
               'a receiver is not told of a batch without any event']
SHRINK = ['reads', 'reads.*.faults', 'threads', 'threads.*', 'moves', 'spec.flashes', 'spec.groups', 'spec.events']

LEVELS = ('flash', 'group', 'event')
# column of the parent table, column of the model, absolute and relative tolerance
COLS = [('area', 'area', 0, 2e-5), ('total_energy', 'energy', 1e-12, 2e-5), ('ctr_lat', 'lat', 3e-5, 0),
        ('ctr_lon', 'lon', 3e-5, 0), ('init_lat', 'lat', 3e-5, 0), ('init_lon', 'lon', 3e-5, 0)]


class Refused(Exception):
    """A receiver will not take the table."""


class NoSuchKey(Refused, KeyError):
    pass


class NoFile(Refused, OSError):
    pass


class Sink(object):
    def __init__(self, level, got, left, how):
        self.level, self.got, self.left, self.how = level, got, left, how

    def send(self, pair):
        self.left[0] -= 1
        if self.left[0] < 0:
            raise (Refused, NoSuchKey, NoFile)[self.how](self.level)
        self.got[self.level].append(tuple(np.array(a) for a in pair))


def gen_read(rng, spec, exp):
    kw = {}
    if rng.random() < .5:
        while not kw:
            o = c02.gen_glm_op(rng, spec, exp)
            kw = {k: v for k, v in o.get('kw', {}).items() if k != 'check_event_xy'}
    r = {'chunk': rng.choice([1, 1, 2, 3, 5, 100]), 'kw': kw, 'fixed': rng.random() < .3,
         'base': rng.choice([0, 0, 86400, -3600, 7 * 86400]), 'sink': None, 'how': rng.randrange(3), 'clip': False}
    if rng.random() < .5:
        r['sink'] = rng.choice([10 ** 6, 10 ** 6, 0, 1, 2, 3, 4, 7])
        # clipped to a mesh: what is sent then is judged as gridded fields elsewhere
        r['clip'] = rng.random() < .2
    return r


def generate(rng, tier):
    q = {}
    if rng.random() < .3:
        q['sat'] = rng.choice(['west', 'test'])
    if rng.random() < .3:
        q['packed'] = True
    spec = S.gen_file(rng, feed.gen_t0(rng), n_flash=130 if rng.random() < .01 else rng.choice([0, 1, 2, 4, 6, 9]), big_ids=rng.random() < .5, quirks=q)
    if rng.random() < .4:
        spec = feed.apply(spec, feed.gen_ops(rng, spec))
    exp = model.expected(spec)
    if rng.random() < .4:
        n = rng.choice([1, 2, 2, 3])
        return {'kind': 'threads', 'spec': spec, 'moves': c02.gen_moves(rng, n),
                'threads': [[gen_read(rng, spec, exp) for _ in range(rng.choice([1, 1, 2]))] for _ in range(n)]}
    reads = []
    for _ in range(rng.choice([1, 2, 3])):
        faults = [c04.gen_fault(rng, 'points') for _ in range(rng.choice([0, 1, 1, 2]))]
        for f in faults:
            if f['cls'] == 'read' and rng.random() < .6:
                # strikes after the file is open
                f.update(late=True, nth=rng.choice([0, 0, 1, 2, rng.randrange(10)]))
        reads.append(dict(gen_read(rng, spec, exp), faults=faults, fresh=rng.random() < .6))
    return {'kind': 'faults', 'spec': spec, 'reads': reads}


def base_of(spec, r):
    return S.dt_of(spec['t0']).replace(hour=0, minute=0, second=0, microsecond=0) + timedelta(seconds=r['base'])


def read(g, spec, r):
    """All batches, in order: {level: [(points, parents)]}, and whether a receiver refused."""
    from glmtools.io.mimic_lma import read_flashes
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in r['kw'].items()}
    kw.update(base_date=base_of(spec, r), clip_events=False, fixed_grid=r['fixed'],
              nadir_lon=S.nadir(spec['quirks']), chunk_size=r['chunk'])
    if r['sink'] is None:
        out = read_flashes(g, None, **kw)
        return {lv: [tuple(np.array(a) for a in b[lv]) for b in out] for lv in LEVELS}, False
    if r['clip']:
        m = mesh(g)
        kw.update(clip_events=m, fixed_grid=True, x_range=(m.xedge.min(), m.xedge.max()), y_range=(m.yedge.min(), m.yedge.max()))
    got, left = {lv: [] for lv in LEVELS}, [r['sink']]
    try:
        read_flashes(g, {lv: Sink(lv, got, left, r['how']) for lv in LEVELS}, **kw)
    except Refused:
        return got, True
    return got, left[0] < 0 and 'lost'


def mesh(g):
    """A small grid around the first event."""
    from glmtools.grid.clipping import QuadMeshSubset
    d = np.arange(-6, 7) * 280e-6
    x, y = [float(v[0]) if len(v) else 0. for v in (g.dataset.event_x.data, g.dataset.event_y.data)]
    return QuadMeshSubset(*np.meshgrid(x + d, y + d), n_neighbors=9, regular=True)


def ids(a):
    return [int(i) & 0xffffffff for i in a]


def judge(ctx, r, res, spec, exp):
    got, refused = res
    ctx.check(refused != 'lost', 'receiver-error-lost')
    if r['clip']:
        return
    flashes = c02.want_subset(spec, exp, r['kw']) if r['kw'] else list(exp['flash'])
    part = c02.part_of(model.tree(spec), flashes=flashes)
    kids = {'flash': lambda e: exp['event'][e]['flash'], 'group': lambda e: exp['event'][e]['parent'], 'event': lambda e: e}
    shift = (S.dt_of(spec['t0']) - base_of(spec, r)).total_seconds()
    if refused:
        ctx.probe('receiver failed')
    for lv in LEVELS:
        want = {i & 0xffffffff: exp[lv][i] for i in part[lv]}
        parents = [i for _, par in got[lv] for i in ids(par['flash_id'])]
        ctx.check(len(set(parents)) == len(parents), 'repeated-' + lv, sorted(parents)[:20])
        stray = set(parents) - set(want)
        ctx.check(not stray, 'stray-' + lv, sorted(stray)[:10])
        lost = set(want) - set(parents)
        if r['sink'] is not None:
            busy = {kids[lv](e) & 0xffffffff for e in part['event']}
            lost &= busy
        if not refused:
            ctx.check(not lost, 'lost-' + lv, '%s of %d' % (sorted(lost)[:10], len(want)))
        for n, (pts, par) in enumerate(got[lv]):
            mine = ids(par['flash_id'])
            for k, i in enumerate(mine):
                w = want[i]
                for col, key, at, rt in COLS:
                    if key in w and not abs(float(par[col][k]) - w[key]) <= at + rt * abs(w[key]):
                        ctx.fail('wrong-%s-%s' % (lv, col), '%d: %r, expected %r' % (i, float(par[col][k]), w[key]))
                t1 = w.get('t1', w['t'])
                if not (abs(float(par['start'][k]) - w['t'] - shift) <= 2e-3 and
                        abs(float(par['duration'][k]) - (t1 - w['t'])) <= 4e-3):
                    ctx.fail('wrong-%s-time' % lv, '%d: %r for %r, expected %r for %r' % (
                        i, float(par['start'][k]), float(par['duration'][k]), w['t'] + shift, t1 - w['t']))
            check_points(ctx, lv, pts, set(mine), part['event'], kids[lv], exp, spec, shift, n)


def check_points(ctx, lv, pts, mine, events, kid, exp, spec, shift, n):
    """The points of a batch are the events of its parents."""
    below = S.nadir(spec['quirks'])
    want, have = {}, {}
    for e in events:
        if kid(e) & 0xffffffff in mine:
            x = exp['event'][e]
            key = (kid(e) & 0xffffffff, S.lat_raw(x['lat']), S.lon_raw(x['lon'], below), round(2 * x['energy'] / (S.E_SCALE * 1e9)))
            want.setdefault(key, []).append(x['t'] + shift)
    for k, i in enumerate(ids(pts['flash_id'])):
        key = (i, S.lat_raw(float(pts['lat'][k])), S.lon_raw(float(pts['lon'][k]), below),
               round(2 * float(pts['power'][k]) / (S.E_SCALE * 1e9)))
        have.setdefault(key, []).append(float(pts['time'][k]))
    odd = set(want) ^ set(have)
    ctx.check(not odd, 'wrong-points', '%s batch %d: %s (got %d, expected %d)' % (lv, n, sorted(odd)[:3], len(have), len(want)))
    for key in want:
        a, b = sorted(want[key]), sorted(have[key])
        ctx.check(len(a) == len(b) and all(abs(x - y) <= 2e-3 for x, y in zip(a, b)), 'wrong-points',
                  '%s batch %d %s: times %s, expected %s' % (lv, n, key, b[:5], a[:5]))


def note(ctx, r, res, fired, status):
    rows = tuple(sum(len(par) for _, par in res[0][lv]) for lv in LEVELS) if status == 'ok' else ()
    ctx.log(r['chunk'], sorted(r['kw']), r['sink'], status, res[1] if status == 'ok' else '', rows)
    ctx.state(r['chunk'], sorted(r['kw']), r['sink'], fired, status, rows)


def in_threads(sc, ctx, spec, exp, path):
    from glmtools.io.glm import GLMDataset
    g = GLMDataset(path)
    before = c02.snapshot(g.dataset)
    sched = baton.Sched(sc['moves'])
    res = sched.run([lambda rs=rs: [read(g, spec, r) for r in rs] for rs in sc['threads']])
    ctx.steps += sched.lines
    ctx.switches += sched.switches
    for row in sched.trace:
        ctx.log(row)
    if sched.switches:
        ctx.fault('thread preempted in a table read', sched.switches)
    for rs, out in zip(sc['threads'], res):
        if out[0] != 'ok':
            ctx.fail('read-raised:' + type(out[1]).__name__, out[2][-2000:])
        for r, x in zip(rs, out[1]):
            judge(ctx, r, x, spec, exp)
            ctx.probe('tables judged')
            if x[1]:
                ctx.fault('receiver failed')
            note(ctx, r, x, (), 'ok')
    bad = c02.same_snapshot(before, c02.snapshot(g.dataset))
    ctx.check(not bad, 'open-data-changed', bad)


def execute(sc, ctx):
    from glmtools.io.glm import GLMDataset
    spec = sc['spec']
    exp = model.expected(spec)
    if c02.close_to_limit(exp):
        return
    if sc['kind'] == 'threads':
        path = os.path.join(ctx.root, S.filename(spec))
        S.write(spec, path)
        return in_threads(sc, ctx, spec, exp, path)
    w = ctx.world('w')
    path = os.path.join(w.disk, S.filename(spec))
    S.write(spec, path)
    # afterwards nothing is wrong any more
    todo = sc['reads'] + [dict(r, faults=[], sink=None, clip=False, fresh=k > 0) for k, r in enumerate(sc['reads'][-1:] * 2)]
    notes = os.path.join(w.side, 'notes')

    def history():
        g = None
        with open(notes, 'wb') as f:
            for k, r in enumerate(todo):
                mark('begin', k)
                try:
                    if g is None or r['fresh']:
                        g = GLMDataset(path)
                    mark('opened', k)
                    res = ('ok', read(g, spec, r))
                except Exception:
                    res = ('error', traceback.format_exc()[-2500:])
                mark('finish', k)
                pickle.dump(res, f)
                f.flush()
        return True

    spans = {}

    def on_mark(p, label, value):
        if label in ('begin', 'opened'):
            for f in todo[value]['faults']:
                if f.get('late', False) == (label == 'opened'):
                    w.faults.setdefault(('h', f['cls'], p.counts.get(f['cls'], 0) + f['nth']), f)
        if label == 'begin':
            spans[value] = [len(w.fired), None]
        elif label == 'finish':
            spans[value][1] = len(w.fired)
            w.faults.clear()
    w.on_mark = on_mark
    p = w.spawn('h', history, clock=Clock(1600000000, 1e-4))
    if not w.run():
        raise Violation('no-progress', 'history')
    ctx.absorb(w)
    done = []
    with open(notes, 'rb') as f:
        while True:
            try:
                done.append(pickle.load(f))
            except EOFError:
                break
    fired = {k: w.fired[a:b] for k, (a, b) in spans.items()}
    hard = {k: [x for x in v if x[3] not in c06.SOFT] for k, v in fired.items()}
    if p.status == 'signal':
        ctx.check(hard.get(len(done)), 'died-without-fault', p.error['text'])
        ctx.probe('library died after injected error')
    elif p.status != 'ok':
        raise Violation('history-failed', '%s %s' % (p.status, p.error))
    for k, (status, res) in enumerate(done):
        r = todo[k]
        if status == 'ok':
            judge(ctx, r, res, spec, exp)
            ctx.probe('tables judged')
            if res[1]:
                ctx.fault('receiver failed')
        else:
            ctx.check(hard[k], 'failed-after-recovery' if k >= len(sc['reads']) else 'error-without-fault', 'read %d: %s' % (k, res))
            ctx.probe('read raised')
        if fired[k]:
            ctx.nontrivial = True
        note(ctx, r, res, tuple(x[1:] for x in fired[k]), status)
    ctx.sim_seconds += 20.0
