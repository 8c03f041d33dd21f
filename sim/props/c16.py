import numpy as np
import pandas as pd
import xarray as xr

import baton
from core import Violation
from props import c02

ID = 'C16'
RUNS = {'quick': 10000, 'thorough': 120000}
RULE = ('a run counts when at least two streams were fed in turns (or one was closed or broken off while another went on) and every '
        'grid was judged after every batch; distinct by the hash of the interleaved history')
STATES = 'distinct (threads, streams, batch forms, closed and broken streams, empty batches, switches) tuples'
REAL = ['glmtools.grid.accumulate', 'numpy', 'pandas', 'xarray']
STUB = ['coroutine helper of lmatools', 'choice of the next stream and thread']
ASSUMPTIONS = ['a batch names each cell at most once, as the docstring asks', 'contributions to a minimum are positive']
SHRINK = ['threads', 'threads.*', 'moves']


def value(rng, op):
    """Exact in single precision, also when summed."""
    v = rng.choice([1, 2, 3, 8, 40, 1000]) / rng.choice([8., 8., 8., 2048.])
    if rng.random() < .2:
        v = rng.randrange(1, 100000) / 2048.
    return -v if op == 'sum' and rng.random() < .1 else v


def generate(rng, tier):
    nx, ny, frames = rng.choice([1, 3, 5]), rng.choice([1, 2, 6]), rng.choice([1, 2, 3])
    streams = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        streams.append({'frame': rng.randrange(frames), 'op': rng.choice(['sum', 'sum', 'min']), 'field': rng.randrange(2),
                        'front': rng.choice(['events', 'events', 'flashes', None]), 'out': rng.random() < .5})
    seen = {}
    for s in streams:
        # an array holds sums or minima, not both
        s['op'] = seen.setdefault(s['field'], s['op'])
    n = rng.choice([1, 1, 2, 3])
    threads = []
    for k in range(n):
        mine = [i for i in range(len(streams)) if i % n == k]
        todo = []
        for _ in range(rng.choice([2, 6, 15]) if mine else 0):
            i = rng.choice(mine)
            r = rng.random()
            if r < .06:
                todo.append({'s': i, 'do': 'close'})
                continue
            cells = [c for c in range(nx * ny) if rng.random() < rng.choice([0, .3, .7, 1])]
            rng.shuffle(cells)
            b = {'s': i, 'do': 'send', 'form': rng.choice(['rec', 'rec', 'pandas', 'xarray']),
                 'rows': [[c // ny, c % ny, value(rng, streams[i]['op'])] for c in cells]}
            if r > .95:
                b['bad'] = rng.choice(['column', 'x', 'y'])
                if b['bad'] != 'column':
                    b['rows'].insert(rng.randrange(len(b['rows']) + 1), [nx + rng.randrange(3) if b['bad'] == 'x' else 0,
                                                                      ny + rng.randrange(3) if b['bad'] == 'y' else 0, 1.])
            todo.append(b)
            while rng.random() < .15:
                # the very same contribution again
                todo.append(b)
        threads.append(todo)
    return {'nx': nx, 'ny': ny, 'frames': frames, 'streams': streams, 'threads': threads,
            'moves': c02.gen_moves(rng, n), 'dtype': rng.choice(['float32', 'float32', 'float64'])}


def batch(b):
    rows = b['rows']
    xi = np.array([r[0] for r in rows], dtype=int)
    yi = np.array([r[1] for r in rows], dtype=int)
    val = np.array([r[2] for r in rows], dtype='f8')
    name = 'other' if b.get('bad') == 'column' else 'val'
    if b['form'] == 'rec':
        a = np.empty(len(rows), dtype=[('mesh_xi', int), ('mesh_yi', int), (name, 'f8')])
        a['mesh_xi'], a['mesh_yi'], a[name] = xi, yi, val
        return a
    if b['form'] == 'pandas':
        return pd.DataFrame({'mesh_xi': xi, 'mesh_yi': yi, name: val})
    return xr.Dataset({'mesh_xi': ('n', xi), 'mesh_yi': ('n', yi), name: ('n', val)})


def execute(sc, ctx):
    from glmtools.grid import accumulate as A
    nx, ny, dt = sc['nx'], sc['ny'], sc['dtype']
    shape = (ny, nx, sc['frames'])
    grids = [np.zeros(shape, dtype=dt) for _ in range(2)]
    want = [np.zeros(shape) for _ in range(2)]
    loose = [np.zeros(shape, dtype=bool) for _ in range(2)]     # cells of a rejected batch
    fronts, sinks, outs = [], [], []
    for s in sc['streams']:
        make = A.accumulate_var_on_grid_direct_idx if s['op'] == 'sum' else A.accumulate_minvar_on_grid_direct_idx
        out = {} if s['out'] else None
        kw = {'out': out} if s['out'] else {}
        sink = make(grids[s['field']][:, :, s['frame']], 'val', 'mesh_xi', 'mesh_yi', **kw)
        sinks.append(sink)
        outs.append(out)
        fronts.append(A.select_dataset(sink, use_event_data=s['front'] == 'events') if s['front'] else sink)
    ended = {}
    owner = {}
    for k, todo in enumerate(sc['threads']):
        for b in todo:
            owner[b['s']] = k
    # two threads never share a frame of a field
    places = {}
    for i, s in enumerate(sc['streams']):
        if i in owner:
            places.setdefault((s['field'], s['frame']), set()).add(owner[i])
    if len(sc['threads']) > 1 and any(len(v) > 1 for v in places.values()):
        ctx.probe('streams of one frame kept in one thread')
        sc = dict(sc, threads=[[b for t in sc['threads'] for b in t]])
    count = {'empty': 0, 'closed': 0, 'bad': 0, 'forms': set(), 'turns': 0}

    def judge(field, frame, when):
        got, exp, skip = grids[field][:, :, frame], want[field][:, :, frame], loose[field][:, :, frame]
        bad = (got != exp) & ~skip
        if bad.any():
            y, x = np.argwhere(bad)[0]
            raise Violation('wrong-cell', '%s: field %d frame %d cell x=%d y=%d is %r, should be %r' % (
                when, field, frame, x, y, float(got[y, x]), float(exp[y, x])))

    def run(todo):
        prev = None
        for k, b in enumerate(todo):
            i = b['s']
            s = sc['streams'][i]
            if prev is not None and prev != i:
                count['turns'] += 1
            prev = i
            f, t = s['field'], s['frame']
            if b['do'] == 'close':
                for c in (fronts[i], sinks[i]):
                    c.close()
                ended.setdefault(i, 'closed')
                count['closed'] += 1
                if outs[i] is not None and ended[i] == 'closed' and not loose[f][:, :, t].any():
                    if 'out' not in outs[i] or not np.array_equal(outs[i]['out'], want[f][:, :, t]):
                        raise Violation('closed-stream-lost-data', 'stream %d' % i)
                judge(f, t, 'after closing')
                continue
            data = batch(b)
            none = batch(dict(b, rows=[], form='rec'))
            msg = data if not s['front'] else (data, none) if s['front'] == 'events' else (none, data)
            try:
                fronts[i].send(msg)
                res = 'ok'
            except StopIteration:
                res = 'ended'
            except Exception as e:
                res = 'error'
                err = e
            count['forms'].add(b['form'])
            count['empty'] += not b['rows']
            rows = [r for r in b['rows'] if r[0] < nx and r[1] < ny]
            if res == 'ended':
                if i not in ended:
                    raise Violation('stream-ended', 'stream %d no longer takes data' % i)
            elif res == 'error':
                if not b.get('bad') and i not in ended:
                    raise err
                ended[i] = 'broken'
                count['bad'] += 1
                for x, y, v in rows:
                    loose[f][y, x, t] = True
            elif not (b.get('bad') == 'column'):
                for x, y, v in rows:
                    old = want[f][y, x, t]
                    want[f][y, x, t] = old + v if s['op'] == 'sum' else min(old, v) if old > 0 else v
            elif rows:
                raise Violation('bad-batch-accepted', 'a batch without the field was taken')
            judge(f, t, 'after batch %d' % k)
        return True

    sched = baton.Sched(sc['moves'])
    for r in sched.run([(lambda t=t: run(t)) for t in sc['threads']]):
        if r[0] == 'error':
            raise r[1]
    for f in range(2):
        for t in range(sc['frames']):
            judge(f, t, 'at the end')
    for i in range(len(fronts)):
        for c in (fronts[i], sinks[i]):
            c.close()
    for f in range(2):
        for t in range(sc['frames']):
            judge(f, t, 'after closing all')
    for i, o in enumerate(outs):
        s = sc['streams'][i]
        if o is not None and not loose[s['field']][:, :, s['frame']].any() and ended.get(i) != 'broken':
            ctx.check('out' in o and np.array_equal(o['out'], want[s['field']][:, :, s['frame']]), 'closed-stream-lost-data', 'stream %d' % i)
    ctx.switches += sched.switches
    ctx.steps += sum(map(len, sc['threads']))
    for k in ('closed', 'bad', 'empty'):
        if count[k]:
            ctx.probe({'closed': 'stream closed early', 'bad': 'batch rejected', 'empty': 'empty batch'}[k], count[k])
    if count['bad']:
        ctx.fault('rejected batch', count['bad'])
    if count['closed']:
        ctx.fault('stream closed early', count['closed'])
    ctx.nontrivial = ctx.nontrivial or count['turns'] > 0 or sched.switches > 0
    ctx.log('history', sorted(sc['threads'], key=str), sched.trace, [float(g.sum()) for g in grids])
    ctx.state(len(sc['threads']), len(sc['streams']), sorted(count['forms']), min(count['closed'], 3), min(count['bad'], 2), bool(count['empty']),
              min(sched.switches, 8))
