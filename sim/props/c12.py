import os
import random
from datetime import timedelta

import numpy as np
import product as P
from core import Violation
from props import c06
from world import Clock

ID = 'C12'
RUNS = {'quick': 600, 'thorough': 8000}
RULE = ('a run counts when at least two products were opened as one series, or a fault fired; distinct by the hash of the delivery '
        'order, the operation trace and the resulting fields')
STATES = 'distinct (frames, order of delivery, gaps, interval, given span, fault, outcome) tuples'
REAL = ['glmtools.io.imagery (writer, series and aggregation)', 'xarray', 'pandas', 'netCDF4/HDF5', 'kernel file system']
STUB = ['the multi-file open (dask is absent: files are read at once and put together in the given order)',
        'lmatools gridder base class and fixed-grid tables', 'file call results at injected faults', 'clock']
ASSUMPTIONS = ['all products of a series are on one grid', 'interval lengths are whole minutes']
SHRINK = ['frames', 'order', 'attempts', 'attempts.*.faults', 'frames.*.cells']


def gen_fault(rng, n=2):
    cls = rng.choice(['read'] * 6 + ['open', 'open', 'stat', 'lock'])
    f = {'proc': 'r', 'cls': cls, 'nth': rng.randrange({'read': 160, 'open': 8 + 2 * n, 'stat': 30, 'lock': 8}[cls]), 'do': 'err'}
    if cls == 'read' and rng.random() < .35:
        f.update(do='short', frac=round(rng.random(), 3))
    else:
        f['err'] = rng.choice({'read': ['EIO', 'EIO', 'EINTR'], 'open': ['EACCES', 'ENOENT', 'EMFILE']}.get(cls, ['EIO']))
    return f


def generate(rng, tier):
    base = P.gen_cfg(rng, max_n=7, frames=1, cells=0)
    base['frame_s'] = rng.choice([60, 60, 60, 20, 120])
    step = base['frame_s']
    base['t'] -= base['t'] % rng.choice([20, 60, 300])
    n = rng.choice([1, 2, 3, 4, 5, 6]) if rng.random() < .95 else rng.randrange(11, 26)
    slots = sorted(rng.sample(range(n + rng.choice([0, 0, 1, 4])), n))
    frames = []
    for s in slots:
        c = P.gen_cfg(rng, max_n=7, frames=1)
        for k in ('t', 'frame_s', 'dx', 'nx', 'ny', 'i0', 'j0', 'sat'):
            c[k] = base[k]
        c['bulk'] = [rng.randrange(1 << 30), rng.choice([.1, .4, .8])] if rng.random() < .7 else None
        c['t'] = base['t'] + s * step
        # only plain cells: the aggregate of clipped values is not of interest here
        c['cells'] = [x for x in c['cells'] if x[4] < 60000 * P.STEP[x[0]]]
        frames.append(c)
    order = list(range(n))
    style = rng.choice(['sorted', 'shuffled', 'shuffled', 'reversed'])
    if style == 'shuffled':
        rng.shuffle(order)
    elif style == 'reversed':
        order.reverse()
    attempts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        minutes = rng.choice([1, 1, 2, 3, 5, 10, 15, 60])
        span = None
        if rng.random() < .4:
            a = base['t'] + rng.choice([-600, -60, 0, 0, 60, 120, 30])
            span = [a, a + 60 * minutes * rng.randrange(1, 4) + rng.choice([0, 0, 30])]
        attempts.append({'minutes': minutes, 'span': span, 'again': rng.random() < .3,
                         'faults': [gen_fault(rng, n) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < .4 else []})
    return {'frames': frames, 'order': order, 'scaled': rng.random() < .7, 'std': rng.random() < .4, 'attempts': attempts}


def open_mfdataset(paths, chunks=None, concat_dim=None, compat='no_conflicts', preprocess=None, engine=None,
                   data_vars='all', coords='different', combine='by_coords', parallel=False, join='outer',
                   attrs_file=None, combine_attrs='override', **kw):
    """Stand-in: reads the files at once."""
    import glob
    import xarray as xr
    if isinstance(paths, str):
        paths = sorted(glob.glob(paths))
    if not len(paths):
        raise OSError('no files to open')
    ds = []
    for p in paths:
        with xr.open_dataset(p, engine=engine, **kw) as d:
            ds.append(preprocess(d.load()) if preprocess else d.load())
    if combine == 'by_coords':
        return xr.combine_by_coords(ds, compat=compat, data_vars=data_vars, coords=coords, join=join, combine_attrs=combine_attrs)
    if isinstance(concat_dim, list):
        concat_dim = concat_dim[0]
    return xr.concat(ds, dim=concat_dim, compat=compat, data_vars=data_vars, coords=coords, join=join, combine_attrs=combine_attrs)


def plain(ds, dim):
    """Fields of a series or aggregate as arrays with time first."""
    out = {}
    for f in P.FIELDS:
        if f in ds:
            v = ds[f]
            out[f] = np.array(v.transpose(dim, 'y', 'x').data, dtype='f8')
    return out


def session(paths, a, start_of):
    """Open as a series, aggregate, look again.  Runs in the simulated process."""
    import xarray as xr
    from glmtools.io.imagery import aggregate, open_glm_time_series
    xr.open_mfdataset = open_mfdataset
    given = list(paths)
    ds = open_glm_time_series(given)
    names = sorted(map(str, ds.variables)), dict(ds.sizes), dict(ds.attrs)
    res = {'times': [str(t)[:19] for t in np.array(ds['time'].data).astype('M8[s]')], 'series': plain(ds, 'time'),
           'cover': (str(ds.attrs['time_coverage_start']), str(ds.attrs['time_coverage_end'])), 'given': given == list(paths), 'aggs': []}
    for _ in range(2 if a['again'] else 1):
        span = None
        if a['span']:
            span = (start_of(a['span'][0]), start_of(a['span'][1]))
        ag = aggregate(ds, a['minutes'], span) if span else aggregate(ds, a['minutes'])
        bins = [(np.datetime64(v.left, 's'), np.datetime64(v.right, 's')) for v in ag.time_bins.values]
        res['aggs'].append(([(str(l), str(r)) for l, r in bins], plain(ag, 'time_bins')))
    after = plain(ds, 'time')
    res['same'] = all(np.array_equal(after[f], res['series'][f], equal_nan=True) for f in after) \
        and names == (sorted(map(str, ds.variables)), dict(ds.sizes), dict(ds.attrs))
    return res


def reference(raw, starts, bins):
    """Aggregate of the frames that begin in each interval."""
    out = {f: [] for f in P.FIELDS}
    n = []
    for lo, hi in bins:
        mine = [r for r, t in zip(raw, starts) if lo <= t < hi]
        n.append(len(mine))
        shape = raw[0][P.FIELDS[0]].shape
        z = {f: [np.nan_to_num(r[f]) for r in mine] or [np.zeros(shape)] for f in P.FIELDS}
        for f in P.FIELDS:
            if f in P.OVER:
                ext = z[P.OVER[f]]
                tot = sum(v * e for v, e in zip(z[f], ext))
                with np.errstate(all='ignore'):
                    out[f].append(np.where(sum(ext) > 0, tot / sum(ext), 0))
            elif f == 'minimum_flash_area':
                m = np.min([np.where(v > 0, v, np.inf) for v in z[f]], axis=0)
                out[f].append(np.where(np.isfinite(m), m, 0))
            else:
                out[f].append(sum(z[f]))
    return {f: np.array(v) for f, v in out.items()}, n


def execute(sc, ctx):
    frames = sc['frames']
    order = [i for i in sc['order'] if i < len(frames)]
    if not order:
        return
    w = ctx.world('w')
    files = []
    clock = [0]
    for k, c in enumerate(frames):
        top = os.path.join(w.disk, 'f%d' % k if not sc['std'] else 'in')
        g = P.make(c)
        files.append(g.write_grids(outpath=os.path.join(top, '{dataset_name}' if sc['std'] else P.T_EXACT),
                                   output_kwargs={'scale_and_offset': sc['scaled']})[0])
    raw = []
    for k, c in enumerate(frames):
        got = P.read(files[k])
        bad = P.differ(got, P.expected(c, 0, sc['scaled']))
        if bad:
            ctx.fail(*bad)
        raw.append({f: got['vars'][f] for f in P.FIELDS})
    starts = [np.datetime64(P.start_of(c), 's') for c in frames]
    ends = [P.span(c)[0][1] for c in frames]
    use = [raw[i] for i in order]
    when = [starts[i] for i in order]
    paths = [files[i] for i in order]

    def start_of(t):
        return P.EPOCH + timedelta(seconds=t)

    todo = [dict(a, last=False) for a in sc['attempts']]
    if todo:
        todo.append(dict(todo[-1], faults=[], last=True))
    for n, a in enumerate(todo):
        name = 'r%d' % n
        for f in a['faults']:
            w.faults.setdefault((name, f['cls'], f['nth']), dict(f, proc=name))
        mark0 = len(w.fired)
        p = w.spawn(name, lambda: session(paths, a, start_of), clock=Clock(1600000000 + 100 * n, 1e-3))
        if not w.run():
            raise Violation('no-progress')
        fired = w.fired[mark0:]
        hard = [f for f in fired if f[3] not in c06.SOFT]
        if p.status == 'error' and a['span'] and not hard and empty(a, when, start_of):
            # nothing to aggregate: an error will do
            ctx.probe('no frame in the span')
            continue
        if p.status != 'ok':
            ctx.check(hard and p.status in ('error', 'signal'), 'series-raised', lambda: '%s %s' % (p.status, p.error and p.error['where']))
            ctx.probe('attempt raised')
            ctx.state(p.status, fired[0][1:])
            ctx.log(n, p.status, fired)
            continue
        r = p.result
        ctx.check(r['given'], 'file-list-changed')
        ctx.check(sorted(r['times']) == sorted(str(t) for t in when), 'wrong-times', lambda: '%s, expected %s' % (r['times'], [str(t) for t in when]))
        for t, k in zip(r['times'], range(len(when))):
            src = use[[str(x) for x in when].index(t)]
            for f in P.FIELDS:
                ctx.check(f in r['series'], 'field-missing', f)
                ctx.check(close(r['series'][f][k], src[f], 1e-5, 0), 'frame-misplaced', lambda: '%s of the frame at %s' % (f, t))
        ctx.check(cut(r['cover'][0]) == str(min(when)) and cut(r['cover'][1]) == str(np.datetime64(max(ends[i] for i in order), 's')),
                  'wrong-coverage', lambda: str(r['cover']))
        dt = np.timedelta64(60 * a['minutes'], 's')
        for bins, ag in r['aggs']:
            edges = [(np.datetime64(l), np.datetime64(h)) for l, h in bins]
            lo = np.datetime64(start_of(a['span'][0]), 's') if a['span'] else min(when)
            hi = np.datetime64(start_of(a['span'][1]), 's') if a['span'] else max(when) + dt
            want = [(lo + i * dt, lo + (i + 1) * dt) for i in range(int((hi - lo) / dt))]
            ctx.check(edges == want, 'wrong-intervals', lambda: '%s, expected %s' % (edges, want))
            ref, count = reference(use, when, edges)
            for f in P.FIELDS:
                ctx.check(f in ag, 'field-missing', f)
                ctx.check(close(ag[f], ref[f], 2e-4, 1e-7 * P.STEP[f]), 'wrong-aggregate',
                          lambda: '%s: %s' % (f, first_diff(ag[f], ref[f], bins)))
            ctx.probe('frames aggregated', sum(count))
            ctx.probe('empty intervals', count.count(0))
        ctx.check(r['same'], 'input-changed', 'the series changed while it was aggregated')
        ctx.log(n, r['times'], [float('%.4g' % np.nansum(v)) for _, v in sorted(r['aggs'][0][1].items())])
        ctx.state(len(order), tuple(order), tuple(int((t - min(when)) / np.timedelta64(1, 's')) for t in when), a['minutes'], bool(a['span']),
                  tuple(f[1:] for f in fired))
        if fired or len(order) > 1:
            ctx.nontrivial = True
    if order != sorted(order):
        ctx.fault('files delivered out of order')
    ctx.absorb(w)
    ctx.sim_seconds += sum(c['frame_s'] for c in frames)


def empty(a, when, start_of):
    lo, n = start_of(a['span'][0]), (a['span'][1] - a['span'][0]) // (60 * a['minutes'])
    lo = np.datetime64(lo, 's')
    return not any(lo <= t < lo + n * np.timedelta64(60 * a['minutes'], 's') for t in when)


def cut(s):
    return s.replace('Z', '')[:19]


def close(a, b, rt, at):
    a, b = np.nan_to_num(np.asarray(a)), np.nan_to_num(np.asarray(b))
    return a.shape == b.shape and bool((np.abs(a - b) <= rt * np.abs(b) + at).all())


def first_diff(a, b, bins):
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    if a.shape != b.shape:
        return '%s / %s' % (a.shape, b.shape)
    p = tuple(int(q) for q in np.argwhere(np.abs(a - b) > 2e-4 * np.abs(b) + 1e-9)[0])
    return 'cell %s of %s is %.7g, expected %.7g' % (p[1:], bins[p[0]], a[p], b[p])
