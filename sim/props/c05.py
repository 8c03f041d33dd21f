import copy
import os

import baton
import feed
import job as J
import numpy as np
import product as P
import synth
from core import Violation
from props import c02

ID = 'C05'
RUNS = {'quick': 600, 'thorough': 9000}
RULE = ('a run counts when at least one event fell into the grid and span and the batch was delivered out of order, in parts, '
        'more than once, with lost records, or with disturbed reads; distinct by the hash of the resulting fields and of the trace')
STATES = 'distinct (frames, files, empty files, frames with lightning, attempt kinds, order of delivery) tuples'
REAL = ['glmtools.io.glm', 'glmtools.io.mimic_lma', 'glmtools.grid (all of the clipping gridder)', 'glmtools.io.imagery', 'xarray',
        'netCDF4/HDF5', 'pyclipper', 'scipy']
STUB = ['lmatools gridder base class, frame selection and fixed-grid tables', 'input files are synthetic', 'thread switching (at source lines)',
        'file call results at injected faults']
ASSUMPTIONS = ['flash, group and event IDs are unique in a file', 'flashes lie within 100 km of the grid or farther away than their extent',
               'pixels are at most 3 microradians larger than the cells searched around them on 2 km grids']
SHRINK = ['attempts', 'specs', 'ops.*', 'specs.*.flashes', 'faults', 'moves']


def gen_shaken(rng):
    """Events of one pixel lie a little apart, and the records of a file come in another order."""
    cfg, specs = J.gen(rng, files=rng.choice([1, 2]), frames=1)
    crowd = rng.random() < .8
    for s in specs:
        at = list(s['events'][0]) if s['events'] else None
        for e in s['events']:
            if crowd and rng.random() < .6:
                e[synth.E_LAT], e[synth.E_LON] = at[synth.E_LAT], at[synth.E_LON]
            e[synth.E_LAT] += rng.choice([-1, 0, 0, 1])
            e[synth.E_LON] += rng.choice([-1, 0, 0, 1])
    return {'kind': 'shaken', 'cfg': cfg, 'specs': specs, 'seeds': [rng.randrange(1 << 30) for _ in range(rng.choice([1, 2]))], 'ops': []}


def execute_shaken(sc, ctx):
    cfg = sc['cfg']
    top = ctx.scratch('out')
    res = []
    for n, seed in enumerate([None] + sc['seeds']):
        ops = [] if seed is None else [{'op': 'shuffle', 'level': lv, 'seed': seed + k} for k, lv in enumerate(('events', 'groups', 'flashes'))]
        specs = [feed.apply(s, ops, ctx.fault) for s in sc['specs']]
        if not specs:
            return
        paths = J.write(specs, ctx.scratch('in%d' % n))
        a = {'order': list(range(len(paths))), 'scaled': False, 'chunk': 0}
        res.append(run_one(a, n, paths, cfg, top)[0][0])
        ctx.check(res[-1] is not None, 'frame-missing')
    busy = bool(np.nansum(res[0]['vars']['flash_extent_density']))
    for n, r in enumerate(res[1:]):
        for f in P.FIELDS:
            u, v = (np.where(np.isnan(x['vars'][f]), 0, x['vars'][f]) for x in (res[0], r))
            ctx.check(u.shape == v.shape and np.allclose(u, v, rtol=1e-4, atol=1e-4 * max(u.max(initial=0), 1e-9)), 'order-dependent',
                      lambda: '%s with the records of the files in another order' % f)
        ctx.probe('frames compared')
    ctx.probe('frames with lightning', busy * len(res))
    ctx.log([float('%.3g' % np.nansum(v)) for _, v in sorted(res[0]['vars'].items()) if v.ndim == 2])
    ctx.state('shaken', len(sc['specs']), sum(len(s['events']) for s in sc['specs']), busy)
    ctx.nontrivial = busy
    ctx.sim_seconds += cfg['frames'] * cfg['frame_s'] * len(res)


def generate(rng, tier):
    if rng.random() < .12:
        return gen_shaken(rng)
    cfg, specs = J.gen(rng, signless=rng.random() < .1, oblong=True)
    if rng.random() < .25:
        # finer than the instrument
        cfg, specs = J.gen(rng, dxs=(56e-6,), max_n=14)
    elif rng.random() < .03:
        # many files
        cfg, specs = J.gen(rng, files=rng.randrange(9, 19), frames=rng.choice([3, 4]))
    elif rng.random() < .025:
        # a large grid and many pixels
        cfg, specs = J.gen(rng, wide=True)
    ops = []
    for s in specs:
        o = feed.gen_ops(rng, s) if rng.random() < .4 else []
        # IDs stay unique and parents stay in their file
        ops.append([x for x in o if x['op'] in ('drop', 'burst', 'orphan', 'shuffle', 'cut', 'empty')])
    threads = rng.choice([0, 0, 0, 0, 0, 2])
    attempts = []
    for _ in range(threads or rng.choice([1, 2, 2, 3])):
        order = list(range(len(specs)))
        rng.shuffle(order)
        attempts.append({'order': order, 'scaled': rng.random() < .5,
                         'chunk': rng.choice([0, 0, 1, 2, 3, 5]), 'one': rng.random() < .5})
    sc = {'cfg': cfg, 'specs': specs, 'ops': ops, 'attempts': attempts, 'threads': threads,
          'moves': c02.gen_moves(rng, threads), 'faults': [], 'later': None}
    if not threads and len(attempts) > 1 and rng.random() < .3:
        # a file comes again with other content before a later attempt
        f = rng.randrange(len(specs))
        sc['later'] = {'from': rng.randrange(1, len(attempts)), 'file': f, 'spec': J.redeliver(rng, cfg, specs[f])}
    if not threads and not sc['later'] and rng.random() < .25:
        for _ in range(rng.choice([1, 3, 6])):
            sc['faults'].append(dict(proc='j', cls='read', nth=rng.randrange(0, 150),
                                     **rng.choice([dict(do='short', frac=rng.random()), dict(do='err', err='EINTR')])))
    return sc


def run_one(a, n, paths, cfg, top):
    """One attempt; returns the products in frame order."""
    out = os.path.join(top, 'a%d' % n, P.T_EXACT)
    files = [paths[i] for i in a['order'] if i < len(paths)]
    if a['chunk']:
        J.chunked(files, cfg, out, a['scaled'], a['chunk'])
    else:
        kw = {'scale_and_offset': a['scaled']}
        mine = copy.deepcopy(kw), list(files)
        J.call(files, cfg, out, output_kwargs=kw)
        if (kw, files) != mine:
            raise Violation('options-changed', '%r became %r' % (mine, (kw, files)))
    res = []
    for k in range(cfg['frames']):
        path = os.path.join(top, 'a%d' % n, P.exact_name(cfg, k))
        res.append(P.read(path) if os.path.exists(path) else None)
    extra = set(os.listdir(os.path.join(top, 'a%d' % n))) - {P.exact_name(cfg, k) for k in range(cfg['frames'])}
    return res, sorted(extra)


def execute(sc, ctx):
    if sc.get('kind') == 'shaken':
        return execute_shaken(sc, ctx)
    cfg = sc['cfg']
    specs = [feed.apply(s, o, ctx.fault) for s, o in zip(sc['specs'], sc['ops'])]
    if not specs:
        return
    w = ctx.world('w', faults=sc['faults'])
    paths = J.write(specs, os.path.join(w.disk, 'in'))
    top = ctx.scratch('out')
    at = sc['attempts']
    later = sc['later']
    if later and later['file'] >= len(specs):
        later = None
    if sc['threads']:
        sched = baton.Sched(sc['moves'])
        out = sched.run([(lambda a=a, n=n: run_one(a, n, paths, cfg, top)) for n, a in enumerate(at)])
        ctx.steps += sched.lines
        ctx.switches += sched.switches
        if sched.switches:
            ctx.fault('thread preempted in a job', sched.switches)
        for row in sched.trace:
            ctx.log(row)
        for r in out:
            if r[0] != 'ok':
                if isinstance(r[1], Violation):
                    raise r[1]
                raise Violation('job-raised', r[2][-2500:])
        done = [r[1] for r in out]
    elif sc['faults']:
        p = w.spawn('j', lambda: [run_one(a, n, paths, cfg, top) for n, a in enumerate(at)])
        if not w.run():
            raise Violation('no-progress')
        ctx.absorb(w)
        if p.status != 'ok':
            raise Violation('job-raised', '%s %s' % (p.status, p.error and p.error['where']))
        done = p.result
    else:
        done = []
        for n, a in enumerate(at):
            if later and n == later['from']:
                new = J.write([later['spec']], ctx.scratch('new'))[0]
                os.replace(new, paths[later['file']])
                ctx.fault('file delivered again with other content')
            done.append(run_one(a, n, paths, cfg, top))
    ref = J.reference(cfg, specs)
    refs = [ref] * len(at)
    if later:
        second = J.reference(cfg, specs[:later['file']] + [later['spec']] + specs[later['file'] + 1:])
        refs = [second if n >= later['from'] else ref for n in range(len(at))]
    busy = tuple(bool(r['fields']['flash_extent_density'].any()) for r in ref)
    for n, (a, (frames, extra)) in enumerate(zip(at, done)):
        ctx.check(not extra, 'stray-product', extra)
        for k, got in enumerate(frames):
            ctx.check(got is not None, 'frame-missing', 'frame %d of %d' % (k, cfg['frames']))
            bad = J.differ(got, refs[n][k], a['scaled'])
            if bad:
                ctx.fail(bad[0], 'attempt %d frame %d: %s' % (n, k, bad[1]))
            first = next((m for m in range(n) if at[m]['scaled'] == a['scaled'] and refs[m] is refs[n]), None)
            if first is not None:
                bad = alike(frames[k], done[first][0][k])
                ctx.check(not bad, 'order-dependent', lambda: 'attempt %d and %d, frame %d: %s' % (first, n, k, bad))
            ctx.log(n, k, [float('%.3g' % np.nansum(v)) for _, v in sorted(got['vars'].items()) if v.ndim == 2])
    ordered = all(a['order'] == sorted(a['order']) for a in at)
    ctx.probe('frames compared', len(at) * cfg['frames'])
    ctx.probe('frames with lightning', sum(busy) * len(at))
    ctx.probe('empty files', sum(not s['events'] for s in specs))
    if not ordered:
        ctx.fault('files delivered out of order')
    if len(at) > 1:
        ctx.fault('job repeated', len(at) - 1)
    if any(a['chunk'] for a in at):
        ctx.fault('file read in parts')
    ctx.state(len(specs), sum(not s['events'] for s in specs), busy, tuple(a['chunk'] for a in at), tuple(tuple(a['order']) for a in at))
    ctx.nontrivial = ctx.nontrivial and any(busy)
    ctx.sim_seconds += cfg['frames'] * cfg['frame_s'] * len(at)


def alike(a, b):
    """Same batch, other order: equal up to rounding of sums and one storage step."""
    for f in P.FIELDS:
        u, v = (np.where(np.isnan(x['vars'][f]), 0, x['vars'][f]) for x in (a, b))
        if u.shape != v.shape:
            return f + ' shape'
        tol = 2e-4 * np.maximum(np.abs(u), np.abs(v)) + 1.01 * P.STEP[f] + 1e-9
        if (np.abs(u - v) > tol).any():
            return f
    return ''
