import os

import numpy as np

import baton
import feed
import model
import synth as S
from props import c02

ID = 'C03'
RUNS = {'quick': 700, 'thorough': 16000}
RULE = ('a run counts when a damaged value, a lost record or a thread switch inside an open occurred; distinct by the hash '
        'of switches, damage and results')
STATES = 'distinct (damage present, options, source kind, number of opens) tuples'
REAL = ['glmtools.io.glm', 'glmtools.io.traversal', 'xarray', 'netCDF4/HDF5', 'numpy', 'threads (one runs at a time)']
STUB = ['thread scheduler', 'input files are synthetic', 'lmatools (import only)']
ASSUMPTIONS = ['interleaving at source-line granularity of the code under test',
               'the sign-less times only occur in files of 15 October to 5 November 2018 that carry the frame time variables']
SHRINK = ['threads', 'threads.*', 'moves', 'files', 'files.*.ops', 'files.*.spec.flashes', 'files.*.spec.groups',
          'files.*.spec.events']


def gen_damaged(rng, **kw):
    q = {}
    if rng.random() < .35:
        q['late_times'] = 1
        if rng.random() < .75:
            q['unsigned_missing'] = 1
    if rng.random() < .35:
        q['area_m2'] = rng.choice([1, 1, 'flash', 'group'])
    q['energy'] = rng.choice([0, 1, 2, 2])
    if rng.random() < .3:
        q['sat'] = rng.choice(['west', 'test'])
    spec = S.gen_file(rng, feed.gen_t0(rng, q), quirks=q, big_ids=rng.random() < .3,
                      n_flash=rng.choice([0, 1, 2, 3, 5]), **kw)
    p = rng.choice([0, .15, .5, 1])
    for rows, col in ((spec['flashes'], S.F_AREA), (spec['groups'], S.G_AREA)):
        for r in rows:
            if rng.random() < p:
                r[col] = rng.choice([65535, 65535, 65534, 65530, 0])
    z = rng.choice([0, .3, 1])
    for e in spec['events']:
        if rng.random() < z:
            e[S.E_EN] = rng.choice([0, 0, 1, 65534])
    return {'spec': spec, 'ops': feed.gen_ops(rng, spec) if rng.random() < .35 else []}


def generate(rng, tier):
    files = [gen_damaged(rng) for _ in range(rng.choice([1, 2, 3]))]
    n_thr = rng.choice([1, 2, 2, 3])
    threads = []
    for _ in range(n_thr):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            opts = {}
            for k in ('check_area_units', 'change_energy_units', 'fix_bad_DO07_times'):
                if rng.random() < .12:
                    opts[k] = False
            if rng.random() < .2:
                opts['ellipse_rev'] = rng.choice([0, 1])
            if rng.random() < .1:
                opts['check_tree'] = False
            bare = rng.random() < .12
            if bare:
                opts['calculate_parent_child'] = False
            ops.append({'file': rng.randrange(len(files)), 'how': rng.choice(['path', 'path', 'memory']),
                        'opts': opts, 'then': '' if bare else rng.choice(['', '', 'all', 'subset', 'one'])})
        threads.append(ops)
    return {'files': files, 'threads': threads, 'moves': c02.gen_moves(rng, n_thr)}


def expected(spec, opts, memory):
    exp = model.expected(spec, opts.get('ellipse_rev', -1))
    if opts.get('check_area_units') is False:
        for lv, rows, col in (('flash', spec['flashes'], S.F_AREA), ('group', spec['groups'], S.G_AREA)):
            k = 1e6 if spec['quirks'].get('area_m2') in (1, lv) else 1.0
            for r in rows:
                if r[0] in exp[lv]:
                    exp[lv][r[0]]['area'] = None if r[col] == 65535 else model.area(r[col]) * k
    if opts.get('change_energy_units') is False:
        for lv, rows, col in (('flash', spec['flashes'], S.F_EN), ('group', spec['groups'], S.G_EN),
                              ('event', spec['events'], S.E_EN)):
            for r in rows:
                if r[0] in exp[lv]:
                    exp[lv][r[0]]['energy'] = S.energy_of(r[col], spec['quirks'])
    if spec['quirks'].get('unsigned_missing') and (memory or opts.get('fix_bad_DO07_times') is False):
        sg = float(np.float32(0.0003814756))
        for lv, rows, cols in (('flash', spec['flashes'], (('t', S.F_T0), ('t1', S.F_T1))),
                               ('group', spec['groups'], (('t', S.G_T),)), ('event', spec['events'], (('t', S.E_T),))):
            for r in rows:
                if r[0] in exp[lv]:
                    for c, k in cols:
                        v = r[k] % 65536
                        exp[lv][r[0]][c] = sg * (v if v < 32768 else v - 65536) - 5.0
    return exp


def compare(ctx, t, exp, raw_units):
    t = {lv: dict(c) for lv, c in t.items()}
    for lv in ('flash', 'group'):
        nan = {i for i, r in exp[lv].items() if r['area'] is None}
        if nan:
            got = {i for i, a in zip(t[lv]['id'].tolist(), t[lv]['area']) if np.isnan(a)}
            ctx.check(got == nan & set(t[lv]['id'].tolist()), 'unknown-area-touched')
            exp[lv] = {i: dict(r, area=r['area'] or 0.0) for i, r in exp[lv].items()}
            t[lv]['area'] = np.where(np.isnan(t[lv]['area']), 0, t[lv]['area'])
    if raw_units:
        # energies in J are tiny: compare them in nJ
        exp = {lv: {i: dict(r, energy=r['energy'] * 1e9) for i, r in rows.items()} for lv, rows in exp.items()}
        for lv in t:
            t[lv]['energy'] = t[lv]['energy'].astype(float) * 1e9
    bad = model.diff(t, exp)
    if bad:
        ctx.fail(*bad)


def others(ds, names):
    return {n: np.array(ds[n].data) for n in names}


REPAIRED = {'flash_area', 'group_area', 'flash_energy', 'group_energy', 'event_energy', 'event_time_offset',
            'group_time_offset', 'group_frame_time_offset', 'flash_time_offset_of_first_event',
            'flash_time_offset_of_last_event', 'flash_frame_time_offset_of_first_event',
            'flash_frame_time_offset_of_last_event'}


def execute(sc, ctx):
    import xarray as xr
    from glmtools.io.glm import GLMDataset
    specs, paths, mem, snaps, plain = [], [], [], [], []
    for k, f in enumerate(sc['files']):
        spec = feed.apply(f['spec'], f['ops'], ctx.fault)
        d = ctx.scratch('f%d' % k)
        p = S.write(spec, os.path.join(d, S.filename(spec)))
        specs.append(spec)
        paths.append(p)
        m = xr.open_dataset(p)
        m.load()
        m.close()
        mem.append(m)
        snaps.append(c02.snapshot(m))
        plain.append(others(m, [n for n in m.variables if n not in REPAIRED]))
        if any(r[S.F_AREA] == 65535 for r in spec['flashes']) or any(r[S.G_AREA] == 65535 for r in spec['groups']):
            ctx.fault('area overflow')
        if any(r[S.E_EN] == 0 for r in spec['events']):
            ctx.fault('zero energy event')
        if spec['quirks'].get('area_m2'):
            ctx.fault('areas in m2')
        if spec['quirks'].get('unsigned_missing'):
            ctx.fault('unsigned mark lost')
            if any(r[S.E_T] > 32767 for r in spec['events']):
                ctx.probe('times that need the repair')

    intact = [all(len(model.tree(s)[k]) == len(s[k]) for k in feed.LEVELS) for s in specs]

    def one(o):
        spec = specs[o['file']]
        opts = dict(o['opts'])
        if not intact[o['file']]:
            opts.pop('check_tree', None)
        g = GLMDataset(paths[o['file']] if o['how'] == 'path' else mem[o['file']], **opts)
        # without the links nothing is derived from them
        skip = ('x', 'y', 'flash', 'n', 'ng', 'ne') if o['opts'].get('calculate_parent_child') is False else ()
        out = {'t': model.tables(g.dataset, spec['t0'], skip),
               'units': [str(g.dataset[v].attrs.get('units')) for v in
                         ('flash_area', 'group_area', 'flash_energy', 'group_energy', 'event_energy')],
               'others': others(g.dataset, plain[o['file']])}
        if o['then'] == 'all':
            out['sub'] = model.tables(g.get_flashes(g.dataset.flash_id.data), spec['t0'])
        elif o['then'] == 'subset':
            out['sub'] = model.tables(g.subset_flashes(min_events=1, check_event_xy=False), spec['t0'])
        elif o['then'] == 'one':
            out['sub'] = model.tables(g.get_flashes(g.dataset.flash_id.data[:1]), spec['t0'])
        if o['then']:
            out['t2'] = model.tables(g.dataset, spec['t0'])
        return out

    sched = baton.Sched(sc['moves'])
    res = sched.run([(lambda ops=ops: [one(o) for o in ops]) for ops in sc['threads']])
    ctx.steps += sched.lines
    ctx.switches += sched.switches
    if sched.switches:
        ctx.fault('thread preempted in an open', sched.switches)
    for row in sched.trace:
        ctx.log(row)
    for r in res:
        if r[0] != 'ok':
            ctx.fail('open-raised:' + type(r[1]).__name__, r[2][-2500:])
    for ops, (_, outs) in zip(sc['threads'], res):
        for o, out in zip(ops, outs):
            spec = specs[o['file']]
            memory = o['how'] == 'memory'
            ctx.state(sorted(spec['quirks']), sorted(o['opts']), o['how'], o['then'], len(ops))
            ctx.probe('open from ' + o['how'])
            exp = expected(spec, o['opts'], memory)
            raw_units = o['opts'].get('change_energy_units') is False
            compare(ctx, out['t'], {k: dict(v) for k, v in exp.items()}, raw_units)
            if 'sub' in out:
                ids = {lv: set(out['sub'][lv]['id'].tolist()) for lv in out['sub']}
                ctx.check(not model.same_tables(out['t'], out['t2']), 'query-changed-open-data')
                if o['then'] != 'all':
                    keep = sorted(exp['flash']) if o['then'] == 'subset' else out['t']['flash']['id'].tolist()[:1]
                    if o['then'] == 'subset':
                        keep = [i for i in keep if exp['flash'][i]['ne'] >= 1]
                    part = c02.part_of(model.tree(spec), flashes=keep)
                    e2 = c02.narrow(exp, part)
                else:
                    e2 = exp
                compare(ctx, out['sub'], {k: dict(v) for k, v in e2.items()}, raw_units)
            un = out['units']
            if o['opts'].get('check_area_units') is not False:
                ctx.check(un[:2] == ['km2', 'km2'], 'area-units', un)
            ctx.check(un[2:] == (['J'] * 3 if raw_units else ['nJ'] * 3), 'energy-units', un)
            pruned = any(len(out['t'][a]['id']) != len(spec[b]) for a, b in
                         (('flash', 'flashes'), ('group', 'groups'), ('event', 'events')))
            for n, v in out['others'].items():
                want = plain[o['file']][n]
                if want.ndim == 0:
                    ctx.check(np.array_equal(v, want) or (v != v and want != want), 'other-value-changed', n)
                elif not pruned and v.shape == want.shape:
                    for lv in ('flash', 'group', 'event'):
                        if n.startswith(lv + '_') and len(want) == len(out['others'][lv + '_id']):
                            i = np.argsort(out['others'][lv + '_id'], kind='stable')
                            j = np.argsort(plain[o['file']][lv + '_id'], kind='stable')
                            ctx.check(np.array_equal(v[i], want[j]), 'other-value-changed', n)
                elif not pruned:
                    ctx.fail('other-value-changed', n + ' has another shape')
            ctx.log(o['how'], sorted(out['t']['flash']['id'].tolist()))
    for k, m in enumerate(mem):
        bad = c02.same_snapshot(snaps[k], c02.snapshot(m))
        ctx.check(not bad, 'source-dataset-changed', bad)
    if sum(len(t) for t in sc['threads']) > 1:
        ctx.probe('several opens')
