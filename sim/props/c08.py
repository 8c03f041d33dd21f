import os
import re

import product as P
import synth as S
from core import Violation
from world import Clock, mark

ID = 'C08'
RUNS = {'quick': 2000, 'thorough': 12000}
RULE = ('a run counts when the writer was killed after it acknowledged the product or ended by itself and the product held at least '
        'one non-empty cell; distinct by the hash of file operations and stored values')
STATES = 'distinct (storage mode, frames, kinds of values present, padding, kill point) tuples'
REAL = ['glmtools.io.imagery', 'glmtools.grid.make_grids gridder set-up', 'xarray', 'netCDF4/HDF5', 'numpy']
STUB = ['lmatools gridder base class and fixed-grid tables', 'clock', 'process death']
ASSUMPTIONS = ['process death, not power loss', 'stored coordinates are those of the 2 km grid: a cell sits at the nearest one',
               'products are judged after decoding with the standard netCDF conventions']
SHRINK = ['cfg.cells', 'faults']

PROJ = {'perspective_point_height': 35786023., 'semi_major_axis': 6378137., 'semi_minor_axis': 6356752.31414,
        'latitude_of_projection_origin': 0., 'sweep_angle_axis': 'x', 'grid_mapping_name': 'geostationary'}


def generate(rng, tier):
    cfg = P.gen_cfg(rng, max_n=14)
    scene = rng.random()
    if scene < .08:
        # whole scenes at a coarse resolution
        cfg.update(dx=560e-6, **rng.choice([dict(nx=250, ny=150, i0=-125, j0=60), dict(nx=50, ny=50, i0=10, j0=20)]))
    sc = {'cfg': cfg, 'scaled': rng.random() < .7, 'pad': None, 'faults': [],
          'template': rng.choice(['{dataset_name}', 'a/{start_time:%Y}/{dataset_name}', 'x/' + P.T_EXACT, P.T_EXACT]),
          'bare': rng.random() < .1, 'clock': rng.randrange(1500000000, 1700000000) + .25,
          'kill': rng.choice([None, 'acked', 'acked', 'later']), 'nth': rng.randrange(0, 60)}
    if rng.random() < .25:
        a, b = sorted(rng.sample(range(0, cfg['nx'] + 1), 2))
        c, d = sorted(rng.sample(range(0, cfg['ny'] + 1), 2))
        if b - a >= 2 and d - c >= 2:
            sc['pad'] = [[a, b], [c, d]]
    if rng.random() < .3:
        for _ in range(3):
            sc['faults'].append({'proc': 'w', 'cls': 'write', 'nth': rng.randrange(0, 120),
                                 'do': 'short', 'frac': rng.random()})
            sc['faults'].append({'proc': 'w', 'cls': 'write', 'nth': rng.randrange(0, 120), 'do': 'err', 'err': 'EINTR'})
    return sc


def execute(sc, ctx):
    cfg = sc['cfg']
    w = ctx.world('w', faults=list(sc['faults']))
    g = P.make(cfg)
    kw = {'scale_and_offset': sc['scaled']}
    if sc['pad']:
        kw['pad'] = (slice(*sc['pad'][0]), slice(*sc['pad'][1]))
    acked = []

    def job():
        if sc['bare']:
            os.chdir(w.disk)
            out = g.write_grids(outpath=P.T_EXACT, output_kwargs=kw)
        else:
            out = g.write_grids(outpath=os.path.join(w.disk, sc['template']), output_kwargs=kw)
        with open(os.path.join(w.side, 'ack'), 'w') as f:
            f.write('\n'.join(os.path.abspath(o) for o in out))
        mark('acked')
        # the process goes on with something else until it dies
        for k in range(40):
            with open(os.path.join(w.disk, 'other%d.txt' % k), 'w') as f:
                f.write('x' * 100)
        return True

    if sc['kill'] == 'acked':
        w.faults[('w', 'mark', 1)] = {'proc': 'w', 'cls': 'mark', 'nth': 1, 'do': 'crash'}
    elif sc['kill'] == 'later':
        def on_mark(p, label, value):
            if label == 'acked':
                w.faults[('w', 'write', p.counts.get('write', 0) + sc['nth'] % 40)] = {'do': 'crash'}
        w.on_mark = on_mark
    p = w.spawn('w', job, clock=Clock(sc['clock'], 0.001))
    w.run()
    ctx.absorb(w, trace=False)
    ack = os.path.join(w.side, 'ack')
    if p.status not in ('ok', 'crashed') or not os.path.exists(ack):
        raise Violation('write-failed', '%s %s' % (p.status, p.error))
    with open(ack) as f:
        acked = f.read().split('\n')
    ctx.check(len(acked) == cfg['frames'], 'wrong-file-list', acked)
    cells = 0
    for k, path in enumerate(acked):
        s, e = P.span(cfg)[k]
        try:
            got = P.read(path)
        except (OSError, P.Partial) as err:
            raise Violation('acknowledged-product-unreadable', '%s: %s' % (os.path.basename(path), err))
        exp = P.expected(cfg, k, sc['scaled'], sc['pad'])
        cells += sum(int((a > 0).sum()) for a in exp['fields'].values())
        bad = P.differ(got, exp)
        if bad:
            ctx.fail(*bad)
        check_meta(ctx, sc, got, path, k)
        ctx.log(k, sorted(got['vars']), [float(a[a == a].sum()) for a in got['vars'].values()])
    if cells:
        ctx.nontrivial = True
        ctx.probe('non-empty cells compared', cells)
    for f, i, j, k, v in cfg['cells']:
        s = P.STEP[f]
        ctx.probe('value below one step' if v < s else 'value beyond range' if v > 65535 * s else 'value in range')
    ctx.sim_seconds += cfg['frames'] * cfg['frame_s']
    ctx.state(sc['scaled'], cfg['frames'], bool(sc['pad']), sc['kill'], cfg['dx'], len(cfg['cells']) // 5,
              sorted({f for f, _, _, _, _ in cfg['cells']}))


def check_meta(ctx, sc, got, path, k):
    cfg = sc['cfg']
    s, e = P.span(cfg)[k]
    name = str(got['attrs'].get('dataset_name'))
    ctx.check(P.NAME.match(name) is not None, 'bad-dataset-name', name)
    a, b, _ = P.name_times(name)
    ctx.check((a, b) == (s, e), 'name-times', '%s: %s %s' % (name, s, e))
    ctx.check('_%s_' % S.sat(cfg)[0] in name, 'name-platform', name)
    if not sc['bare'] and 'dataset_name' in sc['template']:
        ctx.check(os.path.basename(path) == name, 'file-name', '%s / %s' % (path, name))
    else:
        ctx.check(os.path.basename(path) == P.exact_name(cfg, k), 'file-name', path)
    # nominal resolution, and the scene implied by the size of the grid
    res = {56e-6: '2km at nadir', 112e-6: '4km at nadir', 224e-6: '8km at nadir', 280e-6: '10km at nadir'}.get(cfg['dx'])
    if res:
        ctx.check(got['attrs'].get('spatial_resolution') == res, 'resolution', got['attrs'].get('spatial_resolution'))
    else:
        m = re.match(r'([\d.]+) *microrad', str(got['attrs'].get('spatial_resolution')))
        if m:
            ctx.check(abs(float(m.group(1)) - cfg['dx'] * 1e6) < .6, 'resolution', got['attrs'].get('spatial_resolution'))
    # what the numbers mean
    at = got['vattrs']
    ctx.check(str(at['total_energy'].get('units')).lower().startswith('nj'), 'units', lambda: 'total_energy: %s' % at['total_energy'].get('units'))
    for f in ('average_flash_area', 'average_group_area', 'minimum_flash_area'):
        ctx.check(str(at[f].get('units')).lower().startswith('km'), 'units', lambda: '%s: %s' % (f, at[f].get('units')))
    pr = at.get('goes_imager_projection', {})
    for key, want in PROJ.items():
        if key in pr:
            ctx.check(pr[key] == want if isinstance(want, str) else abs(float(pr[key]) - want) < 1e-6 * abs(want) + 1e-9, 'wrong-projection',
                      lambda: '%s is %r' % (key, pr[key]))
    if not sc['pad']:
        x, y = P.edges(cfg)
        ew, ns = x[-1] - x[0], y[-1] - y[0]

        def near(v, w):
            return abs(v - w) <= .008 * w

        def far(v, w):
            return abs(v - w) > .013 * w
        from lmatools.grid.fixed import goesr_conus, goesr_meso, goesr_full
        known = {'Full Disk': goesr_full, 'CONUS': goesr_conus, 'Mesoscale': goesr_meso}
        hit = [n for n, t in known.items() if near(ew, t['spanEW']) and near(ns, t['spanNS'])]
        clear = all(far(ew, t['spanEW']) or far(ns, t['spanNS']) for t in known.values()) and far(ew, .172732)
        if hit:
            ctx.probe('standard scene')
            ctx.check(got['attrs'].get('scene_id') == hit[0], 'scene', got['attrs'].get('scene_id'))
        elif clear:
            ctx.check(got['attrs'].get('scene_id') == 'Custom', 'scene', got['attrs'].get('scene_id'))
