import os

import feed
import model
import synth
from core import Violation

ID = 'C01'
RUNS = {'quick': 1800, 'thorough': 12000}
RULE = ('a run counts when at least one feed or read fault fired; distinct by the hash of all feed operations, '
        'file operations and resulting tables')
STATES = 'distinct (records kept, records dropped per level, kinds of broken link present) tuples'
REAL = ['glmtools.io.glm', 'glmtools.io.traversal', 'glmtools.io.lightning_ellipse', 'xarray', 'netCDF4/HDF5', 'numpy']
STUB = ['input files are synthetic', 'lmatools (import only)']
ASSUMPTIONS = ['IDs are unique per level in a file', 'files have the variables of the operational product']
SHRINK = ['ops', 'spec.flashes', 'spec.groups', 'spec.events', 'faults']


def generate(rng, tier):
    q = {}
    if rng.random() < .25:
        q = {'late_times': 1}
        if rng.random() < .7:
            q['unsigned_missing'] = 1
    if rng.random() < .2:
        q['area_m2'] = 1
    if rng.random() < .3:
        q['sat'] = rng.choice(['west', 'test'])
    n_flash, max_groups = rng.choice([0, 1, 2, 3, 4, 6, 9]), 4
    k = rng.random()
    if k < .015:
        n_flash = 130
    elif k < .03:
        n_flash, max_groups = rng.choice([1, 2]), 400
    elif k < .05:
        max_groups = 40
    spec = synth.gen_file(rng, feed.gen_t0(rng, q), quirks=q, big_ids=rng.random() < .5, n_flash=n_flash, max_groups=max_groups)
    for rows, col in ((spec['flashes'], synth.F_AREA), (spec['groups'], synth.G_AREA)):
        for r in rows:
            if rng.random() < .1:
                r[col] = 65535
    sc = {'spec': spec, 'ops': feed.gen_ops(rng, spec), 'faults': [], 'again': rng.random() < .2}
    if rng.random() < .3:
        for _ in range(rng.choice([1, 2, 4])):
            sc['faults'].append(dict(proc='p', cls='read', nth=rng.randrange(0, 40),
                                     **rng.choice([dict(do='short', frac=rng.random()), dict(do='err', err='EINTR')])))
    return sc


def consistent(ctx, t):
    """The tree must hold together whatever the model says."""
    f, g, e = t['flash'], t['group'], t['event']
    fs, gs = set(f['id'].tolist()), set(g['id'].tolist())
    ctx.check(set(g['parent'].tolist()) <= fs, 'group-without-flash')
    ctx.check(set(e['parent'].tolist()) <= gs, 'event-without-group')
    ctx.check(fs <= set(g['parent'].tolist()), 'flash-without-group')


def execute(sc, ctx):
    from glmtools.io.glm import GLMDataset
    spec = feed.apply(sc['spec'], sc['ops'], ctx.fault)
    for o in sc['ops']:
        ctx.log(sorted(o.items()))
    w = ctx.world('w', faults=sc['faults'])
    path = os.path.join(w.disk, synth.filename(spec))
    synth.write(spec, path)

    def load():
        g = GLMDataset(path)
        out = [model.tables(g.dataset, spec['t0'])]
        if sc['again']:
            out.append(model.tables(GLMDataset(path).dataset, spec['t0']))
        return out

    if sc['faults']:
        p = w.spawn('p', load)
        w.run()
        ctx.absorb(w)
        if p.status != 'ok':
            raise Violation('open-failed', '%s: %s' % (p.status, p.error))
        res = p.result
    else:
        res = load()
    exp = model.expected(spec)
    lost = tuple(len(spec[k]) - len(exp[m]) for k, m in
                 (('flashes', 'flash'), ('groups', 'group'), ('events', 'event')))
    ctx.state(tuple(len(exp[m]) for m in ('flash', 'group', 'event')), lost)
    for k, n in zip(('flash', 'group', 'event'), lost):
        if n:
            ctx.probe('pruned ' + k)
    if exp['group'] and not exp['event']:
        ctx.probe('groups but no events')
    if any(g['n'] == 0 for g in exp['group'].values()):
        ctx.probe('group without events kept')
    if not exp['flash'] and any(spec[k] for k in feed.LEVELS):
        ctx.probe('everything pruned')
    for t in res:
        consistent(ctx, t)
        bad = model.diff(t, exp)
        if bad:
            ctx.fail(*bad)
        ctx.log(sorted(t['event']['id'].tolist())[:50], len(t['flash']['id']))
