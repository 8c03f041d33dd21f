import copy
import os

import baton
import numpy as np
import product as P
from core import Violation
from props import c02, c06
from world import Clock

ID = 'C07'
RUNS = {'quick': 1500, 'thorough': 12000}
RULE = ('a run counts when one grid was written at least twice; distinct by the hash of the operation trace (or of the thread schedule) '
        'and of the stored values')
STATES = 'distinct (gridder, storage mode, padding, place, outcome) sequences of two consecutive attempts'
REAL = ['glmtools.io.imagery', 'glmtools.grid.make_grids gridder set-up', 'xarray', 'netCDF4/HDF5', 'kernel file system']
STUB = ['lmatools gridder base class and fixed-grid tables', 'clock', 'process death', 'file call results at injected faults',
        'thread switching (at source lines)']
ASSUMPTIONS = ['threads switch at source lines of glmtools; the libraries below have their own locks',
               'a crash inside the netCDF library after an injected error ends the history']
SHRINK = ['writes', 'writes.*.faults', 'grids.*.cells', 'moves']


def gen_pad(rng, cfg):
    a, b = sorted(rng.sample(range(0, cfg['nx'] + 1), 2))
    c, d = sorted(rng.sample(range(0, cfg['ny'] + 1), 2))
    if b - a >= 2 and d - c >= 2:
        return [[a, b], [c, d]]
    return None


def generate(rng, tier):
    grids = [P.gen_cfg(rng, max_n=8) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(grids) > 1 and rng.random() < .4:
        # same time and place: only the content tells them apart
        for g in grids[1:]:
            g.update({k: grids[0][k] for k in ('t', 'frame_s', 'dx', 'i0', 'j0')})
    threads = rng.choice([0, 0, 2, 3])
    n = rng.choice([2, 3, 4, 6]) if not threads else rng.choice([2, 3, 4])
    writes = []
    for k in range(n):
        gi = rng.randrange(len(grids))
        w = {'grid': gi, 'scaled': rng.random() < .65, 'pad': gen_pad(rng, grids[gi]) if rng.random() < .4 else None,
             'place': k if threads or rng.random() < .6 else rng.randrange(2), 'shared': rng.random() < .5,
             'how': rng.choice(['grids', 'grids', 'direct']), 'faults': [], 'thread': k % threads if threads else 0,
             'std': rng.random() < .25}
        if not threads and rng.random() < .35:
            for _ in range(rng.choice([1, 1, 2])):
                f = c06.gen_fault(rng, 'h')
                if f['do'] in ('crash', 'torn'):
                    f.update(do='err', err=rng.choice(['ENOSPC', 'EIO']))
                f.pop('stay', None)
                w['faults'].append(f)
        writes.append(w)
    return {'grids': grids, 'writes': writes, 'threads': threads, 'moves': c02.gen_moves(rng, threads),
            'clock': rng.randrange(1500000000, 1700000000) + .25}


def state_of(g):
    """Everything of the gridder that later writes depend on."""
    return {'grids': [a.copy() for a in g.outgrids], 'names': tuple(g.field_names), 'attrs': dict(g.first_file_attrs),
            'x': np.array(g.xedge), 'y': np.array(g.yedge)}


def changed(a, b):
    for n, x, y in zip(a['names'], a['grids'], b['grids']):
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y):
            return n
    for k in ('names', 'attrs'):
        if a[k] != b[k]:
            return k
    for k in 'xy':
        if not np.array_equal(a[k], b[k]):
            return k
    return ''


def execute(sc, ctx):
    from glmtools.io.imagery import write_goes_imagery
    top = None
    if not sc['threads']:
        w = ctx.world('w')
        top = w.disk
    else:
        top = ctx.scratch('out')
    gs = [P.make(c) for c in sc['grids']]
    states = [state_of(g) for g in gs]
    shared = {}

    def one(k):
        j = sc['writes'][k]
        g = gs[j['grid']]
        pad = (slice(*j['pad'][0]), slice(*j['pad'][1])) if j['pad'] else None
        kw = {'scale_and_offset': j['scaled']}
        if pad:
            kw['pad'] = pad
        if j['shared']:
            # callers often keep one options dictionary
            kw = shared.setdefault((j['grid'], j['scaled'], str(j['pad'])), kw)
        before = copy.deepcopy(kw)
        out = os.path.join(top, 'p%d' % j['place'], 'g%d' % j['grid'], '{dataset_name}' if j['std'] else P.T_EXACT)
        res = {'k': k, 'files': None, 'error': None}
        try:
            if j['how'] == 'grids':
                res['files'] = list(g.write_grids(outpath=out, output_kwargs=kw))
            else:
                res['files'] = list(write_goes_imagery(g, outpath=out, **kw))
            place = os.path.realpath(os.path.join(top, 'p%d' % j['place'], 'g%d' % j['grid']))
            res['elsewhere'] = [f for f in res['files'] if not os.path.realpath(f).startswith(place + os.sep)]
            res['products'] = [P.read(f) for f in res['files']]
        except Exception as e:
            import traceback
            res['error'] = traceback.format_exc()[-3000:]
        res['options'] = kw == before
        if not sc['threads']:
            res['changed'] = [changed(s, state_of(g)) for s, g in zip(states, gs)]
        return res

    done = []
    if sc['threads']:
        sched = baton.Sched(sc['moves'])
        mine = [[k for k, j in enumerate(sc['writes']) if j['thread'] == t] for t in range(sc['threads'])]
        out = sched.run([(lambda ks=ks: [one(k) for k in ks]) for ks in mine])
        ctx.steps += sched.lines
        ctx.switches += sched.switches
        if sched.switches:
            ctx.fault('thread preempted in a write', sched.switches)
        for row in sched.trace:
            ctx.log(row)
        for r in out:
            if r[0] != 'ok':
                raise Violation('write-raised', r[2][-2000:])
            done += r[1]
        for s, g in zip(states, gs):
            c = changed(s, state_of(g))
            ctx.check(not c, 'grid-changed', c)
        fired = []
    else:
        import pickle
        from world import mark
        path = os.path.join(w.side, 'done')

        def history():
            with open(path, 'wb') as f:
                for k in range(len(sc['writes'])):
                    mark('begin', k)
                    r = one(k)
                    mark('finish', k)
                    pickle.dump(r, f)
                    f.flush()
            return True

        spans = {}

        def on_mark(p, label, value):
            if label == 'begin':
                for f in sc['writes'][value]['faults']:
                    w.faults.setdefault(('h', f['cls'], p.counts.get(f['cls'], 0) + f['nth']), f)
                spans[value] = [len(w.fired), None]
            elif label == 'finish':
                spans[value][1] = len(w.fired)
                # what was planned for this attempt does not hit the next one
                w.faults.clear()
        w.on_mark = on_mark
        p = w.spawn('h', history, clock=Clock(sc['clock'], 1.1))
        if not w.run():
            raise Violation('no-progress', 'history')
        ctx.absorb(w)
        with open(path, 'rb') as f:
            while True:
                try:
                    done.append(pickle.load(f))
                except EOFError:
                    break
        hard = {k: [x for x in w.fired[a:b] if x[3] not in c06.SOFT] for k, (a, b) in spans.items()}
        if p.status == 'signal':
            ctx.check(hard.get(len(done)), 'died-without-fault', p.error['text'])
            ctx.probe('library died after injected error')
        elif p.status != 'ok':
            raise Violation('history-failed', '%s %s' % (p.status, p.error))
    last = {}
    for r in done:
        j = sc['writes'][r['k']]
        cfg = sc['grids'][j['grid']]
        ctx.check(r['options'], 'options-changed', 'write %d' % r['k'])
        for c in r.get('changed', ()):
            ctx.check(not c, 'grid-changed', '%s after write %d (%s)' % (c, r['k'], 'failed' if r['error'] else 'done'))
        if r['error']:
            ctx.check(not sc['threads'] and hard[r['k']], 'write-raised', r['error'])
            ctx.probe('failed attempt')
            last[j['grid']] = 'failed'
            continue
        ctx.check(len(r['files']) == cfg['frames'], 'wrong-file-list', len(r['files']))
        ctx.check(not r['elsewhere'], 'wrong-place', 'write %d' % r['k'])
        for k, got in enumerate(r['products']):
            bad = P.differ(got, P.expected(cfg, k, j['scaled'], j['pad']))
            if bad:
                ctx.fail(*bad)
            ctx.log(r['k'], k, [float(a[a == a].sum()) for a in got['vars'].values()])
        if j['grid'] in last:
            ctx.nontrivial = True
            ctx.probe('rewrite after ' + str(last[j['grid']]))
            ctx.state(last[j['grid']], j['scaled'], bool(j['pad']), j['how'], j['shared'], j['std'])
        last[j['grid']] = 'scaled' if j['scaled'] else 'float'
    ctx.sim_seconds += sum(c['frames'] * c['frame_s'] for c in sc['grids'])
