import os
import pickle
import traceback

import feed
import job as J
import model
import product as P
import synth as S
from core import Violation
from props import c02, c06
from world import Clock, mark

ID = 'C04'
RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('a run counts when a read fault fired or an input file was missing, cut or growing during an attempt, and every attempt '
        'of the history was judged; distinct by the hash of the operation trace and of the outcomes')
STATES = 'distinct (attempt kind, faults fired with their place, damage, outcome) tuples'
REAL = ['glmtools.io.glm', 'glmtools.io.traversal', 'glmtools.io.mimic_lma', 'glmtools.grid', 'glmtools.io.imagery', 'xarray',
        'netCDF4/HDF5', 'kernel file system']
STUB = ['file call results at injected faults', 'the process that delivers files', 'lmatools gridder base class and fixed-grid tables',
        'input files are synthetic']
ASSUMPTIONS = ['files are delivered front to back and are not cut after they were opened',
               'a crash inside the netCDF library after an injected error ends the history']
SHRINK = ['attempts', 'attempts.*.faults', 'specs', 'specs.*.flashes']


def gen_fault(rng, kind):
    cls = rng.choice(['read'] * 8 + ['open', 'open', 'stat', 'lock', 'close'] + ['table-read', 'table-read', 'table-open'] * (kind == 'job'))
    # an open takes 110 reads for the layout and 10 to 60 for the data
    top = {'read': 500 if kind == 'job' else 180, 'open': 6, 'stat': 12, 'lock': 4, 'close': 4,
           'table-read': 12, 'table-open': 3}[cls]
    f = {'proc': 'h', 'cls': cls, 'nth': rng.randrange(top), 'do': 'err'}
    if rng.random() < .25:
        f['nth'] = rng.randrange(min(top, 4))
    elif cls == 'read' and rng.random() < .4:
        f['nth'] = rng.randrange(100, 180)
    if cls[-4:] == 'read' and rng.random() < .3:
        f.update(do='short', frac=round(rng.random(), 3))
    else:
        f['err'] = rng.choice({'table-read': ['EIO', 'EIO', 'ESTALE', 'EINTR'], 'read': ['EIO', 'EIO', 'ESTALE', 'EINTR'], 'open': ['EACCES', 'EMFILE', 'ENOENT', 'EIO'],
                               'lock': ['EIO'], 'close': ['EIO']}.get(cls, ['EIO', 'EACCES', 'ESTALE']))
    return f


def generate(rng, tier):
    cfg, specs = J.gen(rng, files=rng.choice([1, 2, 3]), frames=rng.choice([1, 1, 2]), signless=rng.random() < .25)
    specs = [feed.apply(s, [o for o in feed.gen_ops(rng, s) if o['op'] in ('drop', 'burst', 'orphan', 'shuffle')])
             if rng.random() < .3 else s for s in specs]
    attempts = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        kind = rng.choice(['open', 'open', 'lazy', 'query', 'query', 'job', 'job'])
        i = rng.randrange(len(specs))
        a = {'kind': kind, 'file': i, 'faults': [], 'damage': None, 'keep': rng.random() < .5}
        if kind == 'query':
            while True:
                a['op'] = c02.gen_glm_op(rng, specs[i], model.expected(specs[i]))
                if a['op']['q'] != 'lut':
                    break
        if kind == 'job':
            a['order'] = list(range(len(specs)))
            rng.shuffle(a['order'])
        if rng.random() < .6:
            a['faults'] = [gen_fault(rng, kind) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif rng.random() < .8:
            how = rng.choice(['missing', 'cut', 'cut', 'grow', 'grow'])
            a['damage'] = {'how': how, 'file': rng.randrange(len(specs)) if kind == 'job' else i,
                           'at': rng.choice([rng.random(), rng.random() ** .1, rng.random() ** 8]),
                           'late': sorted(rng.randrange(0, 60) for _ in range(rng.choice([1, 2, 3])))}
        attempts.append(a)
    return {'cfg': cfg, 'specs': specs, 'attempts': attempts, 'scaled': rng.random() < .5}


def attempt(a, k, paths, specs, cfg, side, open_files, scaled):
    from glmtools.io.glm import GLMDataset
    i = a['file']
    if a['kind'] in ('open', 'lazy'):
        g = GLMDataset(paths[i])
        out = model.tables(g.dataset, specs[i]['t0']) if a['kind'] == 'open' else None
        if a['keep'] or a['kind'] == 'lazy':
            open_files[i] = g
        else:
            g.dataset.close()
        return out
    if a['kind'] == 'query':
        g = open_files.get(i)
        if g is None:
            g = open_files[i] = GLMDataset(paths[i])
        return c02.glm_op(g, a['op'], specs[i]['t0'])
    files = [paths[n] for n in a['order'] if n < len(paths)]
    J.call(files, cfg, os.path.join(side, 'o%d' % k, P.T_EXACT), scaled=scaled)
    return None


def execute(sc, ctx):
    cfg, specs = sc['cfg'], sc['specs']
    if not specs:
        return
    w = ctx.world('w', also=J.lut_path())
    paths = J.write(specs, os.path.join(w.disk, 'in'))
    whole = [open(p, 'rb').read() for p in paths]
    todo = [a for a in sc['attempts'] if a['file'] < len(specs) and not (a['damage'] and a['damage']['file'] >= len(specs))]
    # afterwards nothing is wrong any more
    last = len(todo)
    todo = todo + [{'kind': 'open', 'file': i, 'faults': [], 'damage': None, 'keep': False} for i in range(len(specs))]
    todo.append({'kind': 'job', 'file': 0, 'faults': [], 'damage': None, 'keep': False, 'order': list(range(len(specs)))})
    notes = os.path.join(w.side, 'notes')

    def history():
        open_files = {}
        with open(notes, 'wb') as f:
            for k, a in enumerate(todo):
                mark('begin', k)
                try:
                    r = ('ok', attempt(a, k, paths, specs, cfg, w.side, open_files, sc['scaled']))
                except Exception:
                    r = ('error', traceback.format_exc()[-2500:])
                mark('finish', k)
                pickle.dump(r, f)
                f.flush()
        return True

    spans, now = {}, {'k': None, 'since': 0, 'grown': 0}

    def put(i, n):
        """Make file i its first n bytes (None: missing)."""
        tmp = os.path.join(w.disk, 'tmp')
        if n is None:
            if os.path.exists(paths[i]):
                os.unlink(paths[i])
            return
        with open(tmp, 'wb') as f:
            f.write(whole[i][:n])
        os.rename(tmp, paths[i])

    def grow(d):
        """The delivering process appends the next part."""
        n = len(whole[d['file']])
        have = os.path.getsize(paths[d['file']])
        left = len(d['late']) - now['grown']
        end = n if left <= 1 else have + (n - have) // left
        with open(paths[d['file']], 'ab') as f:
            f.write(whole[d['file']][have:end])
        now['grown'] += 1

    def on_mark(p, label, value):
        a = todo[value] if label in ('begin', 'finish') else None
        if label == 'begin':
            for f in a['faults']:
                w.faults.setdefault(('h', f['cls'], p.counts.get(f['cls'], 0) + f['nth']), f)
            spans[value] = [len(w.fired), None]
            now.update(k=value, since=0, grown=0)
            d = a['damage']
            if d:
                put(d['file'], None if d['how'] == 'missing' else min(int(d['at'] * len(whole[d['file']])), len(whole[d['file']]) - 1))
                ctx.fault('input ' + {'missing': 'missing', 'cut': 'cut off', 'grow': 'still being written'}[d['how']])
        elif label == 'finish':
            spans[value][1] = len(w.fired)
            w.faults.clear()
            if a['damage']:
                put(a['damage']['file'], len(whole[a['damage']['file']]))
            now['k'] = None

    def on_step(p, rq, note):
        if now['k'] is None:
            return
        d = todo[now['k']]['damage']
        now['since'] += 1
        if d and d['how'] == 'grow':
            while now['grown'] < len(d['late']) and d['late'][now['grown']] < now['since']:
                grow(d)
    w.on_mark, w.on_step = on_mark, on_step
    p = w.spawn('h', history, clock=Clock(1600000000, 1e-4))
    if not w.run():
        raise Violation('no-progress', 'history')
    ctx.absorb(w)
    done = []
    with open(notes, 'rb') as f:
        while True:
            try:
                done.append(pickle.load(f))
            except EOFError:
                break
    fired = {k: w.fired[a:b] for k, (a, b) in spans.items()}
    hard = {k: [x for x in v if x[3] not in c06.SOFT] for k, v in fired.items()}
    if p.status == 'signal':
        ctx.check(hard.get(len(done)), 'died-without-fault', p.error['text'])
        ctx.probe('library died after injected error')
    elif p.status != 'ok':
        raise Violation('history-failed', '%s %s' % (p.status, p.error))
    exps, ref = {}, None
    for k, (status, res) in enumerate(done):
        a = todo[k]
        i = a['file']
        d = a['damage']
        if i not in exps:
            exps[i] = model.expected(specs[i])
        excuse = hard[k] or d
        if a['kind'] == 'job':
            ref = ref or J.reference(cfg, specs)
            out = os.path.join(w.side, 'o%d' % k)
            for n in range(cfg['frames']):
                path = os.path.join(out, P.exact_name(cfg, n))
                if not os.path.exists(path):
                    ctx.check(status != 'ok', 'product-missing', 'attempt %d' % k)
                    continue
                bad = J.differ(P.read(path), ref[n], sc['scaled'])
                if bad:
                    ctx.fail('wrong-product', 'attempt %d (%s): %s: %s' % (k, status, bad[0], bad[1]))
            ctx.probe('jobs judged')
        elif status == 'ok' and a['kind'] == 'open':
            bad = model.diff(res, exps[i])
            if bad:
                ctx.fail('wrong-data', 'attempt %d: %s: %s' % (k, bad[0], bad[1]))
            ctx.probe('opens judged')
        elif status == 'ok' and a['kind'] == 'query':
            c02.check_glm(ctx, a['op'], res, specs[i], exps[i])
            ctx.probe('queries judged')
        if status == 'error':
            ctx.check(excuse, 'failed-after-recovery' if k >= last else 'error-without-fault', 'attempt %d: %s' % (k, res))
            ctx.probe('attempt raised')
        elif excuse:
            ctx.probe('attempt succeeded despite a fault')
        ctx.log(k, a['kind'], status, fired[k])
        if fired[k] or d:
            ctx.state(a['kind'], tuple(x[1:] for x in fired[k]), d and d['how'], status)
            ctx.nontrivial = True
    ctx.sim_seconds += cfg['frames'] * cfg['frame_s']
