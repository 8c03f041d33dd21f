import hashlib
import os
import pickle
import traceback

import numpy as np

from core import Violation
from props import c06, c09
from world import mark

ID = 'C15'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('a run counts when a fault fired in a save or a load, or a load overlapped a save, and every load of the history was judged; '
        'distinct by the hash of the interleaved operation trace and of the loads')
STATES = 'distinct (table kind, size, start state, outcomes of the saves, what each load gave and whether it overlapped a save) tuples'
REAL = ['glmtools.io.ccd', 'pickle', 'sklearn KDTree', 'kernel file system', 'processes']
STUB = ['file call results at injected faults', 'process death', 'choice of the next process to make a file call']
ASSUMPTIONS = ['process death, not power loss', 'processes interleave at file calls']
SHRINK = ['procs', 'procs.*.todo', 'procs.*.faults', 'moves']


def gen_fault(rng, name, kind):
    if kind == 'load':
        cls = rng.choice(['read', 'read', 'read', 'open', 'close', 'stat'])
        f = {'proc': name, 'cls': cls, 'nth': rng.randrange({'read': 10}.get(cls, 4)), 'do': rng.choice(['err', 'err', 'short', 'crash'])}
        if f['do'] == 'short' and cls != 'read':
            f['do'] = 'err'
        if f['do'] == 'err':
            f['err'] = rng.choice(['EIO', 'EINTR', 'ESTALE'] if cls == 'read' else ['EIO', 'EMFILE', 'EACCES'])
    else:
        cls = rng.choice(['write'] * 8 + ['open', 'open', 'close', 'rename', 'rename', 'stat', 'unlink', 'sync'])
        f = {'proc': name, 'cls': cls, 'nth': rng.randrange({'write': 16, 'open': 4, 'close': 4}.get(cls, 3)),
             'do': rng.choice(['crash', 'torn', 'torn', 'err', 'err', 'short'] if cls == 'write' else ['crash', 'err', 'err'])}
        if f['do'] == 'err':
            f['err'] = rng.choice({'write': ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT'], 'open': ['EACCES', 'EMFILE', 'ENOSPC'],
                                   'rename': ['EACCES', 'EIO', 'ENOSPC'], 'close': ['EIO', 'ENOSPC']}.get(cls, ['EIO', 'EACCES']))
            if cls == 'write' and f['err'] in ('ENOSPC', 'EDQUOT') and rng.random() < .5:
                f['stay'] = True
    if f['do'] in ('torn', 'short'):
        f['frac'] = round(rng.random(), 3)
    return f


def gen_table(rng, kind, size):
    return {'kind': kind, 'seed': rng.randrange(1 << 30), 'nx': max(2, size + rng.choice([0, 0, 0, 1])),
            'ny': max(2, size - rng.choice([0, 0, 0, 1])), 'bad': rng.random() < .4, 'leaf': rng.choice([2, 16, 40])}


def generate(rng, tier):
    kind = rng.choice(['corner', 'tree'])
    size = rng.choice([2, 6, 20, 45] if kind == 'corner' else [2, 6, 20, 60])
    procs = []
    for k in range(rng.choice([1, 1, 2])):
        procs.append({'name': 'w%d' % k, 'faults': [], 'todo': [{'do': 'save', 'table': gen_table(rng, kind, size)}
                                                              for _ in range(rng.choice([1, 2, 3]))]})
        if rng.random() < .3:
            procs[-1]['todo'].insert(rng.randrange(len(procs[-1]['todo']) + 1), {'do': 'load'})
        if rng.random() < .6:
            procs[-1]['faults'] = [gen_fault(rng, 'w%d' % k, 'save') for _ in range(rng.choice([1, 1, 2, 3]))]
    for k in range(rng.choice([0, 1, 1, 2])):
        procs.append({'name': 'r%d' % k, 'faults': [], 'todo': [{'do': 'load'} for _ in range(rng.choice([1, 2, 4]))]})
        if rng.random() < .3:
            procs[-1]['faults'] = [gen_fault(rng, 'r%d' % k, 'load') for _ in range(rng.choice([1, 2]))]
    moves = [[rng.choice([1, 1, 2, 3, 6]), rng.randrange(4)] for _ in range(rng.choice([12, 40, 80]))]
    return {'kind': kind, 'old': rng.choice([None, 'whole', 'whole', 'whole', 'cut']), 'table': gen_table(rng, kind, size),
            'cut': round(rng.random(), 3), 'procs': procs, 'moves': moves}


def make(t):
    """The arguments of a save."""
    r = np.random.default_rng(t['seed'])
    nx, ny = t['nx'], t['ny']
    lons = -75. + np.arange(nx)[:, None] * .1 + r.uniform(-.04, .04, (nx, ny))
    lats = 20. + np.arange(ny)[None, :] * .1 + r.uniform(-.04, .04, (nx, ny))
    if t['kind'] == 'corner':
        return lons, lats, r.uniform(-.05, .05, (nx, ny, 4, 2))
    from glmtools.io import ccd
    if t['bad']:
        bad = r.random((nx, ny)) < .2
        bad[0, 0] = False
        # one of the two may be missing alone
        more = (r.random((2, nx, ny)) < .1) & (np.arange(nx * ny).reshape(nx, ny) > 0)
        lons, lats = np.ma.masked_array(lons, bad | more[0]), np.ma.masked_array(lats, bad | more[1])
    lookup, X, Y = ccd.create_pixel_lookup(lons, lats, leaf_size=t['leaf'])
    return lookup, X, Y, lons, lats


def save(kind, args, path=None):
    from glmtools.io import ccd
    if kind == 'corner':
        return ccd.save_pixel_corner_lookup(*args, **({'filename': path} if path else {}))
    return ccd.save_pixel_lookup(*args, **({'filename': path} if path else {}))


def load(kind, path):
    from glmtools.io import ccd
    return ccd.load_pixel_corner_lookup(path) if kind == 'corner' else ccd.load_pixel_lookup(path)


def places():
    r = np.random.default_rng(5)
    return np.c_[r.uniform(-75.5, -68.5, 40), r.uniform(19.5, 26.5, 40)]


def arrays(obj):
    h = hashlib.sha1()
    for a in obj:
        h.update(repr((a.shape, a.dtype.str, bool(np.ma.is_masked(a)))).encode())
        h.update(np.ascontiguousarray(np.ma.filled(a, 0)).tobytes())
        if np.ma.is_masked(a):
            h.update(np.ascontiguousarray(np.ma.getmaskarray(a)).tobytes())
    return h.hexdigest()


def digest(kind, obj):
    """The content of a table and its answers."""
    if kind == 'corner':
        return arrays(obj)
    lookup, X, Y, lons, lats = obj
    d, i = lookup.query(places())
    return arrays((X, Y, lons, lats, d, np.asarray(X)[i], np.asarray(Y)[i]))


def right_answers(kind, obj, args):
    """The table against the positions it was made from, without the tree."""
    from glmtools.io import ccd
    pos = places()
    if kind == 'corner':
        if min(args[0].shape) < 3:
            return True
        a = ccd.quads_from_corner_lookup(*obj, pixel_lon=pos[:, 0], pixel_lat=pos[:, 1])
        b = ccd.quads_from_corner_lookup(*args, pixel_lon=pos[:, 0], pixel_lat=pos[:, 1])
        return np.array_equal(a, b)
    lons, lats = np.ma.asarray(args[3]), np.ma.asarray(args[4])
    ok = ~(np.ma.getmaskarray(lons) | np.ma.getmaskarray(lats))
    lookup, X, Y = obj[:3]
    d, i = lookup.query(pos)
    x, y = np.asarray(X)[i[:, 0]], np.asarray(Y)[i[:, 0]]
    lons, lats = lons.filled(1e6), lats.filled(1e6)
    for k, (a, b) in enumerate(pos):
        all_d = np.where(ok, np.hypot(lons - a, lats - b), np.inf)
        if not ok[x[k], y[k]] or abs(all_d[x[k], y[k]] - all_d.min()) > 1e-9 or abs(d[k, 0] - all_d.min()) > 1e-9:
            return False
    return True


def execute(sc, ctx):
    kind = sc['kind']
    w = ctx.world('w', faults=[f for p in sc['procs'] for f in p['faults']], schedule=c09.expand(sc['moves']))
    path = os.path.join(w.disk, 'table.pickle')
    tables = {}                                     # digest -> arguments
    events = []                                     # saves and loads with the steps at which they began and ended
    first = None
    if sc['old']:
        args = make(sc['table'])
        save(kind, args, path)
        if sc['old'] == 'whole':
            first = digest(kind, args)
            tables[first] = args
        else:
            raw = open(path, 'rb').read()
            with open(path, 'wb') as f:
                f.write(raw[:min(int(len(raw) * sc['cut']), len(raw) - 1)])

    def run(todo):
        out = []
        for k, a in enumerate(todo):
            args = make(a['table']) if a['do'] == 'save' else None
            mark('begin', k)
            try:
                if args:
                    r = save(kind, args, path)
                else:
                    r = load(kind, path)
                res = 'ok'
            except Exception:
                r, res = traceback.format_exc()[-1500:], 'error'
            mark('done' if res == 'ok' else 'failed', k)
            if res == 'ok' and a['do'] == 'load':
                try:
                    r = digest(kind, r)
                except Exception:
                    r = 'not a table: ' + traceback.format_exc()[-300:]
                # what was loaded is told at once, because the process may die later
                with open(os.path.join(w.side, 'load.%s.%d' % (me, k)), 'w') as f:
                    f.write(r)
            out.append(r)
        return out

    procs, open_ = {}, {}
    for p in sc['procs']:
        me, todo = p['name'], [dict(a) for a in p['todo']]
        for a in todo:
            if a['do'] == 'save':
                args = make(a['table'])
                a['what'] = digest(kind, args)
                tables[a['what']] = args
        procs[me] = w.spawn(me, lambda: run(todo))
        procs[me].todo = todo

    def on_mark(p, label, k):
        if label == 'begin':
            a = p.todo[k]
            e = {'who': p.name, 'k': k, 'do': a['do'], 'what': a.get('what'), 'begin': w.steps, 'end': None, 'res': 'died', 'fault': False}
            open_[p.name] = (e, len(w.fired))
            events.append(e)
        elif label in ('done', 'failed'):
            e, n = open_[p.name]
            e['end'], e['res'] = w.steps, 'ok' if label == 'done' else 'error'
            e['fault'] = any(f[0] == p.name and f[3] not in c06.SOFT for f in w.fired[n:])

    w.on_mark = on_mark
    if not w.run():
        raise Violation('no-progress', '')
    ctx.absorb(w)
    for p in procs.values():
        if p.status == 'error':
            raise RuntimeError(p.error['where'])
        ctx.check(p.status in ('ok', 'crashed'), 'process-%s' % p.status, str(p.error))
    # one more load when nothing else is running
    end = {'who': 'end', 'k': 0, 'do': 'load', 'begin': w.steps + 1, 'end': w.steps + 2, 'res': 'ok', 'fault': False}
    try:
        last = load(kind, path)
        end['what'] = digest(kind, last)
    except Exception:
        end['res'] = 'error'
    events.append(end)
    saves = [e for e in events if e['do'] == 'save']
    sure = [e for e in saves if e['res'] == 'ok']
    for e in saves:
        if e['res'] == 'error' and not e['fault']:
            raise Violation('save-failed', '%s save %d failed without a fault' % (e['who'], e['k']))
    for e in events:
        if e['do'] != 'load':
            continue
        if e['res'] == 'died':
            continue
        begun = [s for s in saves if s['begin'] < e['end']]
        overlap = [s for s in begun if s['end'] is None or s['end'] > e['begin']]
        before = [s for s in sure if s['end'] < e['begin']]
        # a save that was certainly replaced before the load began is no longer a possible answer
        may = {s['what'] for s in begun if not (s['end'] is not None and any(t['begin'] > s['end'] for t in before))}
        if first and not before:
            may.add(first)
        if e['res'] == 'ok':
            got = e.get('what')
            if got is None:
                with open(os.path.join(w.side, 'load.%s.%d' % (e['who'], e['k']))) as f:
                    got = f.read()
            e['what'] = got
            if got not in tables:
                raise Violation('mixture', '%s load %d gave a table that nobody saved' % (e['who'], e['k']))
            ctx.check(got in may, 'stale-table', '%s load %d gave a table replaced earlier' % (e['who'], e['k']))
            ctx.probe('load during a save' if overlap else 'load between saves')
        else:
            # an error needs a reason: an injected fault, a save under way or broken off, or nothing there yet
            broken = [s for s in begun if s['res'] != 'ok']
            reason = e['fault'] or overlap or broken or (not before and sc['old'] != 'whole')
            ctx.check(reason, 'load-failed', '%s load %d failed with no reason' % (e['who'], e['k']))
            ctx.probe('load refused')
        ctx.log('load', e['who'], e['k'], e['res'], sorted(tables).index(e['what']) if e['res'] == 'ok' else '')
    if end['res'] == 'ok':
        ctx.check(right_answers(kind, last, tables[end['what']]), 'wrong-answers', 'the loaded table answers a position wrongly')
        raw = save(kind, tables[end['what']])
        ctx.check(isinstance(raw, bytes) and digest(kind, pickle.loads(raw)) == end['what'], 'bytes-differ', '')
    ctx.nontrivial = bool(w.fired) or w.switches > 1
    ctx.state(kind, sc['table']['nx'], sc['old'], [e['res'] for e in saves], sorted((e['res'], e.get('what') == first) for e in events if e['do'] == 'load'))
