import collections
import os

import numpy as np

import baton
import feed
import model
import synth as S

ID = 'C02'
RUNS = {'quick': 2000, 'thorough': 20000}
RULE = ('a run counts when the threads were switched inside a query or at least two queries hit the same open file; '
        'distinct by the hash of the sequence of thread switches and query results')
STATES = 'distinct (query kind, result sizes per level) pairs'
REAL = ['glmtools.io.glm queries', 'glmtools.io.traversal', 'xarray', 'netCDF4/HDF5', 'numpy', 'threads (one runs at a time)']
STUB = ['thread scheduler', 'input files and trees are synthetic', 'lmatools (import only)']
ASSUMPTIONS = ['IDs are unique per level', 'interleaving at source-line granularity of the code under test',
               'values are kept off the exact bounds of a query']
SHRINK = ['threads', 'threads.*', 'moves', 'spec.flashes', 'spec.groups', 'spec.events', 'rows', 'threads.*.*.ids']


# -- generation

def gen_moves(rng, n_threads):
    if n_threads < 2:
        return []
    style = rng.choice(['fine', 'coarse', 'mixed', 'none'])
    out = []
    for _ in range({'fine': 150, 'coarse': 12, 'mixed': 60, 'none': 0}[style]):
        n = {'fine': rng.randrange(1, 4), 'coarse': rng.randrange(5, 60)}.get(
            style, rng.choice([1, 2, 3, 8, 25]))
        out.append([n, rng.randrange(n_threads)])
    return out


def gen_bounds(rng, values, tight=()):
    """A range whose ends stay clear of all values."""
    v = sorted(set(round(x, 7) for x in values)) or [0.0]
    span = max(v[-1] - v[0], 1e-3)
    if rng.random() < .15:
        return [v[0] - 2 * span, v[-1] + 2 * span]
    if tight and rng.random() < .4:
        # just around one centroid, so that it is inside while its parts need not be
        mid = rng.choice(tight)
        for _ in range(20):
            w = 10 ** rng.uniform(-4.3, -2) * (1 if span < 1 else 60)
            if all(abs(abs(x - mid) - w) > 2e-5 for x in v):
                return [mid - w, mid + w]

    def end(lo):
        for _ in range(50):
            b = rng.uniform(v[0] - .3 * span, v[-1] + .3 * span)
            if all(abs(b - x) > 2e-5 for x in v):
                return b
        return v[0] - span if lo else v[-1] + span
    a, b = sorted((end(True), end(False)))
    return [a, b]


def gen_glm_op(rng, spec, exp):
    k = rng.choice(['flashes', 'flashes', 'subset', 'subset', 'subset', 'groups', 'events', 'count', 'replicate', 'lut', 'check'])
    if k in ('flashes', 'groups', 'events'):
        col = {'flashes': 'flash', 'groups': 'group', 'events': 'event'}[k]
        ids = sorted(exp[col])
        ids = rng.sample(ids, rng.randrange(0, min(len(ids), 8) + 1)) if ids else []
        if rng.random() < .25:
            ids.insert(rng.randrange(len(ids) + 1), rng.randrange(1, 60000))
        if k == 'events' and ids and rng.random() < .4:
            ids = ids + [rng.choice(ids) for _ in range(rng.randrange(1, 4))]
        seen = set()
        if k != 'events':
            ids = [i for i in ids if not (i in seen or seen.add(i))]
        return {'q': k, 'ids': ids}
    if k == 'subset':
        kw = {}
        for name, level, col in (('lon_range', 'flash', 'lon'), ('lat_range', 'flash', 'lat'),
                                 ('x_range', None, 'x'), ('y_range', None, 'y')):
            if rng.random() < .4:
                vals = [r[col] for lv in ([level] if level else ['flash', 'event']) for r in exp[lv].values()]
                kw[name] = gen_bounds(rng, vals, [r[col] for r in exp['flash'].values()])
        for name, col in (('min_events', 'ne'), ('min_groups', 'ng')):
            if rng.random() < .35:
                kw[name] = rng.choice([r[col] for r in exp['flash'].values()] or [1]) + rng.choice([0, 0, 0, 1])
        if rng.random() < .25:
            kw['check_event_xy'] = False
        return {'q': 'subset', 'kw': kw}
    return {'q': k}


def gen_tree(rng):
    depth = rng.choice([2, 3, 3, 4, 5])
    rows = []
    prev = []
    base = rng.choice([0, 100, 70000])
    for d in range(depth):
        n = rng.randrange(0 if rng.random() < .1 else 1, 5 + 3 * d)
        ids = rng.sample(range(base + 1, base + 200), n)
        level = []
        for i in ids:
            par = rng.choice(prev) if prev else base + 300 + i
            if d and rng.random() < .05:
                par = base + 500 + rng.randrange(5)
            level.append([i, par if d else 0])
        if d and not prev:
            level = []
        rows.append(level)
        prev = [r[0] for r in level]
    return rows


def gen_tree_op(rng, rows):
    d = len(rows)
    k = rng.choice(['reduce', 'reduce', 'reduce', 'count', 'replicate', 'check'])
    if k == 'reduce':
        lv = rng.randrange(d)
        ids = [r[0] for r in rows[lv]]
        ids = rng.sample(ids, rng.randrange(0, len(ids) + 1))
        if rng.random() < .2:
            ids.append(999999)
        if lv == d - 1 and ids and rng.random() < .4:
            ids += [rng.choice(ids) for _ in range(2)]
        return {'q': 'reduce', 'level': lv, 'ids': ids}
    if k == 'count':
        a = rng.randrange(d - 1)
        return {'q': 'count', 'a': a, 'b': rng.choice([None] + list(range(a + 1, d)))}
    if k == 'replicate':
        b = rng.randrange(1, d)
        return {'q': 'replicate', 'a': rng.randrange(0, b), 'b': b}
    return {'q': 'check'}


def generate(rng, tier):
    n_thr = rng.choice([1, 2, 2, 3])
    if rng.random() < .4:
        rows = gen_tree(rng)
        return {'kind': 'tree', 'rows': rows, 'moves': gen_moves(rng, n_thr),
                'threads': [[gen_tree_op(rng, rows) for _ in range(rng.randrange(1, 5))] for _ in range(n_thr)]}
    limb = rng.random() < .3
    q = {'sat': rng.choice(['east', 'east', 'west', 'test'])}
    centre = None
    if limb:
        far, near = rng.choice([-1, 1]) * rng.uniform(50, 62), rng.uniform(-15, 15)
        centre = (S.nadir(q) + far, near) if rng.random() < .5 else (S.nadir(q) + near, far)
    n_flash, max_groups = rng.choice([0, 1, 2, 4, 6, 9]), 4
    k = rng.random()
    if k < .01:
        n_flash = 130
    elif k < .02:
        n_flash, max_groups = rng.choice([1, 2]), 400
    spec = S.gen_file(rng, feed.gen_t0(rng), centre=centre, n_flash=n_flash, max_groups=max_groups,
                      big_ids=rng.random() < .5, spread=40 if limb else 8, quirks=q)
    spec = feed.apply(spec, feed.gen_ops(rng, spec)) if rng.random() < .4 else spec
    exp = model.expected(spec)
    return {'kind': 'glm', 'spec': spec, 'moves': gen_moves(rng, n_thr),
            'threads': [[gen_glm_op(rng, spec, exp) for _ in range(rng.randrange(1, 5))] for _ in range(n_thr)]}


# -- execution on files

def glm_op(g, o, t0):
    from glmtools.io.glm import get_lutevents
    if o['q'] == 'flashes':
        return model.tables(g.get_flashes(list(o['ids'])), t0)
    if o['q'] in ('groups', 'events'):
        return model.tables(g.reduce_to_entities(o['q'][:-1] + '_id', list(o['ids'])), t0)
    if o['q'] == 'subset':
        kw = {k: tuple(v) if isinstance(v, list) else v for k, v in o['kw'].items()}
        return model.tables(g.subset_flashes(**kw), t0)
    if o['q'] == 'count':
        ids = [np.array(g.dataset[v].data) for v in ('flash_id', 'group_id')]
        return list(zip(ids, [np.array(c) for c in g.count_children('flash_id', 'event_id')]))
    if o['q'] == 'replicate':
        return (np.array(g.dataset['event_id'].data), np.array(g.replicate_parent_ids('flash_id', 'event_parent_group_id')))
    if o['q'] == 'check':
        a, b = g.check_parent_child()
        return {k: tuple(v) for k, v in a.items()}, {k: tuple(v) for k, v in b.items()}
    if g.dataset.dims['number_of_events'] == 0:
        return None
    lut = get_lutevents(g.dataset)
    return {v: np.array(lut['lutevent_' + v].data) for v in
            ('x', 'y', 'energy', 'count', 'flash_count', 'group_count', 'total_flash_area',
             'total_group_area', 'min_flash_area')}


def want_subset(spec, exp, kw):
    lim = .1349
    out = []
    for i, f in exp['flash'].items():
        ok = True
        for name, col in (('lon_range', 'lon'), ('lat_range', 'lat'), ('x_range', 'x'), ('y_range', 'y')):
            if name in kw:
                ok &= kw[name][0] < f[col] < kw[name][1]
        ok &= f['ne'] >= kw.get('min_events', 0) and f['ng'] >= kw.get('min_groups', 0)
        if ok and kw.get('check_event_xy', True):
            xr, yr = kw.get('x_range', (-lim, lim)), kw.get('y_range', (-lim, lim))
            ok = any(max(xr[0], -lim) < e['x'] < min(xr[1], lim) and
                     max(yr[0], -lim) < e['y'] < min(yr[1], lim)
                     for e in exp['event'].values() if e['flash'] == i)
        if ok:
            out.append(i)
    return out


def close_to_limit(exp):
    return any(abs(abs(e[c]) - .1349) < 1e-5 for e in exp['event'].values() for c in 'xy')


def narrow(exp, part):
    """Expected tables for a part of the tree; stored counts and links stay those of the full file."""
    return {lv: {i: exp[lv][i] for i in ids} for lv, ids in part.items()}


def part_of(spec, **kw):
    p = model.pick(spec, **kw)
    return {'flash': [r[0] for r in p['flashes']], 'group': [r[0] for r in p['groups']],
            'event': [r[0] for r in p['events']]}


def check_glm(ctx, o, res, spec, exp):
    full = model.tree(spec)
    q = o['q']
    if q in ('flashes', 'subset', 'groups', 'events'):
        level = {'flashes': 'flash', 'subset': 'flash', 'groups': 'group', 'events': 'event'}[q]
        if q == 'subset':
            ids = want_subset(spec, exp, o['kw'])
        else:
            ids = [i for i in o['ids'] if i in exp[level]]
            got = res[level]['id'].tolist()
            ctx.check(got == ids, q + '-order', 'asked %s, got %s' % (ids[:20], got[:20]))
        res = dict(res)
        if q == 'events':
            # repeated events are kept repeated; compare one of each below
            _, first = np.unique(res['event']['id'], return_index=True)
            for c, a in res['event'].items():
                for i in set(ids):
                    rows = np.asarray(a)[res['event']['id'] == i]
                    ctx.check(len(rows) == ids.count(i) and np.all(rows == rows[0]), 'repeated-event-differs')
            res['event'] = {c: np.asarray(a)[first] for c, a in res['event'].items()}
        part = part_of(full, **{{'flash': 'flashes', 'group': 'groups', 'event': 'events'}[level]: ids})
        bad = model.diff(res, narrow(exp, part))
        if bad:
            ctx.fail(q + ':' + bad[0], bad[1])
        ctx.state(q, tuple(len(v) for v in part.values()))
        return
    if q == 'count':
        (fi, fc), (gi, gc) = res
        ctx.check({i: int(c) for i, c in zip(fi.tolist(), fc)} == {i: f['ng'] for i, f in exp['flash'].items()}, 'count-flash')
        ctx.check({i: int(c) for i, c in zip(gi.tolist(), gc)} == {i: g['n'] for i, g in exp['group'].items()}, 'count-group')
    elif q == 'replicate':
        ctx.check(dict(zip(res[0].tolist(), res[1].tolist())) == {i: e['flash'] for i, e in exp['event'].items()}, 'replicate')
    elif q == 'check':
        check_links(ctx, res, [('flash_id', set(exp['flash'])), ('group_id', set(exp['group']))],
                    [('group_parent_flash_id', {g['parent'] for g in exp['group'].values()}),
                     ('event_parent_group_id', {e['parent'] for e in exp['event'].values()})])
    elif q == 'lut' and res is not None:
        check_lut(ctx, res, full, exp)
    ctx.state(q)


def check_links(ctx, res, ents, pars):
    for (ev, have), (pv, named) in zip(ents, pars):
        n, bad, ids = res[0][ev]
        ctx.check((n, bad, set(ids)) == (len(have), len(have - named), have - named), 'report-childless', str(res[0]))
        n, bad, ids = res[1][pv]
        ctx.check((n, bad, set(ids)) == (len(named), len(named - have), named - have), 'report-orphans', str(res[1]))


def check_lut(ctx, res, full, exp):
    """Totals per pixel, when all pixels are clearly apart."""
    pix = collections.OrderedDict()
    for e in full['events']:
        pix.setdefault((e[S.E_LAT], e[S.E_LON]), []).append(e[S.E_ID])
    xy = {p: (exp['event'][ids[0]]['x'], exp['event'][ids[0]]['y']) for p, ids in pix.items()}
    pts = np.array(list(xy.values()))
    if len(pts) > 1:
        d = np.abs(pts[:, None] - pts[None]).max(-1) + np.eye(len(pts))
        if d.min() < 6e-5:
            return
    ctx.check(len(res['x']) == len(pix), 'lut-pixels', '%d pixels for %d' % (len(res['x']), len(pix)))
    for p, ids in pix.items():
        k = int(np.argmin(np.hypot(res['x'] - xy[p][0], res['y'] - xy[p][1])))
        ev = [exp['event'][i] for i in ids]
        fs, gs = {e['flash'] for e in ev}, {e['parent'] for e in ev}
        want = dict(x=xy[p][0], y=xy[p][1], energy=sum(e['energy'] for e in ev), count=len(ids),
                    flash_count=len(fs), group_count=len(gs),
                    total_flash_area=sum(exp['flash'][i]['area'] for i in fs),
                    total_group_area=sum(exp['group'][i]['area'] for i in gs),
                    min_flash_area=min(exp['flash'][i]['area'] for i in fs))
        for c, w in want.items():
            got = float(res[c][k])
            ctx.check(abs(got - w) <= 1e-6 + 2e-5 * abs(w), 'lut-' + c, 'pixel %s %s: %r, expected %r' % (p, c, got, w))
    ctx.probe('pixel totals compared')


# -- execution on plain trees

def build_tree(rows):
    import xarray as xr
    coords, data = {}, {}
    for d, level in enumerate(rows):
        dim = 'n%d' % d
        coords['id%d' % d] = (dim, np.array([r[0] for r in level], 'i8'))
        if d:
            coords['par%d' % d] = (dim, np.array([r[1] for r in level], 'i8'))
        data['val%d' % d] = (dim, np.array([r[0] * 10.5 for r in level], 'f8'))
    return xr.Dataset(data, coords=coords)


def links_ok(rows):
    return all(r[1] in {q[0] for q in rows[d - 1]} for d in range(1, len(rows)) for r in rows[d])


def tree_op(t, o, d):
    if o['q'] == 'reduce':
        r = t.reduce_to_entities('id%d' % o['level'], list(o['ids']))
        return [(np.array(r['id%d' % k].data), np.array(r['par%d' % k].data) if k else None,
                 np.array(r['val%d' % k].data)) for k in range(d)]
    if o['q'] == 'count':
        return [np.array(c) for c in t.count_children('id%d' % o['a'], None if o['b'] is None else 'id%d' % o['b'])]
    if o['q'] == 'replicate':
        return np.array(t.replicate_parent_ids('id%d' % o['a'], 'par%d' % o['b']))
    a, b = t.check_parent_child()
    return {k: tuple(v) for k, v in a.items()}, {k: tuple(v) for k, v in b.items()}


def check_tree(ctx, o, res, rows):
    d = len(rows)
    if o['q'] == 'reduce':
        lv = o['level']
        have = {r[0] for r in rows[lv]}
        ids = [i for i in o['ids'] if i in have]
        want = [None] * d
        want[lv] = ids
        for k in range(lv + 1, d):
            up = set(want[k - 1]) if k > lv + 1 else set(ids)
            want[k] = [r[0] for r in rows[k] if r[1] in up]
        below = [r for r in rows[lv] if r[0] in set(ids)]
        for k in range(lv - 1, -1, -1):
            named = {r[1] for r in below}
            below = [r for r in rows[k] if r[0] in named]
            want[k] = [r[0] for r in below]
        for k in range(d):
            got, par, val = res[k]
            if k == lv:
                ctx.check(got.tolist() == want[k], 'tree-order', 'asked %s got %s' % (want[k], got.tolist()))
            ctx.check(sorted(got.tolist()) == sorted(want[k]), 'tree-members',
                      'level %d: %s, expected %s' % (k, sorted(got.tolist()), sorted(want[k])))
            true_par = dict(map(tuple, rows[k]))
            ctx.check(np.array_equal(val, got * 10.5), 'tree-values')
            if k:
                ctx.check(par.tolist() == [true_par[i] for i in got.tolist()], 'tree-parents')
        ctx.state('reduce', lv, tuple(len(w) for w in want))
    elif o['q'] == 'count':
        last = o['a'] + 1 if o['b'] is None else o['b']
        want = []
        for k in range(o['a'], last):
            want.append([sum(1 for r in rows[k + 1] if r[1] == p[0]) for p in rows[k]])
        ctx.check([r.tolist() for r in res] == want, 'tree-count', '%s, expected %s' % (res, want))
        ctx.state('count', tuple(map(tuple, want)))
    elif o['q'] == 'replicate':
        up = []
        for r in rows[o['b']]:
            i = r[1]
            for k in range(o['b'] - 1, o['a'], -1):
                i = dict(map(tuple, rows[k]))[i]
            up.append(i)
        ctx.check(res.tolist() == up, 'tree-replicate', '%s, expected %s' % (res.tolist(), up))
        ctx.state('replicate', tuple(up))
    else:
        check_links(ctx, res, [('id%d' % k, {r[0] for r in rows[k]}) for k in range(d - 1)],
                    [('par%d' % k, {r[1] for r in rows[k]}) for k in range(1, d)])


def snapshot(ds):
    return {n: (v.dims, np.array(v.data), dict(v.attrs)) for n, v in ds.variables.items()}, dict(ds.attrs)


def same_snapshot(a, b):
    if set(a[0]) != set(b[0]):
        return 'variables %s' % sorted(set(a[0]) ^ set(b[0]))
    for n in a[0]:
        if a[0][n][0] != b[0][n][0] or str(a[0][n][2]) != str(b[0][n][2]):
            return n + ' (layout or attributes)'
        x, y = a[0][n][1], b[0][n][1]
        if x.shape != y.shape or x.dtype != y.dtype or not (
                np.array_equal(x, y, equal_nan=True) if x.dtype.kind == 'f' else np.array_equal(x, y)):
            return n
    return '' if str(a[1]) == str(b[1]) else 'attributes'


def execute(sc, ctx):
    from glmtools.io.glm import GLMDataset
    from glmtools.io.traversal import OneToManyTraversal
    if sc['kind'] == 'glm':
        spec = sc['spec']
        exp = model.expected(spec)
        path = os.path.join(ctx.root, S.filename(spec))
        S.write(spec, path)
        obj = GLMDataset(path)
        ds = obj.dataset
        near = close_to_limit(exp)

        def one(o):
            return glm_op(obj, o, spec['t0'])

        def judge(o, r):
            if near and o['q'] == 'subset':
                return
            check_glm(ctx, o, r, spec, exp)
    else:
        rows = sc['rows']
        d = len(rows)
        ds = build_tree(rows)
        obj = OneToManyTraversal(ds, ['id%d' % k for k in range(d)], ['par%d' % k for k in range(1, d)])
        whole = links_ok(rows)

        def one(o):
            if o['q'] == 'replicate' and not whole:
                return None
            return tree_op(obj, o, d)

        def judge(o, r):
            if r is None:
                return
            check_tree(ctx, o, r, rows)
    before = snapshot(ds)
    sched = baton.Sched(sc['moves'])

    def body(ops):
        return lambda: [one(o) for o in ops] + [one(ops[0])] if ops else []

    res = sched.run([body(ops) for ops in sc['threads']])
    ctx.steps += sched.lines
    ctx.switches += sched.switches
    for row in sched.trace:
        ctx.log(row)
    if sched.switches:
        ctx.probe('switched inside a query', sched.switches)
        ctx.fault('thread preempted in a query', sched.switches)
    if sum(len(t) for t in sc['threads']) > 1:
        ctx.nontrivial = True
    for r in res:
        if r[0] != 'ok':
            ctx.fail('query-raised:' + type(r[1]).__name__, r[2][-2000:])
    for ops, (_, out) in zip(sc['threads'], res):
        for o, r in zip(list(ops) + list(ops[:1]), out):
            ctx.probe('query ' + o['q'])
            judge(o, r)
            ctx.log(o['q'], str(type(r)))
    bad = same_snapshot(before, snapshot(obj.dataset))
    ctx.check(not bad, 'open-data-changed', bad)
