import numpy as np
from shapely.geometry import Polygon, box

import simpool
from core import Violation

ID = 'C13'
RUNS = {'quick': 6000, 'thorough': 80000}
RULE = ('a run counts when tasks finished out of order, a worker failed or died, or a mesh was used again after such a call, and all pieces of '
        'all calls were judged; distinct by the hash of the dispatch log and of the results')
STATES = 'distinct (mesh kind, call kind, workers, batches, completion order class, worker failure, outcome) tuples'
REAL = ['glmtools.grid.clipping', 'pyclipper', 'scikit-learn', 'worker processes']
STUB = ['process pool: dispatch, completion order, worker death and worker failure are decided by the scenario']
ASSUMPTIONS = ['polygons are simple and not degenerate', 'tasks of one pool do not overlap in time, only their order of completion varies']
SHRINK = ['calls', 'calls.*.polys', 'calls.*.faults', 'calls.*.order']
TOL = 1e-5


def gen_poly(rng, m):
    """A simple polygon around some place of the mesh: star shaped, or made of mesh lines."""
    w, h = m['nx'] * m['d'], m['ny'] * m['d']
    kind = rng.choice(['inside', 'inside', 'small', 'edge', 'corner', 'lines', 'out', 'huge', 'shoe', 'shoe'])
    if kind == 'shoe':
        # two arms and a bar: cells around the arms are met twice
        s = m['d'] * rng.choice([.3, .8, 1.5, 3])
        x, y = rng.uniform(0, w), rng.uniform(0, h)
        t, u = rng.uniform(.1, .4) * s, rng.uniform(.1, .4) * s
        a, c = rng.uniform(.5, 1.5) * s, rng.uniform(.5, 1.5) * s
        pts = [(0, 0), (s, 0), (s, a), (s - t, a), (s - t, u), (t, u), (t, c), (0, c)]
        r = rng.choice([0, .5, 1.1, 2.9, 4])
        pts = [(x + p * np.cos(r) - q * np.sin(r), y + p * np.sin(r) + q * np.cos(r)) for p, q in pts]
    elif kind == 'lines':
        i, j = rng.randrange(m['nx']), rng.randrange(m['ny'])
        p, q = rng.randrange(1, m['nx'] - i + 1), rng.randrange(1, m['ny'] - j + 1)
        a, b, c, d = i * m['d'], (i + p) * m['d'], j * m['d'], (j + q) * m['d']
        pts = [(a, c), (b, c), (b, d), (a, d)]
    else:
        size = {'small': .2, 'huge': 2.5 * max(m['nx'], m['ny'])}.get(kind, rng.choice([.7, 2, 4.5])) * m['d']
        cx, cy = rng.uniform(0, w), rng.uniform(0, h)
        if kind == 'edge':
            cx = rng.choice([0., w])
        if kind == 'corner':
            cx, cy = rng.choice([0., w]), rng.choice([0., h])
        if kind == 'out':
            cx = w * 2 + 4 * size
        n = rng.choice([3, 4, 4, 5, 7])
        ang = sorted((k + rng.uniform(.1, .9)) * 2 * np.pi / n for k in range(n))
        rad = [size * rng.uniform(.35, 1) for _ in ang]
        pts = [(cx + r * np.cos(a), cy + r * np.sin(a)) for a, r in zip(ang, rad)]
    if rng.random() < .5:
        pts = pts[::-1]
    return [[float(m['x0'] + x), float(m['y0'] + y)] for x, y in pts]


def generate(rng, tier):
    kind = rng.choice(['regular', 'regular', 'curved', 'plain'])
    m = {'kind': kind, 'nx': rng.choice([2, 3, 6, 11]), 'ny': rng.choice([2, 4, 9]), 'd': rng.choice([1., .25, 56e-6 * 1e3]),
         'x0': rng.choice([0., -101.3, 7.]), 'y0': rng.choice([0., 33.1]), 'shear': rng.choice([.1, .4]), 'flip': rng.random() < .5,
         'down': rng.choice(['', '', 'x', 'y']), 'wave': rng.choice([0, .15]), 'n': rng.choice([2, 12, 12, 400])}
    calls = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        polys = [gen_poly(rng, m) for _ in range(rng.choice([1, 3, 10, 30]))]
        c = {'do': rng.choice(['pool', 'pool', 'pool', 'slice', 'slice', 'near', 'bbox']), 'polys': polys,
             'workers': rng.choice([1, 2, 3, 4, 8]), 'chunk': rng.choice([1, 1, 2, 3, 7, 100]),
             'order': [rng.randrange(8) for _ in range(rng.choice([0, 5, 40]))], 'faults': [],
             'defaults': rng.random() < .15, 'array': rng.random() < .3}
        if c['do'] == 'bbox':
            a, b = sorted((rng.uniform(0, 1), rng.uniform(0, 1)))
            p, q = sorted((rng.uniform(0, 1), rng.uniform(0, 1)))
            w, h = m['nx'] * m['d'], m['ny'] * m['d']
            c['bbox'] = [m['x0'] + a * w, m['x0'] + b * w, m['y0'] + p * h, m['y0'] + q * h]
        if rng.random() < .35:
            c['faults'] = [{'task': rng.randrange(max(1, min(len(polys), 1 + len(polys) // c['chunk']))),
                            'do': rng.choice(['die', 'raise'])} for _ in range(rng.choice([1, 1, 2]))]
        calls.append(c)
    return {'mesh': m, 'calls': calls}


def edges(m):
    x = m['x0'] + np.arange(m['nx'] + 1) * m['d']
    y = m['y0'] + np.arange(m['ny'] + 1) * m['d']
    if m['down'] == 'x':
        x = x[::-1]
    if m['down'] == 'y':
        y = y[::-1]
    X, Y = np.meshgrid(x, y)
    if m['kind'] == 'curved':
        dx, dy = m['d'] * m['shear'], m['d'] * m['wave']
        X, Y = X + dx * (Y - m['y0']) / m['d'] * .3, Y + dy * np.sin((X - m['x0']) / m['d'])
    if m['flip']:
        X, Y = X.T, Y.T
    return np.ascontiguousarray(X), np.ascontiguousarray(Y)


class Truth(object):
    """The mesh as shapes of an independent geometry library."""

    def __init__(self, X, Y):
        self.shape = X.shape[0] - 1, X.shape[1] - 1
        self.cell = {}
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                self.cell[i, j] = Polygon([(X[a, b], Y[a, b]) for a, b in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))])

    def overlaps(self, poly):
        out = {}
        for k, c in self.cell.items():
            a = c.intersection(poly).area
            if a > 0:
                out[k] = a
        return out


def area(p):
    x, y = p[:, 0] - p[0, 0], p[:, 1] - p[0, 1]
    return abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))) / 2


def judge(ctx, slicer, truth, polys, sub, areas, must, where):
    """must(poly, cell) says whether the piece of that cell may not be missing."""
    ctx.check(len(sub) == len(polys) and len(areas) == len(polys), 'wrong-length', where)
    for n, (p, (pieces, fracs, (ii, jj)), a) in enumerate(zip(polys, sub, areas)):
        p = np.asarray(p)
        at = '%s polygon %d' % (where, n)
        shape = Polygon(p)
        ctx.check(abs(a - shape.area) <= 1e-6 * shape.area, 'wrong-area', '%s: %r, should be %r' % (at, float(a), shape.area))
        ctx.check(len(pieces) == len(fracs) == len(ii) == len(jj), 'ragged-result', at)
        got = {}
        for q, f, i, j in zip(pieces, fracs, ii, jj):
            q = np.asarray(q)
            key = int(i), int(j)
            ctx.check(key in truth.cell, 'no-such-cell', at)
            ctx.check(abs(area(q) - f * shape.area) <= TOL * shape.area, 'piece-and-fraction-differ', '%s cell %s' % (at, key))
            if f > TOL:
                c = q.mean(axis=0)
                lo, hi = np.array(truth.cell[key].bounds[:2]), np.array(truth.cell[key].bounds[2:])
                ctx.check((c >= lo - 1e-6).all() and (c <= hi + 1e-6).all(), 'piece-outside-its-cell', '%s cell %s' % (at, key))
            got[key] = got.get(key, 0) + f
        want = {k: v / shape.area for k, v in truth.overlaps(shape).items()}
        for k, v in got.items():
            ctx.check(abs(v - want.get(k, 0)) <= TOL, 'wrong-piece', '%s cell %s: %.6f of the polygon, should be %.6f' % (at, k, v, want.get(k, 0)))
        for k, v in want.items():
            if v > TOL and k not in got and must(shape, k):
                raise Violation('lost-piece', '%s cell %s: %.4f of the polygon is missing' % (at, k, v))
        if len(ii):
            q = slicer.quad_frac_from_poly_frac_area(fracs, a, ii, jj)
            for f, r, i, j in zip(fracs, q, ii, jj):
                exp = f * shape.area / truth.cell[int(i), int(j)].area
                ctx.check(abs(r - exp) <= 1e-6 * max(1, exp), 'wrong-cell-fraction', at)


def same(a, b):
    (p, f, (i, j)), (q, g, (k, l)) = a, b
    return (len(p) == len(q) and all(np.array_equal(x, y) for x, y in zip(p, q)) and np.array_equal(f, g)
            and np.array_equal(i, k) and np.array_equal(j, l))


def execute(sc, ctx):
    from glmtools.grid import clipping as C
    m = sc['mesh']
    X, Y = edges(m)
    if m['kind'] == 'regular':
        mesh = C.QuadMeshSubset(X, Y, regular=True)
    else:
        mesh = C.QuadMeshSubset(X, Y, n_neighbors=min(m['n'], m['nx'] * m['ny']))
    slicer = C.QuadMeshPolySlicer(mesh)
    truth = Truth(X, Y)
    everything = m['kind'] != 'regular' and m['n'] >= m['nx'] * m['ny']
    outcomes = []
    for n, c in enumerate(sc['calls']):
        where = 'call %d (%s)' % (n, c['do'])
        polys = [np.array(p) for p in c['polys']]
        if c['array']:
            size = min(len(p) for p in polys) if polys else 0
            polys = np.array([p for p in polys if len(p) == size]) if polys else polys
        if not len(polys):
            continue
        before = [p.copy() for p in polys]
        args = None
        if c['do'] == 'pool':
            args = []
            for p in polys:
                lo, hi = p.min(axis=0), p.max(axis=0)
                args.append((p, C.poly_area(p[:, 0], p[:, 1]), mesh.quads_in_bbox((lo[0], hi[0], lo[1], hi[1]))))
            args = [(p, abs(a), q) for p, a, q in args]
            serial = [C.make_sub_polys(a) for a in args]
        simpool.reset({'order': c['order'], 'faults': c['faults']})
        must = lambda shape, k: True
        try:
            if c['do'] == 'pool':
                kw = {} if c['defaults'] else {'max_workers': c['workers'], 'chunksize': c['chunk']}
                sub, areas = list(C.run_pool_map(C.make_sub_polys, args, **kw)), [a[1] for a in args]
            elif c['do'] == 'slice':
                sub, areas = slicer.slice(polys, bbox=True)
            elif c['do'] == 'near':
                sub, areas = slicer.slice(polys)
                must = lambda shape, k: everything
            else:
                b = tuple(c['bbox'])
                inner = box(b[0], b[2], b[1], b[3])
                sub, areas = slicer.slice(polys, bbox=b)
                must = lambda shape, k: truth.cell[k].intersection(inner).area > 1e-6 * truth.cell[k].area
            res = 'ok'
        except Exception:
            st = simpool.STATS
            if not (st['died'] or st['raised']):
                raise
            res = 'error'
        st = simpool.STATS
        failed = st['died'] + st['raised']
        if st['died']:
            ctx.fault('worker died', st['died'])
        if st['raised']:
            ctx.fault('worker failed', st['raised'])
        if st['out_of_order']:
            ctx.fault('tasks finished out of order', st['out_of_order'])
        ctx.probe('calls through a pool' if st['tasks'] else 'calls without a pool')
        ctx.steps += st['tasks']
        ctx.log(n, c['do'], st['log'], res)
        if res == 'ok':
            if failed:
                ctx.probe('worker failure made good')
            if args is not None:
                ctx.check(len(sub) == len(serial), 'wrong-length', '%s: %d results for %d polygons' % (where, len(sub), len(serial)))
                for k, (a, b) in enumerate(zip(sub, serial)):
                    ctx.check(same(a, b), 'not-as-serial', '%s result %d' % (where, k))
            judge(ctx, slicer, truth, polys, sub, areas, must, where)
        for p, q in zip(polys, before):
            ctx.check(np.array_equal(p, q), 'input-changed', where)
        outcomes.append((c['do'], res))
        ctx.state(m['kind'], c['do'], c['workers'], min(len(polys), 4), bool(st['out_of_order']), bool(st['died']), bool(st['raised']), res)
    X2, Y2 = edges(m)
    ctx.check(np.array_equal(X, X2) and np.array_equal(Y, Y2), 'mesh-changed', '')
