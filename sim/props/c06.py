import os

import job as J
import product as P
from core import Violation
from world import Clock

ID = 'C06'
RUNS = {'quick': 1500, 'thorough': 20000}
RULE = ('a run counts when a fault fired while a product was being written (or a job was cut off) and every product path was checked '
        'after every file operation; distinct by the hash of the operation trace')
STATES = 'distinct (operation class and number within its product, fault, old product present, outcome) tuples'
REAL = ['glmtools.io.imagery', 'glmtools.grid', 'glmtools.io.glm (in whole jobs)', 'xarray', 'netCDF4/HDF5', 'kernel file system']
STUB = ['lmatools gridder base class and fixed-grid tables', 'clock', 'process death', 'file call results at injected faults']
ASSUMPTIONS = ['process death, not power loss: completed calls stay on disk',
               'a crash inside the netCDF library after an injected error counts as process death']
SHRINK = ['jobs', 'jobs.*.faults', 'jobs.*.cfg.cells']

SOFT = ('short', 'EINTR')
DIRS = ['', 'out', 'a/b', 'y{start_time:%Y}/{start_time:%b/%d}']


def gen_fault(rng, name):
    cls = rng.choice(['write'] * 6 + ['open'] * 2 + ['close', 'close', 'rename', 'rename', 'mkdir', 'stat', 'resize', 'lock', 'read', 'unlink', 'sync'])
    top = {'write': 190, 'open': 8, 'close': 8, 'rename': 3, 'mkdir': 4, 'stat': 25, 'resize': 6, 'lock': 6, 'read': 6,
           'unlink': 2, 'sync': 3}[cls]
    nth = rng.randrange(top)
    if rng.random() < .3:
        nth = min(nth, rng.randrange(top))
    do = rng.choice(['crash', 'crash', 'torn', 'err', 'err', 'short']) if cls == 'write' else rng.choice(['crash', 'err', 'err'])
    f = {'proc': name, 'cls': cls, 'nth': nth, 'do': do}
    if do == 'err':
        f['err'] = rng.choice({'write': ['ENOSPC', 'EIO', 'EINTR', 'EDQUOT'], 'open': ['EACCES', 'EMFILE', 'ENOSPC'],
                               'mkdir': ['EACCES', 'ENOSPC'], 'rename': ['EACCES', 'EIO', 'ENOSPC'],
                               'resize': ['ENOSPC', 'EIO'], 'close': ['EIO', 'ENOSPC']}.get(cls, ['EIO', 'EACCES']))
        lasting = .7 if cls in ('write', 'resize') and f['err'] in ('ENOSPC', 'EDQUOT') else \
            .4 if cls in ('rename', 'open', 'mkdir') else 0
        if rng.random() < lasting:
            f['stay'] = True
    if do in ('torn', 'short'):
        f['frac'] = round(rng.random(), 3)
    return f


def generate(rng, tier):
    base = P.gen_cfg(rng, max_n=8, cells=0)
    full = rng.random() < .15
    jobs = []
    for n in range(rng.choice([1, 1, 2, 2, 3])):
        name = 'j%d' % n
        c = P.gen_cfg(rng, max_n=8, frames=base['frames'])
        specs = None
        if full:
            c, specs = J.gen(rng, files=rng.choice([1, 2]), frames=base['frames'], at=base['t'], max_n=7)
        c.update({k: base[k] for k in ('t', 'frame_s', 'frames')})
        faults = []
        if rng.random() < (.9 if n or rng.random() < .6 else .3):
            faults = [gen_fault(rng, name) for _ in range(rng.choice([1, 1, 1, 2, 4]))]
        jobs.append({'name': name, 'cfg': c, 'scaled': rng.random() < .7, 'faults': faults, 'specs': specs})
    return {'jobs': jobs, 'dir': rng.choice(DIRS), 'std': rng.random() < .3, 'last': rng.random() < .6,
            'clock': rng.randrange(1500000000, 1700000000) + .25, 'tick': rng.choice([0, .001, .1])}


def expected(j):
    """What each frame of a job should hold, and how it is stored."""
    if j['specs'] is None:
        return [P.expected(j['cfg'], k, j['scaled']) for k in range(j['cfg']['frames'])]
    return [dict(r, scaled=j['scaled']) for r in J.reference(j['cfg'], j['specs'])]


def judge(got, exp):
    return J.differ(got, exp, exp['scaled']) if 'slack' in exp else P.differ(got, exp)


def maker(j, template, ctx):
    """What the process of a job does: write a grid, or make it from input files."""
    if j['specs'] is None:
        g = P.make(j['cfg'])
        return lambda: list(g.write_grids(outpath=template, output_kwargs={'scale_and_offset': j['scaled']}))
    src = J.write(j['specs'], ctx.scratch('in-' + j['name']))
    return lambda: J.call(src, j['cfg'], template, scaled=j['scaled']) and None


def watcher(ctx, w, dirs, expect, std):
    """Check the product directories after every call; returns the table of what is there."""
    seen, table = {}, {}

    def look(p, rq, note):
        now = set()
        for d in dirs:
            try:
                names = os.listdir(d)
            except OSError:
                continue
            for n in names:
                key = frame_key(n, std)
                if key is None:
                    continue
                path = os.path.join(d, n)
                now.add(path)
                st = os.stat(path)
                sig = (st.st_ino, st.st_size, st.st_mtime_ns)
                if seen.get(path) == sig:
                    continue
                seen[path] = sig
                ctx.probe('product states examined')
                bad = ('foreign-product', 'not a product of the job')
                try:
                    got = P.read(path)
                    for who, exp in expect(p.name, d, key):
                        bad = judge(got, exp)
                        if not bad:
                            table[path] = who
                            break
                except (P.Partial, OSError) as e:
                    bad = ('unreadable', str(e))
                if bad:
                    raise Violation('partial-product', '%s after %s %s of %s: %s (%s)' % (
                        n if not std else 'product', rq.op, note, p.name, bad[1], bad[0]))
        gone = set(table) - now
        if gone:
            raise Violation('product-lost', '%d product(s) removed by %s' % (len(gone), rq.op))
    return look, table


def frame_key(name, std):
    if std:
        if not P.NAME.match(name):
            return None
        a, b, _ = P.name_times(name)
        return a, b
    m = P.re.match(r'(\d{8}_\d{6})_(\d{6})\.nc$', name)
    return m.groups() if m else None


def want_key(cfg, k, std):
    return P.span(cfg)[k] if std else frame_key(P.exact_name(cfg, k), False)


def execute(sc, ctx):
    w = ctx.world('w', faults=[f for j in sc['jobs'] for f in j['faults']])
    jobs = {j['name']: j for j in sc['jobs']}
    order = [j['name'] for j in sc['jobs']]
    if sc['last'] and sc['jobs']:
        jobs['last'] = dict(sc['jobs'][-1], name='last', faults=[])
        order.append('last')
    if not order:
        return
    template = os.path.join(w.disk, sc['dir'], '{dataset_name}' if sc['std'] else P.T_EXACT)
    cfg0 = jobs[order[0]]['cfg']
    spans = P.span(cfg0)
    dirs = sorted({os.path.join(w.disk, sc['dir']).format(start_time=s, end_time=e).rstrip('/') for s, e in spans})
    cache = {}

    def expect(name, d, key):
        if name not in cache:
            j = jobs[name]
            cache[name] = {want_key(j['cfg'], k, sc['std']): exp
                           for k, exp in enumerate(expected(j))}
        return [(name, cache[name][key])] if key in cache[name] else []

    look, table = watcher(ctx, w, dirs, expect, sc['std'])
    w.on_step = look
    clock = Clock(sc['clock'], sc['tick'])
    for name in order:
        j = jobs[name]
        clock.advance(5.0)
        old = len(table)
        p = w.spawn(name, maker(j, template, ctx), clock=clock)
        before = len(w.fired)
        if not w.run():
            raise Violation('no-progress', name)
        fired = w.fired[before:]
        hard = [f for f in fired if f[3] not in SOFT]
        if p.status == 'ok':
            if j['specs'] is not None:
                p.result = [path for path, who in table.items() if who == name]
                ctx.probe('whole jobs')
            ctx.check(len(p.result) == j['cfg']['frames'], 'wrong-file-list', '%d files' % len(p.result))
            ctx.check(len({os.path.abspath(x) for x in p.result}) == len(p.result), 'same-path-twice')
            for k, path in enumerate(p.result):
                ctx.check(table.get(os.path.abspath(path)) == name, 'reported-but-not-in-place', 'frame %d of %s' % (k, name))
            ctx.probe('job succeeded')
        elif p.status == 'error':
            ctx.check(hard, 'error-without-fault', p.error['where'][-800:])
            ctx.probe('job raised')
        elif p.status == 'signal':
            ctx.check(hard, 'died-without-fault', p.error['text'])
            ctx.probe('library died after injected error')
        elif p.status == 'crashed':
            ctx.probe('job killed')
        else:
            raise Violation('no-progress', '%s: %s' % (name, p.status))
        if fired:
            ctx.nontrivial = True
        for f in fired:
            ctx.state(f[1:], bool(old), p.status)
        ctx.log(name, p.status, sorted(table.values()))
        ctx.sim_seconds += j['cfg']['frames'] * j['cfg']['frame_s']
    ctx.absorb(w)
