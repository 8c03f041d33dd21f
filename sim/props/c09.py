import os

import job as J
import product as P
from core import Violation
from props import c06
from world import Clock

ID = 'C09'
RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('a run counts when at least two jobs were alive at once and the scheduler switched between them in the middle of a job; '
        'distinct by the hash of the interleaved operation trace')
STATES = 'distinct (jobs, shared products, shared directories, outcomes, switch density) tuples'
REAL = ['glmtools.io.imagery', 'glmtools.grid', 'glmtools.io.glm (in whole jobs)', 'xarray', 'netCDF4/HDF5', 'kernel file system', 'processes']
STUB = ['lmatools gridder base class and fixed-grid tables', 'clock', 'choice of the next process to make a file call',
        'process death', 'file call results at injected faults']
ASSUMPTIONS = ['processes interleave at file calls on the shared tree', 'process death, not power loss']
SHRINK = ['jobs', 'moves', 'jobs.*.faults', 'jobs.*.cfg.cells']


def gen_moves(rng, n):
    """[calls, process] pairs."""
    style = rng.choice(['early', 'fine', 'coarse', 'mixed'])
    out = []
    for k in range({'early': 60, 'fine': 400, 'coarse': 25, 'mixed': 90}[style]):
        c = {'early': 1, 'fine': rng.randrange(1, 4), 'coarse': rng.randrange(5, 150)}.get(style, rng.choice([1, 1, 2, 8, 40]))
        out.append([c, rng.randrange(n)])
    return out


def expand(moves):
    out = []
    for c, who in moves:
        # 0 means: stay with the same process
        out += [who + 1] + [0] * (c - 1)
    return out


def generate(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    base = P.gen_cfg(rng, max_n=6, cells=0)
    full = rng.random() < .15
    shared = rng.random() < .5
    jobs = []
    for k in range(n):
        c = P.gen_cfg(rng, max_n=6, frames=rng.choice([1, 1, 2]), cells=rng.choice([2, 5]))
        c['frame_s'] = base['frame_s']
        if shared and rng.random() < .7:
            c['t'] = base['t']
        else:
            c['t'] = base['t'] + k * 7200
        c['bulk'] = None
        specs = None
        if full:
            t, s = c['t'], c['frame_s']
            c, specs = J.gen(rng, files=1, frames=c['frames'], at=t, max_n=6)
            c['frame_s'] = s
        name = 'j%d' % k
        faults = []
        if rng.random() < .3:
            faults = [c06.gen_fault(rng, name) for _ in range(rng.choice([1, 2]))]
        jobs.append({'name': name, 'cfg': c, 'scaled': rng.random() < .7, 'faults': faults, 'specs': specs})
    return {'jobs': jobs, 'dir': rng.choice(['out', 'a/b', 'a/b/c/d', 'y{start_time:%Y}/{start_time:%b/%d}']),
            'std': rng.random() < .4, 'moves': gen_moves(rng, n), 'clock': rng.randrange(1500000000, 1700000000) + .25,
            'tick': rng.choice([0, .001]), 'old': rng.random() < .2}


def execute(sc, ctx):
    w = ctx.world('w', faults=[f for j in sc['jobs'] for f in j['faults']], schedule=expand(sc['moves']))
    jobs = {j['name']: j for j in sc['jobs']}
    template = os.path.join(w.disk, sc['dir'], '{dataset_name}' if sc['std'] else P.T_EXACT)
    dirs, expected = set(), {}
    for n, j in jobs.items():
        for k, ((s, e), exp) in enumerate(zip(P.span(j['cfg']), c06.expected(j))):
            d = os.path.join(w.disk, sc['dir']).format(start_time=s, end_time=e)
            dirs.add(d)
            expected.setdefault((d, c06.want_key(j['cfg'], k, sc['std'])), []).append(
                (n, exp))

    def expect(name, d, key):
        # the job that moved first, then the others that make this product
        return sorted(expected.get((d, key), []), key=lambda x: x[0] != name)

    if sc['old']:
        for d in sorted(dirs):
            os.makedirs(d, exist_ok=True)
    clock = Clock(sc['clock'], sc['tick'])
    procs = {}
    for n, j in jobs.items():
        procs[n] = w.spawn(n, c06.maker(j, template, ctx), clock=clock)
    look, table = c06.watcher(ctx, w, sorted(dirs), expect, sc['std'])
    w.on_step = look
    if not w.run():
        raise Violation('no-progress', '')
    ctx.absorb(w)
    clean = True

    def mine(n):
        """Products there that a whole job should have made, by frame."""
        out = []
        for k, (s, e) in enumerate(P.span(jobs[n]['cfg'])):
            d = os.path.join(w.disk, sc['dir']).format(start_time=s, end_time=e)
            key = c06.want_key(jobs[n]['cfg'], k, sc['std'])
            hit = [f for f in sorted(os.listdir(d)) if c06.frame_key(f, sc['std']) == key] if os.path.isdir(d) else []
            out += [os.path.join(d, f) for f in hit[:1]]
        return out

    for n, p in procs.items():
        hard = [f for f in w.fired if f[0] == n and f[3] not in c06.SOFT]
        clean = clean and not hard
        if p.status == 'ok':
            if jobs[n]['specs'] is not None:
                p.result = mine(n)
                ctx.probe('whole jobs')
            ctx.check(len(p.result) == jobs[n]['cfg']['frames'], 'wrong-file-list', n)
            for path in p.result:
                ctx.check(os.path.abspath(path) in table, 'reported-but-not-in-place', n)
            ctx.probe('job succeeded')
        elif not hard:
            raise Violation('job-failed', '%s without a fault of its own: %s' % (n, (p.error or {}).get('where', p.status)[-1500:]))
        else:
            ctx.probe('job %s' % p.status)
    # every product of a job that ended well is whole and somebody's
    for n, p in procs.items():
        if p.status != 'ok':
            continue
        for k, path in enumerate(p.result):
            key = c06.want_key(jobs[n]['cfg'], k, sc['std'])
            try:
                got = P.read(path)
            except (OSError, P.Partial) as e:
                raise Violation('product-disturbed', '%s frame %d: %s' % (n, k, e))
            bad = [c06.judge(got, exp) for _, exp in expect(n, os.path.dirname(os.path.abspath(path)), key)]
            ctx.check('' in bad, 'product-disturbed', '%s frame %d: %s' % (n, k, bad))
    for f in P.product_files(w.disk):
        path = os.path.join(w.disk, f)
        if path not in table and clean:
            raise Violation('stray-product', f)
    shared = sum(len(v) > 1 for v in expected.values())
    if shared:
        ctx.probe('products written by two jobs', shared)
    ctx.state(len(jobs), shared, len(dirs), sorted(p.status for p in procs.values()), min(w.switches, 60) // 10, sc['std'])
    ctx.sim_seconds += sum(j['cfg']['frames'] * j['cfg']['frame_s'] for j in jobs.values())
