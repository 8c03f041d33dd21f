import os
from datetime import datetime, timedelta, timezone

import job as J
import product as P
from core import Violation
from world import Clock, mark

ID = 'C10'
RUNS = {'quick': 700, 'thorough': 9000}
RULE = ('a run counts when the same product was made under at least two settings of clock or time zone; distinct by the hash of the '
        'operation trace and of the creation stamps')
STATES = 'distinct (zone, hour of the UTC day, direction of the jump, tick, kind of job) tuples'
REAL = ['glmtools.io.imagery', 'glmtools.io.glm', 'glmtools.io.mimic_lma', 'glmtools.grid', 'xarray', 'netCDF4/HDF5', 'libc time zone code']
STUB = ['the clock (a page the controller sets)', 'lmatools gridder base class and fixed-grid tables', 'input files are synthetic']
ASSUMPTIONS = ['all readings of the realtime clock go through libc', 'the file system has its own time']
SHRINK = ['runs', 'runs.*.jumps', 'cfg.cells', 'specs', 'specs.*.flashes']

ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CST6CDT,M3.2.0,M11.1.0', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'CHAST-12:45',
         'AAA-14', 'BBB12', 'MST7', 'LMT0:53:28', None]
E0 = datetime(1970, 1, 1)


def gen_now(rng):
    k = rng.random()
    if k < .3:
        # around midnight, the end of the year, a leap day
        d = rng.choice([datetime(2018, 1, 1), datetime(2021, 1, 1), datetime(2020, 2, 29), datetime(2024, 12, 31), datetime(2023, 7, 1)])
        return (d - E0).total_seconds() + rng.choice([-1, 1]) * rng.choice([.4, 1, 59, 1800, 20000])
    if k < .45:
        # around a change of daylight saving time
        d = rng.choice([datetime(2019, 3, 10, 7), datetime(2019, 11, 3, 6), datetime(2019, 9, 28, 14)])
        return (d - E0).total_seconds() + rng.choice([-1, 1]) * rng.choice([.4, 30, 1800, 3601, 7300])
    if k < .55:
        return float(rng.choice([1, 86400, 946684800, 2147483000, 4000000000]))
    return rng.randrange(1200000000, 1900000000) + rng.random()


# hours that a change of daylight saving time leaves out or repeats, as a clock on the wall shows them
GAPS = [('EST5EDT,M3.2.0,M11.1.0', datetime(2019, 3, 10, 2)), ('CST6CDT,M3.2.0,M11.1.0', datetime(2018, 3, 11, 2)),
        ('NZST-12NZDT,M9.5.0,M4.1.0/3', datetime(2018, 9, 30, 2)), ('EST5EDT,M3.2.0,M11.1.0', datetime(2018, 11, 4, 1)),
        ('NZST-12NZDT,M9.5.0,M4.1.0/3', datetime(2019, 4, 7, 2))]


def generate(rng, tier):
    runs = []
    for n in range(rng.choice([2, 2, 3])):
        jumps = []
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            jumps.append([rng.randrange(0, 260), rng.choice([1, -1]) * rng.choice([.5, 1, 61, 3600, 86400, 4e6, 3e7])])
        now = gen_now(rng)
        if any(now + sum(j[1] for j in jumps[:i + 1]) < 10 for i in range(len(jumps))):
            jumps = []
        runs.append({'now': round(now, 3), 'tick': rng.choice([0, 0, 1e-4, .3, 1.7, 61]), 'zone': rng.choice(ZONES), 'jumps': jumps,
                     'gap': rng.choice([None, None, 2.5, 70, 86400, 4e6])})
    at = None
    if rng.random() < .3:
        zone, hour = rng.choice(GAPS)
        at = int((hour - P.EPOCH).total_seconds()) + rng.randrange(-3, 183) * 20
        rng.choice(runs)['zone'] = zone
    full = rng.random() < .3
    if at is None and rng.random() < .1:
        # hours around the change to the second ellipsoid, on a machine that is hours away from UTC
        at = int((datetime(2018, 10, 15) - P.EPOCH).total_seconds()) + rng.randrange(-36, 36) * 1200
        rng.choice(runs)['zone'] = rng.choice(['AAA-14', 'BBB12', 'MST7', 'NZST-12NZDT,M9.5.0,M4.1.0/3'])
        full = True
    sc = {'runs': runs, 'full': full, 'scaled': rng.random() < .6, 'std': rng.random() < .7}
    if full:
        sc['cfg'], sc['specs'] = J.gen(rng, files=rng.choice([1, 2]), frames=rng.choice([1, 2]), at=at)
    else:
        sc['cfg'] = P.gen_cfg(rng, max_n=7)
        if at is not None:
            sc['cfg']['t'] = at
        sc['specs'] = []
    return sc


def execute(sc, ctx):
    cfg = sc['cfg']
    first = None
    files = []
    if sc['full']:
        if not sc['specs']:
            return
        src = J.write(sc['specs'], ctx.scratch('in'))
        want = J.reference(cfg, sc['specs'])
    for n, r in enumerate(sc['runs']):
        w = ctx.world('w%d' % n)
        tail = '{dataset_name}' if sc['std'] else P.T_EXACT
        clock = Clock(r['now'], r['tick'])
        seen, steps = [], [0]
        jumps = {}
        for k, d in r['jumps']:
            jumps[k] = jumps.get(k, 0) + d
        last = [clock.read()[0]]

        def on_step(p, rq, note):
            now = clock.read()[0]
            seen.append((last[0], now))
            d = jumps.pop(steps[0], 0)
            if d:
                clock.advance(d)
                ctx.fault('clock jumped ' + ('ahead' if d > 0 else 'back'))
            last[0] = clock.read()[0]
            steps[0] += 1
        w.on_step = on_step
        split = []

        def on_mark(p, label, value):
            if label != 'again':
                return
            # the second time, later
            seen.append((last[0], clock.read()[0]))
            split.append(len(seen))
            clock.advance(r['gap'])
            last[0] = clock.read()[0]
        w.on_mark = on_mark
        if sc['full']:
            def once(top):
                J.call(src, cfg, os.path.join(top, tail), scaled=sc['scaled'])
                return sorted(os.path.join(top, f) for f in os.listdir(top) if f.endswith('.nc'))
        else:
            g = P.make(cfg)

            def once(top):
                return list(g.write_grids(outpath=os.path.join(top, tail), output_kwargs={'scale_and_offset': sc['scaled']}))

        def work():
            res = [once(w.disk)]
            if r['gap']:
                mark('again')
                res.append(once(os.path.join(w.disk, 'again')))
            return res
        p = w.spawn('j', work, clock=clock, env={'TZ': r['zone']} if r['zone'] else None)
        if not w.run():
            raise Violation('no-progress')
        seen.append((last[0], clock.read()[0]))
        ctx.absorb(w)
        if p.status != 'ok':
            raise Violation('job-raised', '%s %s' % (p.status, p.error and p.error['where']))
        if r['zone'] not in (None, 'UTC0'):
            ctx.fault('machine outside UTC')
        if r['tick']:
            ctx.fault('clock ticked between readings')
        cut = [0] + split + [len(seen)]
        if split:
            ctx.fault('written again later')
        for turn, made_now in enumerate(p.result):
            when = seen[cut[turn]:cut[turn + 1]]
            got = {}
            for f in made_now:
                d = P.read(f)
                key = (str(d['attrs'].get('time_coverage_start')), str(d['attrs'].get('time_coverage_end')))
                ctx.check(key not in got, 'two-products-of-one-frame', key)
                got[key] = d
                made = stamp(d['attrs'].get('date_created'))
                ctx.check(made is not None, 'bad-creation-stamp', d['attrs'].get('date_created'))
                sec = (made - E0).total_seconds()
                ctx.check(any(min(a, b) - 1.1 <= sec <= max(a, b) + 1.1 for a, b in when), 'creation-not-utc-now',
                          lambda: 'stamp %s, the clock read %s to %s' % (made, E0 + timedelta(seconds=when[0][0]), E0 + timedelta(seconds=when[-1][1])))
                names = [str(d['attrs'].get('dataset_name'))] + ([os.path.basename(f)] if sc['std'] else [])
                for name in names:
                    a, b, c = P.name_times(name)
                    ctx.check(abs((c - made).total_seconds()) < 1.01, 'creation-times-disagree', '%s is stamped %s' % (name, made))
                    ctx.check((a, b) in P.span(cfg), 'wrong-time-in-name', '%s, frames %s' % (name, P.span(cfg)))
                ctx.log(n, str(made))
            ctx.check(len(got) == cfg['frames'], 'wrong-number-of-products', len(got))
            for k in range(cfg['frames']):
                d = next((d for d in got.values() if P.stamp(d['attrs']['time_coverage_start']) == P.span(cfg)[k][0]), None)
                ctx.check(d is not None, 'frame-missing', k)
                bad = J.differ(d, want[k], sc['scaled']) if sc['full'] else P.differ(d, P.expected(cfg, k, sc['scaled']))
                if bad:
                    ctx.fail(*bad)
                ctx.probe('products compared')
            if first is None:
                first = got
            else:
                for key, d in got.items():
                    bad = P.same(first[key], d, P.CREATION) if key in first else 'no such frame in the first run'
                    ctx.check(not bad, 'clock-changed-content', bad)
                ctx.nontrivial = True
        ctx.state(r['zone'], int(r['now'] % 86400 // 3600), tuple(j[1] > 0 for j in r['jumps'][:2]), r['tick'], sc['full'])
        ctx.sim_seconds += cfg['frames'] * cfg['frame_s'] + sum(abs(j[1]) for j in r['jumps'])
    if len({r['zone'] for r in sc['runs']}) > 1:
        ctx.probe('runs in two zones')


def stamp(s):
    """The creation stamp as naive UTC."""
    try:
        s = str(s)
        t = datetime.fromisoformat(s[:-1] if s.endswith('Z') else s)
    except ValueError:
        return None
    return t.astimezone(timezone.utc).replace(tzinfo=None) if t.tzinfo else t
