import os

import netCDF4
import numpy as np
from core import Violation
from props import c06
from world import Clock, mark

ID = 'C14'
RUNS = {'quick': 3000, 'thorough': 15000}
RULE = ('a run counts when the file grew, was cut, or a read or write fault fired; distinct by the hash of the operation trace and of '
        'the number of records that came out')
STATES = 'distinct (records per level, growth points, cut, faults with their place, outcome) tuples'
REAL = ['glmtools.io.convert_lcfa', 'pandas', 'xarray', 'netCDF4/HDF5', 'kernel file system']
STUB = ['the process that writes the text file', 'file call results at injected faults']
ASSUMPTIONS = ['the text file only grows at its end', 'a record is a line that ends with a line feed']
SHRINK = ['lines', 'attempts', 'attempts.*.faults', 'attempts.*.grow']

FLASH = ('flash_id', 'flash_time_offset_of_first_event', 'flash_time_offset_of_last_event', 'flash_lat', 'flash_lon', 'flash_energy',
         'flash_area', 'flash_child_group_count')
GROUP = ('group_id', 'group_time_offset', 'group_lat', 'group_lon', 'group_energy', 'group_area', 'group_parent_flash_id',
         'group_child_event_count')
EVENT = ('event_id', 'event_time_offset', 'x_pixel', 'y_pixel', 'event_lat', 'event_lon', 'event_energy', 'event_parent_group_id')
LEVELS = {'F': FLASH, 'G': GROUP, 'E': EVENT}


def text(row):
    """One record as a line."""
    k, v = row[0], row[1:]
    if k == 'F':
        return ('D Flash #%d Start Time:%.3f End Time:%.3f Centroid Lat:%.3f Centroid Lon:%.3f Energy:%.3e Footprint:%.1f '
                'Child_Count:%d\n' % tuple(v))
    if k == 'G':
        i, t, lat, lon, en, area, par, n = v
        return ('\tD Group #%d Child #0 Start Time:%.3f End Time:%.3f Centroid Lat:%.3f Centroid Lon:%.3f Energy:%.3e Footprint:%.1f '
                'Parent_ID:%d Child_Count:%d\n' % (i, t, t + .002 * (i % 3), lat, lon, en, area, par, n))
    i, t, x, y, lat, lon, en, par = v
    return ('\t\tEvent #%d Child #0 Time:%.3f X_Pixel:%d Y_Pixel:%d Lat:%.3f Lon:%.3f Energy:%.3e Parent_ID:%d\n'
            % (i, t, x, y, lat, lon, en, par))


def gen_lines(rng):
    out = []
    fid, gid, eid = (rng.choice([0, 0, 3, 120, 70000]) for _ in range(3))
    t = rng.choice([0., 543398228., 543398228.]) + rng.randrange(0, 10 ** rng.choice([1, 7]))
    for _ in range(rng.choice([1, 2, 3, 6, 12])):
        n = rng.randrange(1, 5)
        out.append(['F', fid, t, t + .3, round(rng.uniform(-50, 50), 3), round(rng.uniform(-120, -30), 3),
                    float('%.3e' % (rng.uniform(1, 9) * 1e-14)), round(rng.uniform(60, 9000), 1), n])
        for _ in range(n):
            m = rng.randrange(1, 6)
            out.append(['G', gid, round(t + rng.random(), 3), round(rng.uniform(-50, 50), 3), round(rng.uniform(-120, -30), 3),
                        float('%.3e' % (rng.uniform(1, 9) * 1e-15)), round(rng.uniform(60, 900), 1), fid, m])
            for _ in range(m):
                out.append(['E', eid, round(t + rng.random(), 3), rng.randrange(1372), rng.randrange(1300), round(rng.uniform(-50, 50), 3),
                            round(rng.uniform(-120, -30), 3), float('%.3e' % (rng.uniform(1, 9) * 1e-15)), gid])
                if rng.random() < .1:
                    # the pixel of an earlier event, at the same time
                    old = rng.choice([r for r in out if r[0] == 'E'])
                    out[-1][2:7] = old[2:7]
                    if rng.random() < .3:
                        out[-1][7] = old[7]
                eid += rng.choice([1, 1, 2])
            gid += rng.choice([1, 1, 2])
        fid += rng.choice([1, 1, 3])
        t += 1
    return out


def generate(rng, tier):
    lines = gen_lines(rng)
    attempts = []
    for _ in range(rng.choice([1, 2, 3])):
        a = {'start': 1.0, 'bytes': rng.random() < .35, 'grow': [], 'faults': [], 'how': rng.choice(['main', 'parse'])}
        if rng.random() < .75:
            a['start'] = round(rng.random(), 4)
            a['grow'] = sorted([rng.randrange(0, 9), round(rng.random(), 4)] for _ in range(rng.choice([0, 1, 2, 3])))
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2])):
                if rng.random() < .7:
                    f = {'cls': rng.choice(['read', 'read', 'read', 'open', 'stat', 'close']), 'nth': rng.randrange(5), 'do': 'err'}
                    if f['cls'] == 'read' and rng.random() < .6:
                        f.update(**rng.choice([dict(do='short', frac=round(rng.random(), 3)), dict(err='EINTR')]))
                    else:
                        f['err'] = rng.choice(['EIO', 'EACCES'])
                    f['proc'] = 'c'
                else:
                    f = c06.gen_fault(rng, 'c')
                    if f['do'] in ('crash', 'torn'):
                        f.update(do='err', err='ENOSPC')
                    f.pop('stay', None)
                a['faults'].append(f)
        attempts.append(a)
    return {'lines': lines, 'attempts': attempts}


def columns(ds):
    """Plain columns of a dataset (xarray)."""
    return {c: np.array(ds[c].data) for cols in LEVELS.values() for c in cols}


def convert(how, src, dst):
    from glmtools.io import convert_lcfa as C
    if how == 'main':
        C.main(src, dst)
        return None
    return columns(C.merge_dataframes_to_xarray(*C.parse_LCFA_ASCII(src)))


def load(path):
    """A saved dataset, read with another library."""
    ds = netCDF4.Dataset('x', memory=open(path, 'rb').read())
    out = {c: np.array(np.ma.filled(ds.variables[c][...].astype('f8'), np.nan)) for cols in LEVELS.values() for c in cols if c in ds.variables}
    ds.close()
    return out


def differ(got, rows):
    for k, cols in LEVELS.items():
        mine = [r[1:] for r in rows if r[0] == k]
        for i, c in enumerate(cols):
            if c not in got:
                return 'no column ' + c
            a = np.asarray(got[c]).astype('f8')
            w = np.array([r[i] for r in mine], 'f8')
            if a.shape != w.shape:
                return '%s has %d values, expected %d' % (c, a.size, w.size)
            # positions to the digits of the text, times to the millisecond they are kept in
            atol = 0 if c.endswith('energy') else 4e-4 if c.endswith(('lat', 'lon')) else 2e-3
            if len(w) and not np.allclose(a, w, rtol=2e-6 if c.endswith(('energy', 'area')) else 1e-12, atol=atol):
                return c
    return ''


def execute(sc, ctx):
    rows = sc['lines']
    lines = [text(r).encode() for r in rows]
    whole = b''.join(lines)
    ends = np.cumsum([0] + [len(x) for x in lines]).tolist()
    if not rows:
        return
    w = ctx.world('w')
    src = os.path.join(w.disk, 'in.txt')
    todo = sc['attempts'] + [{'start': 1.0, 'bytes': False, 'grow': [], 'faults': [], 'how': h} for h in ('main', 'parse')]

    def point(frac, by_bytes):
        if by_bytes:
            return int(round(frac * len(whole)))
        return ends[int(round(frac * (len(ends) - 1)))]

    for n, a in enumerate(todo):
        name = 'c%d' % n
        dst = os.path.join(w.disk, 'out%d.nc' % n)
        for f in a['faults']:
            w.faults.setdefault((name, f['cls'], f['nth']), dict(f, proc=name))
        have = [point(a['start'], a['bytes'])]
        with open(src, 'wb') as f:
            f.write(whole[:have[0]])
        steps = [0]
        plan = [list(g) for g in a['grow']]
        seen = [have[0]]

        def on_step(p, rq, note):
            while plan and plan[0][0] <= steps[0]:
                frac = plan.pop(0)[1]
                to = max(point(a['start'] + frac * (1 - a['start']), a['bytes']), have[0])
                if to > have[0]:
                    with open(src, 'ab') as f:
                        f.write(whole[have[0]:to])
                    have[0] = to
                    seen.append(to)
                    ctx.fault('file grew while it was read')
            steps[0] += 1
        w.on_step = on_step
        before = len(w.fired)
        p = w.spawn(name, lambda: convert(a['how'], src, dst), clock=Clock(1600000000, 0))
        if not w.run():
            raise Violation('no-progress')
        w.on_step = None
        fired = w.fired[before:]
        hard = [f for f in fired if f[3] not in c06.SOFT]
        torn = [s for s in seen if s not in ends]
        if a['bytes'] and torn:
            ctx.fault('file cut inside a record')
        # a file without any record of a level is not a file of this kind
        thin = any(not all(any(r[0] == k for r in rows[:ends.index(s)]) for k in LEVELS) for s in seen if s in ends)
        if p.status == 'ok':
            got = p.result if a['how'] == 'parse' else load(dst)
            ok = []
            for s in seen:
                full = max(k for k, e in enumerate(ends) if e <= s)
                bad = differ(got, rows[:full])
                # cut inside a record: only an error will do
                ok.append(not bad and s in ends)
            ctx.check(any(ok), 'not-a-snapshot', lambda: 'attempt %d: %s' % (n, bad or 'cut inside a record'))
            ctx.probe('converted')
            ctx.log(n, [len(v) for _, v in sorted(got.items())][:3])
        else:
            ctx.check(p.status in ('error', 'signal') and (hard or torn or thin), 'conversion-raised',
                      lambda: '%s %s' % (p.status, p.error and p.error['where']))
            ctx.probe('conversion raised')
            if a['how'] == 'main' and os.path.exists(dst) and not any(f[1] in ('write', 'resize', 'close', 'open', 'stat', 'lock', 'sync')
                                                                         for f in hard) and not thin:
                # reading failed, so nothing may have been saved
                raise Violation('partial-result', 'attempt %d' % n)
        if fired or len(seen) > 1 or torn:
            ctx.nontrivial = True
        ctx.state(tuple(sum(r[0] == k for r in rows) for k in 'FGE'), tuple(seen), tuple(f[1:] for f in fired), p.status)
    ctx.absorb(w)
    ctx.sim_seconds += 20
