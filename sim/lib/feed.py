"""Faults of the feed that fills a file: record loss, damage and reordering."""
import random
from datetime import datetime, timedelta

import synth as S

LEVELS = ('flashes', 'groups', 'events')


def gen_ops(rng, spec, n=None):
    ops = []
    kinds = rng.sample(['drop', 'burst', 'orphan', 'shuffle', 'cut', 'empty', 'adopt'],
                       rng.choice([1, 2, 3, 4]))
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]) if n is None else n):
        k = rng.choice(kinds)
        lv = rng.choice(LEVELS)
        if k == 'drop':
            ops.append({'op': 'drop', 'level': lv, 'at': rng.random()})
        elif k == 'burst':
            ops.append({'op': 'burst', 'level': lv, 'at': rng.random(), 'n': rng.randrange(2, 8)})
        elif k == 'orphan':
            ops.append({'op': 'orphan', 'level': rng.choice(LEVELS[1:]), 'at': rng.random(),
                        'id': rng.randrange(65000, 65530)})
        elif k == 'adopt':
            ops.append({'op': 'adopt', 'level': rng.choice(LEVELS[1:]), 'at': rng.random(), 'to': rng.random()})
        elif k == 'shuffle':
            ops.append({'op': 'shuffle', 'level': lv, 'seed': rng.randrange(1 << 30)})
        elif k == 'cut':
            ops.append({'op': 'cut', 'level': lv, 'at': rng.random()})
        elif rng.random() < 0.5:
            ops.append({'op': 'empty', 'level': lv})
    return ops


def apply(spec, ops, count=None):
    s = dict(spec, flashes=list(spec['flashes']), groups=list(spec['groups']), events=list(spec['events']))
    for o in ops:
        rows = s[o['level']]
        n = len(rows)
        if o['op'] == 'empty':
            s[o['level']] = []
        elif n == 0:
            continue
        elif o['op'] == 'drop':
            i = int(o['at'] * n)
            s[o['level']] = rows[:i] + rows[i + 1:]
        elif o['op'] == 'burst':
            i = int(o['at'] * n)
            s[o['level']] = rows[:i] + rows[i + o['n']:]
        elif o['op'] == 'cut':
            s[o['level']] = rows[:int(o['at'] * n)]
        elif o['op'] == 'orphan':
            i = int(o['at'] * n)
            r = list(rows[i])
            taken = {x[0] for x in (s['flashes'] if o['level'] == 'groups' else s['groups'])}
            new = o['id']
            while new in taken:
                new = (new + 1) % 65534 + 1
            r[1] = new
            s[o['level']] = rows[:i] + [r] + rows[i + 1:]
        elif o['op'] == 'adopt':
            up = s['flashes'] if o['level'] == 'groups' else s['groups']
            if not up:
                continue
            i = int(o['at'] * n)
            r = list(rows[i])
            r[1] = up[int(o['to'] * len(up))][0]
            s[o['level']] = rows[:i] + [r] + rows[i + 1:]
        elif o['op'] == 'shuffle':
            rows = list(rows)
            random.Random(o['seed']).shuffle(rows)
            s[o['level']] = rows
        if count is not None:
            count('feed ' + o['op'])
    return s


def gen_t0(rng, quirks=None):
    """A file start, over both ellipsoids and the autumn 2018 window."""
    q = quirks or {}
    if q.get('unsigned_missing'):
        d = datetime(2018, 10, 15) + timedelta(days=rng.randrange(0, 21), seconds=rng.randrange(0, 4300) * 20)
        if rng.random() < .06:
            # the first and the last file of the window
            d = rng.choice([datetime(2018, 10, 15), datetime(2018, 11, 5, 23, 59, 40)])
    else:
        d = rng.choice([
            datetime(2018, 7, 2, 4, 30) + timedelta(days=rng.randrange(0, 100)),
            datetime(2018, 11, 7) + timedelta(days=rng.randrange(0, 900)),
            datetime(2018, 10, 14, 23, 59, 40), datetime(2018, 10, 15), datetime(2020, 2, 29, 23, 59, 40),
            datetime(2019, 12, 31, 23, 59, 40)])
        d += timedelta(seconds=20 * rng.randrange(0, 3)) if rng.random() < .5 else timedelta(0)
    return S.t0_of(d)
