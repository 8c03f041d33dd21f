"""Determinism: the same runs, twice, with other worker counts and another
hash seed, must take the same steps and end the same way."""
import json
import os
import subprocess
import sys

import core


def digests(prop, seed, n, workers, hashseed):
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_HASHSEED=str(hashseed))
    p = subprocess.run([os.path.join(core.HERE, 'run.sh'), 'digests', prop, str(n), str(workers)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    for line in p.stdout.splitlines():
        if line.startswith('DIGESTS '):
            return json.loads(line[8:])
    print(p.stdout[-3000:])
    raise SystemExit(2)


def main(props):
    n = int(os.environ.get('VERIF_RUNS', '40'))
    bad = 0
    for prop in props:
        for seed in (1, 7):
            a = digests(prop, seed, n, 8, 0)
            b = digests(prop, seed, n, 8, 0)
            c = digests(prop, seed, n, 3, 12345)
            diff = [i for i in a if a[i] != b[i] or a[i] != c[i]]
            print('%s seed %d: %d runs x 3, %d differ' % (prop, seed, len(a), len(diff)), flush=True)
            for i in diff[:3]:
                print('   run %s\n   %s\n   %s\n   %s' % (i, a[i], b[i], c[i]))
            bad += len(diff)
    return 1 if bad else 0
