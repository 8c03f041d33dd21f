import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'stubs'))
sys.path.insert(0, '/repo')

import core      # noqa: E402


def zygote():
    import boot
    boot.load()


def all_props():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
                  if f.startswith('c') and f.endswith('.py'))


def main(argv):
    if not argv:
        print('usage: run.sh <property> [tier] | replay <file> | selftest [property ...]')
        return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if argv[0] == 'replay':
        zygote()
        return core.replay(argv[1])
    if argv[0] == 'digests':
        zygote()
        print('DIGESTS ' + json.dumps(core.digests(argv[1], seed, int(argv[2]), int(argv[3]))))
        return 0
    if argv[0] == 'selftest':
        import selftest
        return selftest.main(argv[1:] or all_props())
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    zygote()
    return core.check(argv[0].upper(), tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
