import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props'))

import core  # noqa: E402


def main() -> int:
    cmd, *rest = sys.argv[1:]
    if cmd == 'worker':
        core.worker_main(rest[0], json.loads(rest[1]))
        return 0
    if cmd == 'solo':
        import pickle
        mod = core.load(rest[0], json.loads(rest[1]))
        res = mod.solo(sys.stdin.read())
        sys.stdout.buffer.write(pickle.dumps(res))
        return 0
    if cmd == 'replay':
        return core.replay(rest[0])
    if cmd == 'check':
        tier = rest[1] if len(rest) > 1 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        return core.check(rest[0], tier, seed)
    print(__doc__ or 'usage: main.py check|replay|worker', file=sys.stderr)
    return 2


if __name__ == '__main__':
    try:
        rc = main()
    except core.build.BuildError as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
