import argparse
import importlib
import os
import sys
import traceback
import warnings

from pv import build

# work with copies only
STANDALONE = {'C18', 'C19', 'C20'}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('tier', nargs='?',
                        default=os.environ.get('VERIF_TIER') or 'quick',
                        choices=['quick', 'thorough'])
    parser.add_argument('--replay', default=None)
    args = parser.parse_args()
    if not os.environ.get('PV_CHILD'):
        try:
            pycache = (build.WORK / 'pyc'
                       if args.property in STANDALONE
                       else build.ensure())
        except Exception:
            traceback.print_exc()
            print('ERROR: library failed to build')
            return 2
        os.environ.update(build.child_env(pycache=pycache), PV_CHILD='1')
        os.execv(sys.executable, [sys.executable, '-m', 'pv.main',
                                  *sys.argv[1:]])
    sys.path[:] = [path for path in sys.path
                   if path not in ('', str(build.REPO), str(build.VERIF))]
    sys.path[:0] = [str(build.REPO), str(build.VERIF)]
    os.environ.pop('PV_CHILD')
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    from pv import runner
    try:
        module = importlib.import_module('pv.checks.'
                                         + args.property.lower())
        ctx = runner.Context(args.property, args.tier,
                             int(os.environ.get('VERIF_SEED') or '1'), module)
        if args.replay is not None:
            return ctx.replay(args.replay)
        return ctx.run()
    except Exception:
        traceback.print_exc()
        print('ERROR: check failed to run')
        return 2


if __name__ == '__main__':
    status = main()
    sys.stdout.flush()
    sys.stderr.flush()
    # some modules of the standard library leave non-daemon things behind
    os._exit(status)
