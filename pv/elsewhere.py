"""
Process where pickles made by another process (with another randomization
of hashes) are restored and compared with equals defined anew.
"""
import base64
import json
import os
import pickle
import subprocess
import sys


class Elsewhere:
    def __init__(self, seed):
        from . import build
        self.process = subprocess.Popen(
                [sys.executable, '-m', 'pv.elsewhere'],
                env=build.child_env(seed=str(seed),
                                    pycache=sys.pycache_prefix),
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True
        )

    def compare(self, case, pickles):
        self.process.stdin.write(json.dumps(
                [case, [base64.b64encode(content).decode()
                        for content in pickles]]
        ) + '\n')
        self.process.stdin.flush()
        return json.loads(self.process.stdout.readline())


def compare(case, pickles):
    from pv.checks import c06
    original = c06.build(case)
    for index, content in enumerate(pickles):
        try:
            restored = pickle.loads(content)
        except Exception as error:
            return f'restoration of {original!r} elsewhere failed: {error!r}'
        if not (restored == original and original == restored):
            return (f'{restored!r} restored elsewhere (pickle #{index}) is '
                    f'unequal {original!r} defined there')
        try:
            hash(original)
        except TypeError:
            continue
        if (hash(restored) != hash(original)
                or restored not in {original} or original not in {restored}):
            return (f'{restored!r} restored elsewhere (pickle #{index}) is '
                    'not found among equals because of its hash')
    return None


def serve():
    import warnings
    warnings.simplefilter('ignore')
    output = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        case, pickles = json.loads(line)
        print(json.dumps(compare(case, list(map(base64.b64decode, pickles)))),
              file=output, flush=True)


if __name__ == '__main__':
    serve()
