"""Rebuilding and loading of the caches under generated circumstances."""
import concurrent.futures
import itertools
import os
import random

from pv import packages, shrinking, stdlib

RULE = ('The library is copied without (or with some of) its caches, imported '
        'under generated circumstances (hash seed, order of directories '
        'listings, start method, modules imported before, interpreter flags, '
        'environment, working directory, umask, role of the process: main, '
        'renamed, thread, forked, child/pool/executor worker created by '
        'fork/spawn/forkserver) and queried for random standard library '
        'callables (all of them from time to time). Signatures should be '
        'the ones of the reference copy with loaded caches and contents '
        'of the caches should be the ones of the reference. Non-trivial: '
        'circumstances differ from the ones of the reference; distinct '
        'by circumstances.')
ASSUMPTIONS = ['interpreter flags which change the language (-O, -X dev) '
               'and environment are circumstances, too']
METHODS = ['fork', 'spawn', 'forkserver']
ROLES = ['main', 'renamed', 'thread', 'forked',
         *(f'{role}-{method}' for role in ('process', 'pool', 'executor')
           for method in METHODS)]
FLAGS = [['-O'], ['-X', 'dev'], ['-B'], ['-s'], ['-X', 'utf8=0']]
ENVIRONMENTS = [{'LC_ALL': 'C'}, {'LC_ALL': 'POSIX', 'PYTHONCOERCECLOCALE':
                 '0', 'PYTHONUTF8': '0'}, {'TZ': 'Asia/Tokyo'},
                {'COLUMNS': '20'}, {'HOME': '/nonexistent'}]
state = {}


def reference():
    if 'reference' not in state:
        state['scratch'] = packages.scratch()
        state['directory'] = state['scratch'].__enter__()
        state['reference'] = packages.Reference(state['directory'])
        state['counter'] = itertools.count()
    return state['reference']


def close():
    if 'scratch' in state:
        state.pop('scratch').__exit__(None, None, None)
        state.clear()


def decide_circumstances(case):
    etalon = reference()
    if etalon.error is not None:
        return f'failed to import: {etalon.error}'
    root = etalon.copy(state['directory'] / f'copy-{next(state["counter"])}',
                       with_caches=True)
    try:
        for index, path in enumerate(sorted(etalon.caches)):
            if case['absent'] >> index & 1:
                (root / path).unlink()
        result, error = packages.run(root, case)
        if error is not None:
            return f'failed: {error}'
        problem = packages.difference(
                etalon.expected, result,
                None if case.get('sweep') else case['queries']
        )
        if problem is not None:
            return problem
        if not is_new_interpreter(case):
            return None
        actual = packages.caches(root)
        for path, content in etalon.caches.items():
            if path not in actual:
                return f'{path} is not created'
            if actual[path] != content:
                return (f'{path} differs '
                        + contents_difference(content, actual[path]))
        if set(actual) != set(etalon.caches):
            return f'caches are {sorted(actual)}'
    finally:
        remove(root)
    return None


def is_new_interpreter(case):
    """
    Modules may define things on demand or under ``__debug__``,
    so what is found in them may depend on what was done with them before.
    """
    return not (case.get('imports') or case.get('flags')
                or case.get('method', 'fork') != 'fork'
                or '-' in case.get('role', 'main'))


def contents_difference(first, second):
    for index, (first_line, second_line) in enumerate(itertools.zip_longest(
            first.splitlines(), second.splitlines()
    )):
        if first_line != second_line:
            return f'in line {index + 1}:\n{first_line}\n{second_line}'
    return 'in line separators'


def remove(root):
    import shutil
    shutil.rmtree(root, ignore_errors=True)


SUITES = {'circumstances': decide_circumstances}


def generate(random_, paths, modules, *, cold, sweep):
    result = {'absent': random_.choice([1, 2, 3, 3, 3]) if cold else 0,
              'hash': random_.choice([None, random_.randrange(2 ** 32)])}
    if random_.random() < 0.6:
        result['order'] = random_.randrange(2 ** 32)
    if random_.random() < 0.65:
        result['role'] = random_.choice(ROLES)
    if random_.random() < 0.35:
        result['method'] = random_.choice(METHODS)
    if random_.random() < 0.35:
        result['imports'] = random_.sample(modules, random_.randint(1, 8))
    if random_.random() < 0.2:
        result['flags'] = random_.choice(FLAGS)
    if random_.random() < 0.2:
        result['env'] = random_.choice(ENVIRONMENTS)
    if random_.random() < 0.1:
        result['umask'] = random_.choice([0o077, 0])
    if random_.random() < 0.1:
        result['cwd'] = '/tmp'
    if sweep:
        result['sweep'] = True
    result['queries'] = [] if sweep else random_.sample(paths, 200)
    return result


def shrink(case):
    keys = shrinking.shrink_sequence(
            [key for key in case if key not in ('absent', 'queries')],
            lambda keys: decide_circumstances(
                    {key: case[key] for key in case
                     if key in keys or key in ('absent', 'queries')}
            ) is not None,
            seconds=100
    )
    return {key: case[key] for key in case
            if key in keys or key in ('absent', 'queries')}


def run(ctx):
    random_ = random.Random(ctx.seed + 18)
    try:
        etalon = reference()
        if etalon.error is not None:
            ctx.fail('circumstances', {'absent': 3, 'queries': []},
                     f'failed to import: {etalon.error}')
            return
        paths = sorted(etalon.expected)
        modules = [name for name in stdlib.modules_names()
                   if not name.startswith('_')]
        # every role is played with caches absent
        cases = [{**generate(random_, paths, modules, cold=True, sweep=False),
                  'role': role} for role in ROLES]
        cold, warm, sweeps = (40, 120, 6) if ctx.quick else (1200, 3000, 120)
        cases += [generate(random_, paths, modules, cold=True, sweep=True)
                  for _ in range(sweeps)]
        cases += [generate(random_, paths, modules, cold=True, sweep=False)
                  for _ in range(cold)]
        cases += [generate(random_, paths, modules, cold=False, sweep=False)
                  for _ in range(warm)]
        ctx.notes['queries_known'] = len(paths)
        with concurrent.futures.ThreadPoolExecutor(
                min(8, os.cpu_count() or 1)
        ) as executor:
            for case, message in zip(cases,
                                     executor.map(decide_circumstances,
                                                  cases)):
                ctx.count(case, True,
                          label=(('cold' if case['absent'] else 'warm')
                                 + ' ' + case.get('role', 'main')),
                          sample={key: value for key, value in case.items()
                                  if key != 'queries'})
                if message is None or len(ctx.violations) > 2:
                    continue
                case = shrink(case)
                ctx.fail('circumstances', case,
                         decide_circumstances(case) or message)
    finally:
        close()
