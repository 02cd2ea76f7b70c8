"""Histories of queries and imports in fresh interpreters."""
import atexit
import functools
import random
import re

from pv import fresh, shrinking, stdlib, user_sources

RULE = ('A history is a random sequence of queries of standard library '
        'callables (clustered by module), queries of generated functions, '
        'imports, failing queries (objects which are not callables, queries '
        'made with almost exhausted stack, queries during which a call of '
        'some function of the library fails), garbage collections, '
        'performed in a fresh interpreter right after the import of the '
        'library. Every result should be the one of the same query made '
        'alone in a fresh interpreter. Besides, all of the callables are '
        'queried in a single interpreter in several random orders, answers '
        'should not depend on the order. Non-trivial: query preceded by some '
        'other operation; distinct by query with everything before it.')
ASSUMPTIONS = ['process forked right after the import of the library '
               'is as good as a new one']
DEPTHS = (3, 60)
KINDS = ['interrupt', 'memory', 'recursion']


@functools.lru_cache(maxsize=None)
def pool():
    result = fresh.Pool()
    atexit.register(result.close)
    return result


def perform(operations):
    response = pool().perform(operations)
    if 'result' not in response:
        return None, response
    return response['result'], None


baselines = {}


def baseline(operation):
    key = tuple(operation)
    if key not in baselines:
        result, error = perform([operation])
        baselines[key] = (f'failed: {error}' if result is None
                          else result[0])
    return baselines[key]


def baselines_of(operations):
    missing = list({tuple(operation): None for operation in operations
                    if tuple(operation) not in baselines})
    for key, response in zip(missing,
                             pool().map([[operation]
                                         for operation in missing])):
        baselines[key] = (response['result'][0] if 'result' in response
                          else f'failed: {response}')


QUERIES = {'query', 'user'}


def is_query(operation):
    return operation[0] in QUERIES


def decide_history(case):
    """Decides the last query of the history."""
    *history, target = case
    expected = baseline(target)
    result, error = perform([*history, target])
    if result is None:
        return f'history failed: {error}'
    if result[-1] != expected:
        return (f'alone: {expected[:2000]}\nafter {len(history)} '
                f'operations: {result[-1][:2000]}')
    return None


def decide_twice(path):
    expected = baseline(['query', path])
    result, error = perform([['twice', path]])
    if result is None:
        return f'query failed: {error}'
    if result[0] != expected:
        return f'alone: {expected[:2000]}\nrepeatedly: {result[0][:2000]}'
    return None


SUITES = {'history': decide_history, 'twice': decide_twice}


class Generator:
    def __init__(self, random_):
        self.random = random_
        self.paths = list(stdlib.callables())
        self.by_module = {}
        for path in self.paths:
            self.by_module.setdefault(path.partition(':')[0],
                                      []).append(path)
        self.modules = sorted(self.by_module)

    def operations(self, modules):
        random_ = self.random
        near = random_.choice(self.by_module[random_.choice(modules)])
        choice = random_.random()
        if choice < 0.58:
            return [['query', near]]
        if choice < 0.72:
            return [['query', random_.choice(self.paths)]]
        if choice < 0.80:
            return [['import', random_.choice(self.modules)]]
        if choice < 0.92:
            failing = (['deep', near, random_.randint(*DEPTHS)]
                       if random_.random() < 0.3
                       else ['interrupt', near,
                             int(2 ** random_.uniform(0, 11)),
                             random_.choice(KINDS)])
            return [failing, *([['query', near]] * random_.randint(0, 1))]
        if choice < 0.94:
            return [['fail', random_.randrange(8)]]
        if choice < 0.97:
            return [['collect']]
        return [['user', *user_sources.generate(random_)]]

    def history(self):
        modules = self.random.sample(self.modules, self.random.randint(1, 4))
        result = [operation
                  for _ in range(self.random.randint(8, 80))
                  for operation in self.operations(modules)]
        # the same queries in different circumstances
        queries = list(filter(is_query, result))
        result += self.random.sample(queries, min(10, len(queries)))
        return result


def check_histories(ctx, histories):
    baselines_of([operation for history in histories
                  for operation in history if is_query(operation)])
    for history, response in zip(histories, pool().map(histories)):
        if 'result' not in response:
            ctx.fail('history', history, f'history failed: {response}')
            continue
        for index, (operation, result) in enumerate(
                zip(history, response['result'])
        ):
            if not is_query(operation):
                ctx.label(operation[0])
                continue
            ctx.count([operation], bool(index), label=operation[0],
                      key=repr(history[:index + 1]),
                      sample=history[max(0, index - 5):index + 1])
            if result == baseline(operation):
                continue
            if len(ctx.violations) > 3:
                continue
            case = shrinking.shrink_sequence(
                    [*history[:index], operation],
                    lambda candidate: (bool(candidate)
                                       and candidate[-1] == operation
                                       and decide_history(candidate)
                                       is not None),
                    keep_last=True, seconds=30
            )
            message = decide_history(case)
            ctx.fail('history', case,
                     message or f'unstable, gave {result}')


def check_repeated(ctx, paths):
    baselines_of([['query', path] for path in paths])
    for path, response in zip(paths, pool().map([[['twice', path]]
                                                 for path in paths])):
        result = (response['result'][0] if 'result' in response
                  else f'failed: {response}')
        ctx.count(path, result != 'absent', label='twice',
                  key='twice ' + path)
        if result != baseline(['query', path]):
            message = decide_twice(path)
            ctx.fail('twice', path, message or f'unstable, gave {result}')


def shrink_order(queries):
    """Shortens history of the last query, tries its relatives first."""
    target = queries[-1]

    def fails(candidate):
        return (bool(candidate) and candidate[-1] == target
                and decide_history(candidate) is not None)

    package = re.split('[.:]', target[1])[0]
    related = [query for query in queries
               if re.split('[.:]', query[1])[0] == package]
    return shrinking.shrink_sequence(related if fails(related) else queries,
                                     fails, keep_last=True, seconds=60)


def check_orders(ctx, paths, count):
    orders = [random_.sample(paths, len(paths))
              for random_ in [random.Random(f'{ctx.seed}:{index}')
                                 for index in range(count)]]
    found = {}
    for order, response in zip(orders, pool().map(
            [[['query', path] for path in order] for order in orders],
            timeout=300
    )):
        if 'result' not in response:
            ctx.fail('history', [['query', path] for path in order],
                     f'history failed: {response}')
            continue
        ctx.label('sweep')
        for index, (path, result) in enumerate(zip(order,
                                                   response['result'])):
            ctx.count(path, bool(index), label='query in a sweep',
                      key=f'{order[0]} {path}', sample=path)
            found.setdefault(path, {}).setdefault(result, (order, index))
    for path, results in found.items():
        operation = ['query', path]
        if len(results) == 1 and tuple(operation) not in baselines:
            continue
        for result, (order, index) in results.items():
            if result == baseline(operation) or len(ctx.violations) > 3:
                continue
            case = shrink_order([['query', other]
                                 for other in order[:index + 1]])
            ctx.fail('history', case,
                     decide_history(case) or f'unstable, gave {result}')


def run(ctx):
    generator = Generator(random.Random(ctx.seed))
    count = 240 if ctx.quick else 6000
    while count > 0:
        check_histories(ctx, [generator.history() for _ in range(40)])
        count -= 40
    paths = generator.paths
    check_repeated(ctx, (generator.random.sample(paths, 1500) if ctx.quick
                         else paths))
    check_orders(ctx, paths, 8 if ctx.quick else 48)
