"""Queries made from several threads in fresh interpreters."""
import random

from pv import shrinking, stdlib
from pv.checks.c17 import baseline, baselines_of, perform, pool

RULE = ('Several threads of a fresh interpreter query random standard '
        'library callables (mostly sharing modules, often the same ones), '
        'either preempted as usual with tiny switch interval or one '
        'at a time with the next one chosen at random at the lines '
        'and calls of the library. Every result should be the one of '
        'the same query made alone in a fresh interpreter. Non-trivial: '
        'at least two threads with queries; distinct by schedule '
        'and queries.')
ASSUMPTIONS = ['process forked right after the import of the library '
               'is as good as a new one',
               'switches at lines and calls of Python code are enough']


def problem_of(case):
    mode, seed, period, *lists = case
    result, error = perform([['threads', *case]])
    if result is None:
        return f'failed: {error}'
    if result[0] == 'hung':
        return 'threads have not finished'
    for paths, fingerprints in zip(lists, result[0]):
        if len(fingerprints) > len(paths):
            return f'thread failed: {fingerprints[-1]}'
        for path, fingerprint in zip(paths, fingerprints):
            expected = baseline(['query', path])
            if fingerprint != expected:
                return (f'{path}\nalone: {expected[:2000]}\n'
                        f'concurrently: {fingerprint[:2000]}')
    return None


def decide_schedule(case):
    # interleaving is not completely determined by the case
    for _ in range(5):
        result = problem_of(case)
        if result is not None:
            return result
    return None


SUITES = {'schedule': decide_schedule}


class Generator:
    def __init__(self, random_):
        self.random = random_
        self.paths = list(stdlib.callables())
        self.by_module = {}
        for path in self.paths:
            self.by_module.setdefault(path.partition(':')[0],
                                      []).append(path)
        self.modules = sorted(self.by_module)

    def case(self):
        random_ = self.random
        modules = random_.sample(self.modules, random_.randint(1, 2))
        pool_ = [random_.choice(self.by_module[random_.choice(modules)])
                 for _ in range(random_.randint(1, 6))]
        if random_.random() < 0.5:
            pool_ += random_.sample(self.paths, random_.randint(1, 4))
        controlled = random_.random() < 0.7
        count = random_.randint(2, 3 if controlled else 6)
        lists = []
        for _ in range(count):
            size = random_.randint(1, min(len(pool_), 4 if controlled else 9))
            lists.append([pool_[0], *random_.sample(pool_, size)]
                         if random_.random() < 0.6
                         else random_.sample(pool_, size))
        return ['controlled' if controlled else 'preemptive',
                random_.randrange(2 ** 32),
                random_.choice([1, 2, 5, 20, 60]), *lists]


def shrink(case):
    mode, seed, period, *lists = case
    flat = [(index, path) for index, paths in enumerate(lists)
            for path in paths]

    def build(flat):
        result = {}
        for index, path in flat:
            result.setdefault(index, []).append(path)
        return [mode, seed, period, *result.values()]

    return build(shrinking.shrink_sequence(
            flat, lambda flat: (len({index for index, _ in flat}) > 1
                                and decide_schedule(build(flat)) is not None),
            seconds=30
    ))


def run(ctx):
    generator = Generator(random.Random(ctx.seed + 21))
    count = 560 if ctx.quick else 12000
    while count > 0:
        count -= 80
        cases = [generator.case() for _ in range(80)]
        baselines_of([['query', path] for case in cases
                      for paths in case[3:] for path in paths])
        for case, response in zip(cases, pool().map([[['threads', *case]]
                                                     for case in cases])):
            ctx.count(case, True, label=case[0])
            ctx.label('queries', sum(map(len, case[3:])))
            if ('result' in response and response['result'][0] == [
                    [baseline(['query', path]) for path in paths]
                    for paths in case[3:]
            ]):
                continue
            if len(ctx.violations) > 3:
                continue
            message = decide_schedule(case)
            if message is None:
                message = f'once gave {str(response)[:2000]}'
            else:
                case = shrink(case)
                message = decide_schedule(case) or message
            ctx.fail('schedule', case, message)
