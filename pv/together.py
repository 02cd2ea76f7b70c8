"""
Signatures of the standard library with parts made up by the library
(there are no such objects at runtime): what could be restored when computed
alone should be restored when computed along with others.
"""
import random

from pv import shrinking, stdlib
from pv.checks import c17


def paths():
    """Paths of callables with parts made up by the library."""
    candidates = list(stdlib.callables())
    size = 250
    chunks = [candidates[start:start + size]
              for start in range(0, len(candidates), size)]
    result = []
    for chunk, response in zip(chunks,
                               c17.pool().map([[['queries', *chunk]]
                                               for chunk in chunks])):
        if 'result' not in response:
            continue
        result += [path
                   for path, text in zip(chunk, response['result'][0])
                   if 'paradigm.' in text]
    return result


def decide(case):
    """Decides the last query."""
    expected = c17.baseline(case[-1])
    if expected != 'same':
        return None
    result, error = c17.perform(case)
    if result is None:
        return f'queries failed: {error}'
    if result[-1] != expected:
        return (f'restored when queried alone, after {len(case) - 1} '
                f'other queries: {result[-1][:2000]}')
    return None


def run(ctx, operation):
    candidates = paths()
    random_ = random.Random(ctx.seed)
    histories = [
        [[operation, path]
         for path in random_.sample(candidates,
                                    min(len(candidates),
                                        random_.choice([5, 20, 80])))]
        for _ in range(60 if ctx.quick else 1500)
    ] if candidates else []
    c17.baselines_of([query for history in histories for query in history])
    for history, response in zip(histories, c17.pool().map(histories)):
        if 'result' not in response:
            ctx.fail('together', history, f'queries failed: {response}')
            continue
        for index, (query, result) in enumerate(zip(history,
                                                    response['result'])):
            is_decided = c17.baseline(query) == 'same'
            ctx.count([query], bool(index) and is_decided,
                      label='together', key=repr(history[:index + 1]),
                      sample=history[max(0, index - 5):index + 1])
            if not is_decided or result == 'same' or len(ctx.violations) > 3:
                continue
            case = shrinking.shrink_sequence(
                    [*history[:index], query],
                    lambda candidate: (bool(candidate)
                                       and candidate[-1] == query
                                       and decide(candidate) is not None),
                    keep_last=True, seconds=30
            )
            ctx.fail('together', case,
                     decide(case) or f'unstable, gave {result}')
