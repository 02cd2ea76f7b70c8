"""
Operations performed in fresh interpreters. Depends on as few modules
as possible since what is imported is a part of experiments.
"""
import importlib
import sys
import types
import warnings

from pv import fingerprint


def import_module(name):
    if name == '_asyncio':
        # is not used by the package if imported first
        importlib.import_module('asyncio')
    return importlib.import_module(name)


def resolve(path):
    module_name, _, object_path = path.partition(':')
    is_accessed = object_path.endswith('@')
    value = import_module(module_name)
    *parents, name = object_path.rstrip('@').split('.')
    for part in parents:
        value = (getattr(value, part) if isinstance(value, types.ModuleType)
                 else vars(value)[part])
    if isinstance(value, types.ModuleType) or is_accessed:
        return getattr(value, name)
    return vars(value)[name]


def bad_callables():
    class Weird:
        __module__ = 'os'
        __qualname__ = 'path'

        def __call__(self):
            pass

    return [1, None, 'str', object(), Weird(), types.SimpleNamespace()]


def perform(operations):
    """Returns results of queries (``None`` for other operations)."""
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    return [perform_single(*operation) for operation in operations]


def perform_single(name, *arguments):
    if name == 'query':
        path, = arguments
        return query(path)
    if name == 'queries':
        return [query(path) for path in arguments]
    if name in ('pickled', 'rendered'):
        path, = arguments
        return query_restored(path, {'pickled': pickled,
                                     'rendered': rendered}[name])
    if name == 'twice':
        path, = arguments
        return query_twice(path)
    if name == 'import':
        module_name, = arguments
        try:
            import_module(module_name)
        except (Exception, SystemExit):
            pass
        return None
    if name == 'fail':
        index, = arguments
        values = bad_callables()
        fingerprint.of_result(values[index % len(values)])
        return None
    if name == 'user':
        source, function_name = arguments
        namespace = {'__name__': '__user__'}
        exec(source, namespace)
        return fingerprint.of_result(namespace[function_name])
    if name == 'collect':
        import gc
        gc.collect()
        return None
    if name == 'deep':
        path, depth = arguments
        query_deeply(path, depth)
        return None
    if name == 'interrupt':
        path, count, kind = arguments
        query_interrupted(path, count, kind)
        return None
    if name == 'threads':
        from pv import schedules
        return schedules.perform(*arguments)
    if name == 'processes':
        from pv import children
        return children.perform(*arguments)
    raise ValueError(name)


def query(path):
    try:
        value = resolve(path)
    except (Exception, SystemExit):
        return 'absent'
    return fingerprint.of_result(value)


def query_restored(path, restore):
    """Tells if the signature is restored from what is made of it."""
    from paradigm.base import signature_from_callable
    try:
        signature = signature_from_callable(resolve(path))
    except (Exception, SystemExit):
        return 'absent'
    text = fingerprint.of_signature(signature)
    try:
        restored = restore(signature)
    except Exception as error:
        return f'{type(error).__name__} for {text}'
    restored_text = fingerprint.of_signature(restored)
    if restored_text != text:
        return f'{restored_text} for {text}'
    if not (restored == signature and signature == restored):
        return f'unequal for {text}'
    return 'same'


def pickled(signature):
    import pickle
    return pickle.loads(pickle.dumps(signature))


def rendered(signature):
    from pv import evaluation
    return evaluation.evaluate(repr(signature))


def query_twice(path):
    """Tells what's wrong with repeated query or what it gives."""
    import gc
    from paradigm.base import signature_from_callable
    try:
        value = resolve(path)
    except (Exception, SystemExit):
        return 'absent'
    try:
        first = signature_from_callable(value)
    except (TypeError, ValueError):
        return fingerprint.of_result(value)
    gc.collect()
    second = signature_from_callable(value)
    first_text, second_text = map(fingerprint.of_signature, (first, second))
    if first_text != second_text:
        return f'first time: {first_text}\nsecond time: {second_text}'
    if 'InitVar ' in first_text:
        # compared by identity
        return first_text
    if not (first == second and second == first
            and hash(first) == hash(second)):
        return f'not equal to itself: {first_text}'
    return first_text


def query_deeply(path, depth):
    """Queries with so many frames on the stack that it may fail."""
    try:
        value = resolve(path)
    except (Exception, SystemExit):
        return
    limit = sys.getrecursionlimit()

    def call(count):
        if count:
            call(count - 1)
            return
        from paradigm.base import signature_from_callable
        try:
            signature_from_callable(value)
        except RecursionError:
            raise
        except Exception:
            pass

    import inspect
    sys.setrecursionlimit(len(inspect.stack(0)) + depth + 10)
    try:
        call(0)
    except RecursionError:
        pass
    finally:
        sys.setrecursionlimit(limit)


def query_interrupted(path, count, kind):
    """Queries with a call of some function of the library failing."""
    import paradigm
    from paradigm.base import signature_from_callable
    try:
        value = resolve(path)
    except (Exception, SystemExit):
        return
    directory = paradigm.__path__[0]
    left = count

    def trace(frame, event, argument):
        nonlocal left
        if frame.f_code.co_filename.startswith(directory):
            left -= 1
            if left == 0:
                raise {'recursion': RecursionError, 'memory': MemoryError,
                       'interrupt': KeyboardInterrupt}[kind]

    sys.settrace(trace)
    try:
        signature_from_callable(value)
    except BaseException:
        pass
    finally:
        sys.settrace(None)
