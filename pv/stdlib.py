"""Objects of the standard library found by walking its modules."""
import contextlib
import functools
import importlib
import io
import os
import pkgutil
import sys
import types
import warnings

# with side effects on import
SKIPPED = {'antigravity', 'this', '__main__', 'idlelib', 'test', 'lib2to3',
           'turtledemo', 'ensurepip', 'venv', 'tkinter', 'turtle',
           'xxlimited', 'xxlimited_35'}


@functools.lru_cache(maxsize=None)
def modules_names():
    result = set(sys.stdlib_module_names)
    directory = os.path.dirname(os.__file__)
    stack = [(directory, '')]
    while stack:
        path, prefix = stack.pop()
        for info in pkgutil.iter_modules([path]):
            name = prefix + info.name
            if name not in result and not prefix:
                continue
            if (info.name in ('tests', 'test', '__main__')
                    or name.partition('.')[0] in SKIPPED):
                continue
            result.add(name)
            if info.ispkg:
                stack.append((os.path.join(path, info.name), name + '.'))
    return sorted(name for name in result
                  if name.partition('.')[0] not in SKIPPED
                  and '_test' not in name and 'xxsubtype' not in name)


@functools.lru_cache(maxsize=None)
def modules():
    result = {}
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()
    ), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        # accelerators are not used if they are imported first
        for name in ['asyncio', *modules_names(), 'os.path']:
            try:
                result[name] = importlib.import_module(name)
            except (Exception, SystemExit):
                continue
    return result


def _walk(namespace, module_name, path, visited, depth, result, seen):
    for name, value in list(vars(namespace).items()):
        if isinstance(value, types.ModuleType) or not isinstance(name, str):
            continue
        value_path = f'{path}.{name}' if path else name
        result.append((f'{module_name}:{value_path}', value))
        if isinstance(namespace, type):
            try:
                accessed = getattr(namespace, name)
            except Exception:
                pass
            else:
                if accessed is not value:
                    result.append((f'{module_name}:{value_path}@', accessed))
        if (isinstance(value, type) and value not in visited and depth < 3
                and (module_name, value) not in seen):
            if value.__module__ == module_name or not path:
                if value.__module__ not in modules():
                    pass
                if (value.__module__ != module_name
                        and value.__module__ in modules()
                        and not value.__module__.startswith('_')):
                    # to be visited where it's defined
                    continue
                _walk(value, module_name, value_path, {*visited, value},
                      depth + 1, result, seen)


@functools.lru_cache(maxsize=None)
def objects():
    """Returns list of ``(path, object)``."""
    result = []
    for name, module in modules().items():
        _walk(module, name, '', frozenset(), 0, result, set())
    return result


@functools.lru_cache(maxsize=None)
def by_path():
    return dict(objects())


def resolve(path):
    """Resolves path without walking the whole library."""
    module_name, _, object_path = path.partition(':')
    is_accessed = object_path.endswith('@')
    value = importlib.import_module(module_name)
    *parents, name = object_path.rstrip('@').split('.')
    for part in parents:
        value = (getattr(value, part) if isinstance(value, types.ModuleType)
                 else vars(value)[part])
    if isinstance(value, types.ModuleType) or is_accessed:
        return getattr(value, name)
    return vars(value)[name]


@functools.lru_cache(maxsize=None)
def callables():
    """Distinct callable objects by path."""
    result, seen = {}, {}
    for path, value in objects():
        if not callable(value) or id(value) in seen:
            continue
        seen[id(value)] = value
        result[path] = value
    return result
