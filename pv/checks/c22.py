"""Callables typeshed doesn't describe against runtime introspection."""
import functools
import importlib
import inspect
import json
import pkgutil
import types
import warnings

from paradigm.base import signature_from_callable
from pv import declared, stdlib, typeshed
from pv.checks import c09
from pv.introspection import mismatch
from pv.runner import Skip

RULE = ('Functions, methods and classes found walking the importable '
        'standard library which denote nothing declared in typeshed '
        '(according to the type checker) and ones found walking installed '
        'third-party packages, as well as functions generated in modules of '
        'users, are compared with ``inspect.signature``. '
        'Non-trivial: there are parameters or introspection fails; '
        'distinct by object.')
ASSUMPTIONS = [
    '``inspect.signature`` is what runtime introspection reports',
    'mypy reads the stubs it comes with correctly',
]
# ``typing_extensions`` are described by typeshed
PACKAGES = ['hypothesis', 'mypy', 'packaging', 'pathspec', 'pluggy', '_pytest',
            'pytest', 'sortedcontainers', 'execnet', 'iniconfig', 'xdist',
            'setuptools', 'pip', 'librt']


def underlying(value):
    if isinstance(value, types.MethodType):
        return value.__func__
    if isinstance(value, (types.BuiltinFunctionType,
                          types.MethodWrapperType)):
        self, name = value.__self__, value.__name__
        if self is None or isinstance(self, types.ModuleType):
            return value
        result = (declared.raw(self, name) if isinstance(self, type)
                  else None)
        if result is None:
            result = declared.raw(type(self), name)
        if isinstance(result, (staticmethod, classmethod)):
            return result.__func__
        return value if result is None else result
    return value


@functools.lru_cache(maxsize=None)
def described():
    """
    Objects denoted by declarations, variables and aliases included,
    by their identifiers.
    """
    result = {}

    def add(value):
        result[id(value)] = value
        value = underlying(value)
        result[id(value)] = value

    def add_located(module_name, path):
        located = declared.locate(module_name, path)
        if located is None:
            return None
        value, holder = located
        add(value)
        if isinstance(holder, type):
            add(declared.raw(holder, declared.mangle(holder, path[-1])))
        return value

    for module_name, path, node, *_ in typeshed.walk():
        add_located(module_name, path)
        if isinstance(node, typeshed.N.TypeInfo):
            for name, symbol in node.names.items():
                if symbol.plugin_generated or node.is_named_tuple:
                    # e.g. a constructor of data class
                    add_located(module_name, (*path, name))
    for module_name, file in typeshed.files().items():
        for name, symbol in file.names.items():
            value = add_located(module_name, (name,))
            if isinstance(value, type) and not (
                    isinstance(symbol.node, typeshed.N.TypeInfo)
                    and symbol.node.fullname == f'{module_name}.{name}'
            ):
                # what is it depends on the meaning of alias or variable
                for cls in value.__mro__[:-1]:
                    for member_name in vars(cls):
                        add_located(module_name, (name, member_name))
    return result


def is_supported(value):
    return isinstance(value, (type, *declared.CALLABLES_TYPES))


@functools.lru_cache(maxsize=None)
def undescribed():
    known = described()
    return {path: value
            for path, value in stdlib.callables().items()
            if (is_supported(value) and id(value) not in known
                and id(underlying(value)) not in known)}


def modules_of(package_name):
    try:
        package = importlib.import_module(package_name)
    except Exception:
        return
    yield package
    for info in pkgutil.walk_packages(getattr(package, '__path__', []),
                                      package_name + '.',
                                      onerror=lambda name: None):
        if '__main__' in info.name or '.tests' in info.name:
            continue
        try:
            yield importlib.import_module(info.name)
        except (Exception, SystemExit):
            continue


@functools.lru_cache(maxsize=None)
def third_party():
    result, seen = {}, {}

    def walk(namespace, path, module_name):
        for name, value in list(vars(namespace).items()):
            if not isinstance(name, str) or id(value) in seen:
                continue
            if (isinstance(namespace, type)
                    and isinstance(value, (classmethod, staticmethod))):
                value = getattr(namespace, name)
            if not is_supported(value):
                continue
            if (getattr(value, '__module__', None) or '') != module_name:
                continue
            seen[id(value)] = value
            value_path = f'{path}.{name}' if path else name
            result[f'{module_name}:{value_path}'] = value
            if isinstance(value, type) and len(value_path) < 120:
                walk(value, value_path, module_name)

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for package_name in PACKAGES:
            for module in modules_of(package_name):
                walk(module, '', module.__name__)
    return result


def decide_value(value, path):
    try:
        expected = inspect.signature(value)
    except ValueError:
        expected = None
    except Exception:
        # inspection itself is broken
        raise Skip
    try:
        signature = signature_from_callable(value)
    except ValueError:
        if expected is None:
            return []
        reported, problem = 'ValueError', f'inspection gives {expected}'
    else:
        reported = str(signature)
        if expected is None:
            problem = 'inspection gives nothing'
        else:
            problem = mismatch(signature, expected, isinstance(value, type))
            if problem is None:
                return []
            problem += f', inspection gives {expected}'
    return declared.failure(path, reported, problem)


def decide_undescribed(path):
    return decide_value(undescribed()[path], path)


def decide_third_party(path):
    return decide_value(third_party()[path], path)


def decide_generated(case):
    value, _ = c09.define(case)
    return decide_value(value, json.dumps(case, sort_keys=True))


SUITES = {'undescribed': decide_undescribed,
          'third-party': decide_third_party, 'generated': decide_generated}


def is_nontrivial(value):
    try:
        return bool(inspect.signature(value).parameters)
    except Exception:
        return True


def run(ctx):
    for path, value in undescribed().items():
        ctx.check('undescribed', path, is_nontrivial(value),
                  label=type(value).__name__, key=path)
    for path, value in third_party().items():
        ctx.check('third-party', path, is_nontrivial(value),
                  label='third-party ' + type(value).__name__, key=path)
    ctx.search('generated',
               c09.cases().map(lambda case: {**case,
                                             'module': 'pv_user_module'}),
               max_examples=1000 if ctx.quick else 20000,
               nontrivial=lambda case: bool(case['function']['parameters']),
               label=lambda case: 'generated function')
