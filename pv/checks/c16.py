"""Totality of signature_from_callable and validity of what it returns."""
import collections
import functools
import importlib
import importlib.util
import inspect
import itertools
import operator
import sys
import types
import unittest.mock
import weakref

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter,
                           signature_from_callable)
from pv import names, receivers, stdlib, usercode
from pv.runner import Skip

RULE = ('Every object found in modules and classes of the standard library '
        '(callable or not, as stored and as accessed), every attribute of '
        '~150 objects of various types, and generated objects of 40 kinds '
        '(functions, classes, callable instances, descriptors, wrappers, '
        'partials, mocks, non-callables) with generated damage of what '
        'introspection looks at (names, modules, wrapped objects, '
        'signatures, defaults, code, annotations), also installed in modules '
        'of the standard library under generated names. Non-trivial: '
        'the object is callable or was damaged; distinct by case.')
ASSUMPTIONS = ['exceptions raised by hooks of objects themselves are theirs']


def alternatives(signature):
    return getattr(signature, 'signatures', (signature,))


def validate(signature):
    """Returns description of what is wrong with the signature."""
    if type(signature) not in (PlainSignature, OverloadedSignature):
        return f'result has type {type(signature)}'
    for plain in alternatives(signature):
        if type(plain) is not PlainSignature:
            return f'alternative has type {type(plain)}'
        seen, prior = set(), -1
        for parameter in plain.parameters:
            if type(parameter) not in (OptionalParameter, RequiredParameter):
                return f'parameter has type {type(parameter)}'
            if type(parameter.kind) is not ParameterKind:
                return f'kind is {parameter.kind!r}'
            if not isinstance(parameter.name, str) or parameter.name in seen:
                return f'name is {parameter.name!r}'
            if parameter.kind < prior:
                return 'kinds are not ordered'
            seen.add(parameter.name)
            prior = parameter.kind
        args = [None for parameter in plain.parameters
                if parameter.kind <= 1
                and isinstance(parameter, RequiredParameter)]
        kwargs = {parameter.name: None for parameter in plain.parameters
                  if parameter.kind is ParameterKind.KEYWORD_ONLY
                  and isinstance(parameter, RequiredParameter)}
        if not plain.expects(*args, **kwargs):
            return f'does not expect its own parameters: {plain}'
        if not plain.all_set(*args, **kwargs):
            return f'is not set by its required parameters: {plain}'
        if plain.all_set() and (args or kwargs):
            return f'does not require required parameters: {plain}'
        bound = plain.bind(*args, **kwargs)
        if not bound.all_set():
            return f'is not set after binding of required: {plain}'
        surplus = len([parameter for parameter in plain.parameters
                       if parameter.kind <= 1]) + 1
        if plain.expects(*[None] * surplus) is not any(
                parameter.kind is ParameterKind.VARIADIC_POSITIONAL
                for parameter in plain.parameters):
            return f'surplus arguments are misjudged: {plain}'
    try:
        hash(signature)
    except TypeError as error:
        if 'hashable' not in str(error) and 'hash' not in str(error):
            return f'hashing fails with {error!r}'
    string = str(signature)
    if type(string) is not str or type(repr(signature)) is not str:
        return 'is not printable'
    if not isinstance(signature.expects(), bool):
        return 'expects returns not a bool'
    try:
        unbound = signature.bind()
    except TypeError:
        return 'binding nothing fails'
    if unbound is not signature and str(unbound) != string:
        return 'binding nothing changes signature'
    return None


def decide_object(value):
    try:
        signature = signature_from_callable(value)
    except (TypeError, ValueError) as error:
        try:
            again = signature_from_callable(value)
        except type(error):
            return None
        return f'failed with {error!r}, but then succeeded with {again}'
    # other exceptions are reported by the caller
    problem = validate(signature)
    if problem:
        return problem
    again = signature_from_callable(value)
    # instances of ``dataclasses.InitVar`` are compared by identity
    if (again != signature and not has_unequal(signature)
            and 'InitVar[' not in str(signature)):
        return f'repeated query gives {again}, was {signature}'
    if str(again) != str(signature):
        return f'repeated query gives {again}, was {signature}'
    return None


def has_unequal(signature):
    for plain in alternatives(signature):
        for parameter in plain.parameters:
            if (isinstance(parameter, OptionalParameter)
                    and parameter.has_default):
                try:
                    if not parameter.default == parameter.default:
                        return True
                except Exception:
                    return True
                if parameter.default is not parameter.default:
                    return True
    return signature != signature


def decide_stdlib(path):
    try:
        value = stdlib.resolve(path)
    except (AttributeError, KeyError, ImportError):
        raise Skip
    return decide_object(value)


_receivers = None


def get_receiver(name):
    global _receivers
    if _receivers is None:
        _receivers = receivers.create()
    return _receivers[name]


def decide_attribute(case):
    object_name, attribute = case
    receiver = get_receiver(object_name)
    if attribute is None:
        return decide_object(receiver)
    try:
        value = getattr(receiver, attribute)
    except Exception:
        raise Skip
    return decide_object(value)


# hostile objects
def _function(a, b: int = 1, *args, c='x', **kwargs) -> str:
    pass


_kept = collections.deque(maxlen=10)


def _keep(value):
    _kept.append(value)
    return value


class _Callable:
    def __call__(self, x, y=1):
        pass

    def method(self, x):
        pass

    @classmethod
    def class_method(cls, x):
        pass

    @staticmethod
    def static_method(x):
        pass


def _fresh_function():
    return types.FunctionType(_function.__code__, {'__name__': 'pv_module'},
                              'function', (1,))


def _fresh_class(**namespace):
    return type('Class', (), {'__init__': lambda self, x, y=2: None,
                              '__module__': 'pv_module', **namespace})


class _Meta(type):
    def __call__(cls, z):
        pass


class _Slotted:
    __slots__ = 'slot',

    def __init__(self, x):
        pass


class _LyingFunction:
    """Pretends to be a function."""

    @property
    def __class__(self):
        return types.FunctionType


class _LyingClass:
    @property
    def __class__(self):
        return type


class _LyingBuiltin:
    @property
    def __class__(self):
        return types.BuiltinFunctionType


class _Everything:
    """Has any attribute."""

    def __getattr__(self, name):
        return None

    def __call__(self):
        pass


class _Dict(dict):
    pass


def _module_function():
    module = types.ModuleType('pv_module')
    return module.__dir__


def _nameless_module_function():
    module = types.ModuleType('pv_module')
    method = module.__dir__
    del module.__dict__['__name__']
    return method


def _specless_module_function():
    module = types.ModuleType('pv_module')
    method = module.__dir__
    del module.__dict__['__spec__']
    return method


def _fresh_module():
    """Own instance of a compiled module."""
    spec = importlib.util.find_spec('_bisect')
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def _function_of_module():
    return _fresh_module().bisect_left


def _function_of_specless_module():
    module = _fresh_module()
    module.__spec__ = None
    return module.bisect_left


KINDS = {
    'function': _fresh_function,
    'lambda': lambda: (lambda x: x),
    'class': _fresh_class,
    'function class': lambda: type('Class', (_Slotted,), {}),
    'metaclass': lambda: type('Meta', (type,), {'__module__': 'pv_module'}),
    'meta class': lambda: _Meta('Class', (), {'__module__': 'pv_module'}),
    'dict subclass': lambda: type('D', (dict,), {'__module__': 'pv_module'}),
    'dict subclass method': lambda: type(
            'D', (dict,), {'__module__': 'pv_module'}
    ).fromkeys,
    'dict subclass instance method': lambda: type('D', (dict,), {})().get,
    'exception': lambda: type('E', (Exception,), {}),
    'callable': _Callable,
    'method': lambda: types.MethodType(_fresh_function(), object()),
    'method of class': lambda: types.MethodType(_fresh_class(), 1),
    'method of builtin': lambda: types.MethodType(len, []),
    'method of partial': lambda: types.MethodType(
            functools.partial(_fresh_function(), 1), 2
    ),
    'method of method': lambda: types.MethodType(
            types.MethodType(_fresh_function(), 1), 2
    ),
    'method of callable': lambda: types.MethodType(_Callable(), 2),
    'class method': lambda: _Callable.class_method,
    'raw class method': lambda: classmethod(_fresh_function()),
    'raw static method': lambda: staticmethod(_fresh_function()),
    'property': lambda: property(_fresh_function()),
    'partial': lambda: functools.partial(_fresh_function(), 1),
    'wrong partial': lambda: functools.partial(_fresh_function(), a=1, b=2,
                                               c=3, d=4),
    'partial of class': lambda: functools.partial(_fresh_class(), 1),
    'partial of callable': lambda: functools.partial(_Callable(), 1),
    'rejecting partial': lambda: functools.partial(len, 1, 2),
    'partial method': lambda: functools.partialmethod(_fresh_function(), 1),
    'lru cache': lambda: functools.lru_cache(_fresh_function()),
    'single dispatch': lambda: functools.singledispatch(_fresh_function()),
    'wraps': lambda: functools.wraps(len)(_fresh_function()),
    'wraps builtin method': lambda: functools.wraps(str.join)(
            _fresh_function()
    ),
    'item getter': lambda: operator.itemgetter(1),
    'weak reference': lambda: weakref.ref(_Callable),
    'proxy': lambda: weakref.proxy(_keep(_fresh_function())),
    'mock': unittest.mock.Mock,
    'magic mock': unittest.mock.MagicMock,
    'autospec': lambda: unittest.mock.create_autospec(_fresh_function()),
    'named tuple': lambda: collections.namedtuple('P', 'x y'),
    'lying function': _LyingFunction,
    'lying class': _LyingClass,
    'lying built-in': _LyingBuiltin,
    'everything': _Everything,
    'module method': _module_function,
    'nameless module method': _nameless_module_function,
    'module without specification method': _specless_module_function,
    'function of module': _function_of_module,
    'function of module without specification': _function_of_specless_module,
    'module': lambda: types.ModuleType('pv_module'),
    'number': lambda: 1,
    'string': lambda: 'print',
    'none': lambda: None,
    'alias': lambda: list[int],
    'typing alias': lambda: names.evaluate('t.List[int]'),
    'type var': lambda: names.evaluate('T'),
    'new type': lambda: names.evaluate('NT'),
    'union': lambda: int | str,
    'generator function': lambda: names.evaluate(
            '(lambda x: (yield x))'
    ),
    'coroutine': receivers._async_generator,
}
ATTRIBUTES = ['__module__', '__name__', '__qualname__', '__wrapped__',
              '__signature__', '__defaults__', '__kwdefaults__', '__code__',
              '__annotations__', '__text_signature__', '__init__', '__new__',
              '__call__', '__objclass__', '__self__', '__spec__',
              '__signature__']
VALUES = {
    'number': lambda value: 5,
    'none': lambda value: None,
    'empty': lambda value: '',
    'dots': lambda value: '..',
    'empty part': lambda value: 'a..b',
    'builtins': lambda value: 'builtins',
    'print': lambda value: 'print',
    'dict.get': lambda value: 'dict.get',
    'json': lambda value: 'json',
    'os': lambda value: 'os',
    'path.f': lambda value: 'path.f',
    'dumps': lambda value: 'dumps',
    'locals': lambda value: 'f.<locals>.g',
    'surrogate': lambda value: '\ud800',
    'itself': lambda value: value,
    'another function': lambda value: _fresh_function(),
    'built-in': lambda value: len,
    'class': lambda value: dict,
    'object': lambda value: object(),
    'dictionary': lambda value: {},
    'names': lambda value: {'a': int, 'return': str, 'unknown': 1},
    'numbers': lambda value: {1: 2},
    'tuple': lambda value: (1, 2, 3, 4, 5, 6, 7),
    'pair': lambda value: (1,),
    'signature': lambda value: inspect.signature(_function),
    'empty signature': lambda value: inspect.Signature(),
    'text signature': lambda value: '(a, /, *b)',
    'broken text signature': lambda value: '(((',
    'code': lambda value: (lambda *, k, **kw: None).__code__,
    'strange code': lambda value: (
        lambda: [x for x in ()]
    ).__code__,
    'property': lambda value: property(lambda self: 1),
    'static method': lambda value: staticmethod(_fresh_function()),
    'class method': lambda value: classmethod(_fresh_function()),
    'partial': lambda value: functools.partial(_fresh_function(), 1),
    'string annotation': lambda value: {'a': 'Unknown', 'return': '1 +'},
    'list': lambda value: [],
    'mock': lambda value: unittest.mock.Mock(),
}
PLACES = [('os', 'pv_new'), ('json', 'pv_new'), ('builtins', 'pv_new'),
          ('re', 'object'), ('os.path', 'pv_new'), ('typing', 'pv_new'),
          ('collections', 'abc'), ('functools', 'str'), ('sys', 'pv_new'),
          ('xml.etree.ElementTree', 'pv_new'), ('asyncio', 'events'),
          ('string', 'whitespace'), ('logging', 'pv_new'),
          ('concurrent.futures', 'thread'), ('importlib', 'abc')]


def decide_hostile(case):
    value = KINDS[case['kind']]()
    for attribute, value_name in case['damage']:
        try:
            setattr(value.__self__
                    if case['kind'].startswith('function of module')
                    else value,
                    attribute, VALUES[value_name](value))
        except Exception:
            # what is not modifiable stays intact
            continue
    place = case.get('place')
    if place is None:
        return guarded(value)
    # objects of the user reachable through the standard library
    module_name, name = place
    qualname = case['qualname']
    module = importlib.import_module(module_name)
    try:
        value.__module__, value.__qualname__ = module_name, qualname
    except Exception:
        raise Skip
    head, _, tail = qualname.partition('.')
    missing = object()
    previous = vars(module).get(head, missing)
    target, attribute = module, head
    if tail:
        holder = types.SimpleNamespace() if case.get('replace') else previous
        if holder is missing:
            raise Skip
        if case.get('replace'):
            setattr(holder, tail, value)
            new = holder
        elif isinstance(holder, types.ModuleType):
            target, attribute = holder, tail
            previous = vars(holder).get(tail, missing)
            new = value
        else:
            raise Skip
    else:
        new = value
    if attribute in CRITICAL:
        raise Skip
    setattr(target, attribute, new)
    try:
        return guarded(value)
    finally:
        if previous is missing:
            delattr(target, attribute)
        else:
            setattr(target, attribute, previous)


# without these nothing works
CRITICAL = {'isinstance', 'path', 'str', 'object', 'type', 'tuple', 'len'}


def guarded(value):
    try:
        return decide_object(value)
    except Exception as error:
        frame = error.__traceback__
        while frame.tb_next is not None:
            frame = frame.tb_next
        file_name = frame.tb_frame.f_code.co_filename
        if file_name == __file__ or file_name.endswith('mock.py'):
            # hooks of objects
            raise Skip
        try:
            inspect.signature(value)
        except type(error):
            # runtime introspection itself is broken by object
            raise Skip
        except Exception:
            pass
        raise


def decide_in_subject(function):
    def decide(case):
        try:
            return function(case)
        except RecursionError as error:
            return f'failed with {error!r}'
    return decide


SUITES = {'stdlib': decide_in_subject(decide_stdlib),
          'attribute': decide_in_subject(decide_attribute),
          'hostile': decide_in_subject(decide_hostile)}


@st.composite
def hostile_cases(draw):
    case = {'kind': draw(st.sampled_from(sorted(KINDS))),
            'damage': draw(st.lists(
                    st.tuples(st.sampled_from(ATTRIBUTES),
                              st.sampled_from(sorted(VALUES))).map(list),
                    max_size=3
            ))}
    if draw(st.integers(0, 3)) == 0:
        module_name, name = draw(st.sampled_from(PLACES))
        case['place'] = [module_name, name]
        case['qualname'] = draw(st.sampled_from(
                [name, name + '.f', 'path.f', 'pv_new', 'pv_new.f', 'object.f', 'int',
                 'dumps', 'chain', 'OrderedDict', 'path.join', 'loads']
        ))
        case['replace'] = draw(st.booleans())
    return case


def run(ctx):
    paths = [path for path, _ in stdlib.objects()]
    step = 4 if ctx.quick else 1
    callables = stdlib.by_path()
    for path in itertools.islice(paths, ctx.seed % step, None, step):
        ctx.check('stdlib', path, callable(callables[path]),
                  label='stdlib ' + type(callables[path]).__name__)
    for object_name in receivers.create():
        receiver = get_receiver(object_name)
        for attribute in [None, *dir(type(receiver))]:
            ctx.check('attribute', [object_name, attribute], True,
                      label='attribute')
    # each damage of each kind alone
    for kind, attribute, value_name in itertools.product(
            sorted(KINDS), dict.fromkeys(ATTRIBUTES), sorted(VALUES)
    ):
        ctx.check('hostile', {'kind': kind,
                              'damage': [[attribute, value_name]]}, True,
                  label='hostile single')
    ctx.search('hostile', hostile_cases(),
               max_examples=4000 if ctx.quick else 150000,
               nontrivial=lambda case: bool(case['damage']
                                            or case.get('place')),
               label=lambda case: 'hostile' + ' installed' * ('place' in case))
