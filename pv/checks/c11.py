"""Signatures of accessed methods against those of functions they run."""
import functools
import inspect
import types
import typing as t

from hypothesis import strategies as st

from paradigm.base import signature_from_callable
from pv import receivers, usercode
from pv.runner import Skip
from pv.specs import PK, PO, VP

RULE = ('User-defined: methods of generated declarations (instance, class and '
        'static, plain, aliased, lambdas, wrapped, private, with positional-'
        'only or variadic receivers) accessed through an instance, class, '
        'subclass, its instance and super(), expected parameters derived from '
        'the description by rules of binding. Built-in and standard library: '
        'every attribute of ~150 objects of various types, of their classes '
        'and of user-defined subclasses, expected is the signature of the '
        'function or descriptor the attribute was made of with the receiver '
        'bound. Non-trivial: receiver is passed implicitly, or access is not '
        'the direct one; distinct by case.')
ASSUMPTIONS = []
ACCESSES = ['instance', 'class', 'subclass', 'subclass instance', 'super',
            'class super', 'method type']


class Base:
    pass


def define(case):
    renderer = usercode.Renderer()
    spec, kind = case['function'], case['kind']
    name = spec['name']
    class_name = renderer.class_name = case.get('class', 'Owner')
    first = {'instance': 'self_', 'class': 'cls_', 'static': None}[kind]
    if case.get('variadic_receiver') and kind != 'static':
        first = None
    decorator = {'instance': None, 'class': 'classmethod_',
                 'static': 'staticmethod_'}[kind]
    lines, expected = renderer.function(spec, indent='    ', first=first,
                                        decorator=decorator)
    attribute = usercode.mangle(class_name, name)
    if case.get('alias'):
        lines.append(f'    {case["alias"]} = {name}')
        attribute = usercode.mangle(class_name, case['alias'])
    renderer.objects.update(classmethod_=classmethod,
                            staticmethod_=staticmethod)
    namespace = renderer.execute(
            [f'class {class_name}:', *lines], case['module']
    )
    return namespace[class_name], attribute, expected, first


def access(cls, attribute, way):
    """Returns accessed object and flag if it is bound to an instance."""
    subclass = types.new_class('Sub', (cls,))
    if way == 'instance':
        return getattr(object.__new__(cls), attribute), True
    if way == 'class':
        return getattr(cls, attribute), False
    if way == 'subclass':
        return getattr(subclass, attribute), False
    if way == 'subclass instance':
        return getattr(object.__new__(subclass), attribute), True
    if way == 'super':
        return getattr(super(subclass, object.__new__(subclass)),
                       attribute), True
    if way == 'class super':
        return getattr(super(subclass, subclass), attribute), False
    function = inspect.getattr_static(cls, attribute)
    function = getattr(function, '__func__', function)
    return types.MethodType(function, object()), None


def decide(case):
    cls, attribute, expected, first = define(case)
    if case['kind'] == 'instance' and not isinstance(
            inspect.getattr_static(cls, attribute), types.FunctionType):
        # implicitly class or static methods, e.g. ``__new__``
        raise Skip
    value, by_instance = access(cls, attribute, case['access'])
    is_bound = (by_instance is None
                or case['kind'] == 'class'
                or case['kind'] == 'instance' and by_instance)
    parameters, returns = expected
    head = None
    if is_bound and (case['kind'] == 'static'
                     or case.get('variadic_receiver')):
        # receiver takes place of the first declared parameter
        kinds = [parameter[0] for parameter in parameters]
        if kinds and kinds[0] in (PO, PK):
            parameters = parameters[1:]
        elif VP not in kinds:
            raise Skip
    elif not is_bound:
        head = first
    signature = signature_from_callable(value)
    if head is not None:
        problem = usercode.compare(signature, (parameters, returns),
                                   first=head)
    else:
        problem = usercode.compare(signature, (parameters, returns))
    if problem:
        return problem
    if isinstance(value, types.MethodType):
        function = signature_from_callable(value.__func__)
        # "NaN"s are not equal to themselves
        if (str(function.bind(value.__self__)) != str(signature)
            if 'nan' in str(signature)
            else function.bind(value.__self__) != signature):
            return (f'signature of the bound method is {signature}, '
                    f'of its function is {function}')
    return None


def attempt(value):
    try:
        return signature_from_callable(value)
    except (TypeError, ValueError) as error:
        return error


def same(left, right):
    if isinstance(left, Exception) or isinstance(right, Exception):
        return isinstance(left, Exception) and isinstance(right, Exception)
    return left == right and str(left) == str(right)


_objects = None


def objects():
    global _objects
    if _objects is None:
        _objects = receivers.create()
    return _objects


SUBCLASSABLE = ['int', 'float', 'complex', 'str', 'bytes', 'bytearray', 'list',
                'tuple', 'dict', 'set', 'frozenset', 'deque', 'OrderedDict',
                'Counter', 'UserDict', 'UserList', 'ChainMap', 'Fraction',
                'Decimal', 'UserString']


def definition(cls, name):
    for base in cls.__mro__:
        if name in vars(base):
            return base, vars(base)[name]
    return None, None


def decide_builtin(case):
    object_name, name, way = case
    receiver = objects()[object_name]
    cls = type(receiver)
    if way == 'class':
        receiver = cls
        if not isinstance(cls, type):
            raise Skip
    elif way == 'subclass':
        receiver = types.new_class('PvSub', (cls,))(receiver)
    elif way == 'super':
        subclass = types.new_class('PvSub', (cls,))
        receiver = super(subclass, subclass(receiver))
    try:
        value = getattr(receiver, name)
    except Exception:
        raise Skip
    owner, raw = definition(cls, name)
    if owner is None:
        raise Skip
    if getattr(value, '__self__', receiver) is not receiver and way not in (
            'subclass', 'super'
    ) and not isinstance(raw, (classmethod, staticmethod,
                               types.ClassMethodDescriptorType)):
        # attribute of the wrapped object
        raise Skip
    if (way == 'instance' and isinstance(receiver, type)
            and definition(receiver, name)[0] is not None):
        # attributes of classes take precedence over ones of metaclasses
        raise Skip
    found = attempt(value)
    if isinstance(raw, (types.MethodDescriptorType,
                        types.WrapperDescriptorType)):
        if way == 'class':
            # metaclasses take precedence
            if value is not raw:
                raise Skip
            return None
        if not isinstance(value, (types.BuiltinFunctionType,
                                  types.MethodWrapperType)):
            raise Skip
        if receiver is None and inspect_says(value, found):
            # "inspect" does not bind methods of ``None``
            raise Skip
        function = attempt(raw)
        expected = (function if isinstance(function, Exception)
                    else function.bind(receiver))
    elif isinstance(raw, types.FunctionType):
        if way == 'class':
            if value is not raw:
                raise Skip
            return None
        if not isinstance(value, types.MethodType):
            raise Skip
        function = attempt(raw)
        expected = (function if isinstance(function, Exception)
                    else function.bind(receiver))
    elif isinstance(raw, classmethod):
        if not isinstance(value, types.MethodType):
            raise Skip
        function = attempt(raw.__func__)
        expected = (function if isinstance(function, Exception)
                    else function.bind(cls))
    elif isinstance(raw, staticmethod):
        expected = attempt(raw.__func__)
    elif isinstance(raw, types.ClassMethodDescriptorType):
        # there is nothing unbound to be asked about
        expected = attempt(raw.__get__(None, owner))
        if (not isinstance(expected, Exception)
                and not isinstance(found, Exception)):
            # of subclasses are not described
            return (None if names_of(found) & names_of(expected)
                    else f'found {found}, of the base it is {expected}')
        return (None if isinstance(expected, Exception)
                else f'found {found!r}, of the base it is {expected}')
    else:
        raise Skip
    if not same(found, expected):
        return (f'found {found if not isinstance(found, Exception) else repr(found)}, '
                f'should be '
                f'{expected if not isinstance(expected, Exception) else repr(expected)}')
    return None


def inspect_says(value, found):
    try:
        parameters = inspect.signature(value).parameters
    except ValueError:
        return isinstance(found, Exception)
    return (hasattr(found, 'parameters')
            and [parameter.name for parameter in found.parameters]
            == list(parameters))


def names_of(signature):
    return {len(plain.parameters)
            for plain in getattr(signature, 'signatures', (signature,))}


SUITES = {'defined': decide, 'builtin': decide_builtin}


@st.composite
def cases(draw):
    case = {'module': draw(st.sampled_from(usercode.MODULES)),
            'kind': draw(st.sampled_from(['instance', 'instance', 'class',
                                          'static'])),
            'access': draw(st.sampled_from(ACCESSES)),
            'function': draw(usercode.functions(taken=('self_', 'cls_'),
                                                max_size=5))}
    if draw(st.booleans()):
        case['function']['name'] = draw(st.sampled_from(
                ['append', 'get', 'keys', 'items', 'join', 'method', '__init__',
                 '__eq__', '__private', '__getitem__', '__add__', 'put',
                 'fromkeys', 'copy', '_make', 'start', 'run', '__iter__']
        ))
    if draw(st.integers(0, 3)) == 0:
        case['alias'] = draw(st.sampled_from(
                ['alias', 'get', 'append', '__add__', '__call__', '__private',
                 'put', '__len__']
        ))
    if draw(st.booleans()):
        case['class'] = draw(st.sampled_from(
                ['list', 'dict', 'Queue', 'OrderedDict', 'Owner', '_Owner',
                 'object', 'str', 'Path', 'Thread', 'Mapping']
        ))
    if draw(st.integers(0, 5)) == 0:
        case['variadic_receiver'] = True
    return case


def run(ctx):
    for object_name, receiver in objects().items():
        for name in dir(type(receiver)):
            ways = ['instance', 'class']
            if object_name in SUBCLASSABLE:
                ways += ['subclass', 'super']
            for way in ways:
                ctx.check('builtin', [object_name, name, way],
                          way != 'class', label='builtin ' + way)
    ctx.search('defined', cases(),
               max_examples=4000 if ctx.quick else 80000,
               nontrivial=lambda case: not (case['kind'] == 'instance'
                                            and case['access'] == 'class'),
               label=lambda case: f'{case["kind"]} by {case["access"]}')
