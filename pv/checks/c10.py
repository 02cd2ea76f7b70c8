"""Signatures of user-defined classes against their descriptions."""
import collections
import dataclasses
import inspect
import itertools
import typing as t

from hypothesis import strategies as st
from typing_extensions import Self

from paradigm.base import signature_from_callable
from pv import names, usercode
from pv.checks.c09 import known_paths
from pv.runner import Skip
from pv.specs import KO, PK, PO, VK, VP

RULE = ('Hierarchies of up to five generated classes (multiple inheritance, '
        'own or inherited __init__, __new__, both, metaclass __call__, '
        'dataclasses, NamedTuple, slots, generics, protocols, exceptions and '
        'built-in bases) with names of built-ins and of standard library '
        'classes, nested or local, in modules with usual and with foreign '
        'names; a batch crosses qualified paths of standard library classes '
        'with a user class carrying it. Oracle: rules of Python selecting '
        'constructor applied to the description. Non-trivial: constructor '
        'with parameters, or inherited, or foreign name; distinct by case.')
ASSUMPTIONS = ['modules which replace standard library ones in sys.modules '
               'are out of scope']

CLASS_NAMES = ['A', 'B', 'C', 'int', 'dict', 'str', 'object', 'type', 'Path',
               'Queue', 'OrderedDict', 'Counter', 'date', 'Enum', 'Thread',
               'Exception', 'property', 'slice', 'partial', 'Random', 'super',
               'JSONEncoder', 'Popen', 'Tk', 'Wave_read', 'NamedTuple',
               'Protocol', 'socket', 'deque', 'range', 'UserDict', 'ABC']
BUILTIN_BASES = ['object', 'Exception', 'list', 'dict', 'int', 'str',
                 'collections.OrderedDict', 'collections.abc.Sized',
                 't.Generic[T]']


def render(case):
    """Returns value of the last class and its expected signature."""
    renderer = usercode.Renderer(future=case.get('future', False))
    lines, expectations = [], {}
    metaclass = case.get('metaclass')
    if metaclass is not None:
        renderer.class_name = 'Meta_'
        function_lines, expected = renderer.function(
                {**metaclass, 'returns': None}, indent='    ',
                name='__call__', first='cls_'
        )
        lines += ['class Meta_(type_):', *function_lines]
        metaclass_expected = expected[0]
    for index, description in enumerate(case['classes']):
        variable = f'class{index}_'
        renderer.class_name = name = description['name']
        bases = [f'class{base}_' for base in description['bases']
                 if base < index]
        own = {}
        body = []
        kind = description['kind']
        indent = '    '
        decorator = []
        if kind == 'dataclass':
            decorator = ['@dataclasses_.dataclass']
        for method in ('new', 'init'):
            if method in description:
                spec = description[method]
                function_lines, expected = renderer.function(
                        {**spec, 'async': False, 'lambda': False},
                        indent=indent, name=f'__{method}__',
                        first='cls_' if method == 'new' else 'self_'
                )
                body += function_lines
                own[method] = expected[0]
        if kind in ('dataclass', 'namedtuple'):
            fields = []
            for field_kind, field, optionality, annotation, default in (
                    description['fields']
            ):
                annotation_object = names.evaluate(annotation or 'int')
                annotation_name = renderer.put('_pvA', annotation_object)
                line = f'{indent}{field}: {annotation_name}'
                default_object = None
                if optionality == 1:
                    default_object = names.evaluate(default)
                    line += ' = ' + renderer.put('_pvD', default_object)
                body.append(line)
                fields.append((PK, usercode.mangle(name, field),
                               optionality == 1,
                               annotation_name if renderer.future
                               else annotation_object, default_object))
            own['fields'] = fields
        if kind == 'namedtuple':
            bases = ['NamedTuple_']
        elif kind == 'builtin':
            bases = [renderer.put('_pvB', names.evaluate(
                    description['builtin']
            ))]
        elif kind == 'metaclass' and metaclass is not None:
            bases.append('metaclass=Meta_')
        if description.get('slots') and kind == 'plain':
            body.append(f'{indent}__slots__ = ()')
        body = body or [f'{indent}pass']
        lines += [*decorator, f'class {name}({", ".join(bases)}):', *body,
                  f'{variable} = {name}']
        expectations[variable] = own, kind
        # names of classes may shadow built-ins used by the code
        lines.append(f'del {name}')
    renderer.objects.update(NamedTuple_=t.NamedTuple,
                            dataclasses_=dataclasses, type_=type)
    wrapper = case.get('wrapper')
    target = f'class{len(case["classes"]) - 1}_'
    names_ = list(expectations)
    if wrapper == 'local':
        lines = ['def wrapper_():',
                 *['    ' + line for line in lines],
                 f'    return {", ".join(names_)},']
    elif wrapper == 'nested':
        lines = ['class Wrapper_:', *['    ' + line for line in lines]]
    try:
        namespace = renderer.execute(lines, case['module'])
        if wrapper == 'local':
            values = dict(zip(names_, namespace['wrapper_']()))
    except TypeError as error:
        # inconsistent MRO, fields without defaults following ones with, ...
        raise Skip from error
    except (ValueError, AttributeError) as error:
        raise Skip from error
    if wrapper == 'nested':
        values = {name: getattr(namespace['Wrapper_'], name)
                  for name in names_}
    elif wrapper is None:
        values = {name: namespace[name] for name in names_}
    value = values[target]
    for name, (own, kind) in expectations.items():
        if kind == 'namedtuple':
            # annotations are converted
            annotations = values[name].__new__.__annotations__
            own['fields'] = [(*head, annotations[head[1]], default)
                             for *head, _, default in own['fields']]
    by_class = {values[name]: (own, kind)
                for name, (own, kind) in expectations.items()}
    return value, by_class, (metaclass_expected
                             if metaclass is not None else None)


def dataclass_fields(value, by_class):
    """Fields are collected in reverse MRO, keep position of the first."""
    fields = {}
    for cls in reversed(value.__mro__):
        own, kind = by_class.get(cls, ({}, None))
        if kind == 'dataclass':
            for field in own['fields']:
                if not field[2]:
                    # attributes of bases serve as defaults
                    field = next(
                            ((*field[:2], True, field[3],
                              vars(base)[field[1]])
                             for base in cls.__mro__[1:]
                             if field[1] in vars(base)), field
                    )
                fields[field[1]] = field
    return list(fields.values())


def expect(value, by_class, metaclass_expected):
    """Returns expected parameters or ``None`` if they're not described."""
    if metaclass_expected is not None and type(value) is not type and any(
            cls.__name__ == 'Meta_' for cls in type(value).__mro__):
        return metaclass_expected

    def own_new(cls):
        own, kind = by_class.get(cls, ({}, None))
        if kind == 'namedtuple':
            return own['fields']
        return own.get('new')

    def own_init(cls):
        own, kind = by_class.get(cls, ({}, None))
        if 'init' in own:
            return own['init']
        if kind == 'dataclass':
            return dataclass_fields(cls, by_class)
        return None

    def resolve(name, search):
        """What is found along MRO if it's written by user."""
        for cls in value.__mro__:
            if name in vars(cls):
                return search(cls)
        return None

    new, init = resolve('__new__', own_new), resolve('__init__', own_init)
    for cls in value.__mro__:
        if new is not None and '__new__' in vars(cls):
            return new
        if init is not None and '__init__' in vars(cls):
            return init
    return None


def decide(case):
    value, by_class, metaclass_expected = render(case)
    expected = expect(value, by_class, metaclass_expected)
    try:
        raw = inspect.signature(value)
    except ValueError:
        raw = None
    if expected is None:
        # built-in constructor (if any), introspection is the only source
        if raw is None:
            try:
                signature = signature_from_callable(value)
            except (TypeError, ValueError):
                return None
            return f'found signature: {signature}'
        expected = from_raw(raw)
    else:
        own_names = [parameter[1] for parameter in expected]
        # description should agree with Python itself
        assert raw is not None, case
        assert list(raw.parameters) == own_names, (case, raw, own_names)
    signature = signature_from_callable(value)
    problem = usercode.compare(signature, (expected, Self))
    if problem:
        return problem
    return usercode.compare(signature_from_callable(value), (expected, Self))


def from_raw(raw):
    empty = inspect.Parameter.empty
    return [(int(parameter.kind), parameter.name,
             parameter.default is not empty,
             t.Any if parameter.annotation is empty else parameter.annotation,
             parameter.default)
            for parameter in raw.parameters.values()]


def decide_disguised(case):
    """User class carrying qualified path of something else."""
    module, path = case
    renderer = usercode.Renderer()
    lines, expected = renderer.function(
            {'name': 'f', 'parameters': [[0, 'pv_x', 0, None, None],
                                         [3, 'pv_y', 1, 'int', '1']]},
            indent='    ', name='__init__', first='self'
    )
    value = renderer.execute(['class A:', *lines], module)['A']
    value.__name__, value.__qualname__ = path.rsplit('.', 1)[-1], path
    return usercode.compare(signature_from_callable(value),
                            (expected[0], Self))


SUITES = {'defined': decide, 'disguised': decide_disguised}


@st.composite
def cases(draw):
    classes = []
    function = usercode.functions(allow_lambda=False, max_size=4,
                                  taken=('self_', 'cls_'))
    for index in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['plain'] * 6 + ['dataclass', 'dataclass',
                                                     'namedtuple', 'builtin',
                                                     'metaclass']))
        description = {'name': draw(st.sampled_from(CLASS_NAMES)),
                       'kind': kind,
                       'bases': sorted(
                               draw(st.lists(st.integers(0, index - 1),
                                             max_size=2, unique=True)),
                               reverse=True
                       ) if index else []}
        if kind in ('dataclass', 'namedtuple'):
            fields = draw(usercode.functions(max_size=4))['parameters']
            description['fields'] = sorted(
                    [[kind_, name, optionality, annotation,
                      default if default in ('None', '0', '1', '"x"', '()')
                      else 'None' if optionality == 1 else None]
                     for kind_, name, optionality, annotation, default
                     in fields if kind_ not in (VP, VK)
                     and (kind == 'dataclass' or not name.startswith('_'))],
                    key=lambda field: field[2]
            )
        elif kind == 'builtin':
            description['builtin'] = draw(st.sampled_from(BUILTIN_BASES))
        if kind != 'namedtuple':
            if draw(st.integers(0, 3)) == 0:
                description['new'] = draw(function)
            if draw(st.integers(0, 2)) == 0 and kind != 'dataclass':
                description['init'] = draw(function)
        if draw(st.integers(0, 5)) == 0:
            description['slots'] = True
        classes.append(description)
    case = {'module': draw(st.sampled_from(usercode.MODULES)),
            'classes': classes}
    if any(description['kind'] == 'metaclass' for description in classes):
        case['metaclass'] = draw(function)
    wrapper = draw(st.sampled_from([None, None, 'local', 'nested']))
    if wrapper:
        case['wrapper'] = wrapper
    if draw(st.integers(0, 5)) == 0:
        case['future'] = True
    return case


def run(ctx):
    paths = known_paths()
    step = 3 if ctx.quick else 1
    for module, path in itertools.islice(paths, ctx.seed % step, None, step):
        ctx.check('disguised', [module, path], True, label='disguised')
    ctx.search('defined', cases(),
               max_examples=2500 if ctx.quick else 60000,
               nontrivial=lambda case: (len(case['classes']) > 1
                                        or case['module'] != usercode.FRESH
                                        or 'init' in case['classes'][0]),
               label=lambda case: case['classes'][-1]['kind'])
