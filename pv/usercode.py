"""
User-defined functions and classes made of JSON-able descriptions.

Parameters are described as in ``specs``: annotations and defaults are sources
to be evaluated in the namespace of ``names`` (``None`` annotation stands
for an absent one). What is expected is derived from descriptions alone.
"""
import sys
import types
import typing as t

from hypothesis import strategies as st
from typing_extensions import Self

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter)

from . import names, specs
from .specs import KO, PK, PO, VK, VP

# module name (``None`` stands for globals without name)
FRESH = 'pv_user_module'
MODULES = [
    FRESH, FRESH, '__main__', None, 'pv_user_package.module',
    'pv_user_package.json', '__specializations', 'not identifier', 'a.b.c',
    # imported modules of the standard library
    'builtins', 'json', 'os', 'collections', 'collections.abc', 'typing',
    'functools', 're', 'types', 'enum', 'abc', 'posixpath', 'os.path', '_io',
    'typing_extensions', 'queue', 'dataclasses', 'inspect', 'asyncio',
    # ones which are not imported
    'tomllib', 'plistlib', 'wave', 'sndhdr', 'nntplib', 'this', 'tkinter',
    'turtle', 'antigravity', 'idlelib', 'xml.dom.minidom', 'lib2to3.refactor',
    'distutils.core', 'winreg', 'msvcrt', 'asyncio.windows_events',
]
# imported lazily by nothing in checks, so that they stay not imported
NAMES = ['f', 'g', 'print', 'sum', 'dict', 'list', 'int', 'type', 'object',
         'dumps', 'loads', 'path', 'join', 'open', 'Queue', 'OrderedDict',
         'Counter', 'partial', 'reduce', 'Enum', 'NamedTuple', 'cast',
         'Protocol', 'Self', 'Any', 'sys', '_T', 'AnyStr', 'T', 'getcwd',
         'startfile', 'QueryValue', 'load', 'parse', 'parseString', 'Tk',
         'setup', 'Wave_read', 'function', 'ellipsis', 'reveal_type',
         'UserDict', 'BaseException', 'super', 'property', 'staticmethod',
         '__init__', '__call__', '__new__', '_private', '\u00e9', 'main',
         'from_callable', 'Queue_getitem__T', 'field', 'signature', 'gather']


class Namespace(dict):
    """Globals of the code with annotations and defaults kept aside."""


class Renderer:
    def __init__(self, *, future=False):
        self.objects, self.future = {}, future
        # name of the class definitions are placed in
        self.class_name = None

    def put(self, prefix, value):
        name = f'{prefix}{len(self.objects)}'
        self.objects[name] = value
        return name

    def parameters(self, parameters, first=None):
        """
        Returns source of the list of parameters and expected objects.
        """
        parts, expected = [], []
        if first is not None:
            parts.append(first)
        seen_star = False
        # the first parameter is positional-or-keyword
        # unless followed by positional-only ones
        slash_at = max([index for index, parameter in enumerate(parameters)
                        if parameter[0] == PO], default=None)
        for index, (kind, name, optionality, annotation,
                    default) in enumerate(parameters):
            if kind == KO and not seen_star:
                parts.append('*')
                seen_star = True
            prefix = {VP: '*', VK: '**'}.get(kind, '')
            if kind == VP:
                seen_star = True
            source = prefix + name
            annotation_object = t.Any
            if annotation is not None:
                annotation_object = names.evaluate(annotation)
                annotation_name = self.put('_pvA', annotation_object)
                source += ': ' + annotation_name
                if self.future:
                    annotation_object = annotation_name
            default_object = None
            if optionality == 1:
                default_object = names.evaluate(default)
                source += ' = ' + self.put('_pvD', default_object)
            parts.append(source)
            expected.append((kind, mangle(self.class_name, name),
                             optionality == 1, annotation_object,
                             default_object))
            if index == slash_at:
                parts.append('/')
        return ', '.join(parts), expected

    def returns(self, returns):
        if returns is None:
            return '', t.Any
        value = names.evaluate(returns)
        name = self.put('_pvR', value)
        return ' -> ' + name, (name if self.future else value)

    def function(self, spec, *, indent='', name=None, first=None,
                 decorator=None, body='pass'):
        """Returns lines and expected signature (without the first)."""
        name = spec['name'] if name is None else name
        if spec.get('lambda'):
            bare = [[kind, parameter, optionality, None, default]
                    for kind, parameter, optionality, _, default
                    in spec['parameters']]
            source, expected = self.parameters(bare, first)
            value = f'lambda {source}: None'
            if decorator:
                value = f'{decorator}({value})'
            return [f'{indent}{name} = {value}'], (expected, t.Any)
        source, expected = self.parameters(spec['parameters'], first)
        returns_source, returns = self.returns(spec.get('returns'))
        lines = [f'{indent}@{decorator}'] if decorator else []
        lines += [f'{indent}{"async " if spec.get("async") else ""}'
                  f'def {name}({source}){returns_source}:',
                  f'{indent}    {body}']
        return lines, (expected, returns)

    def execute(self, lines, module):
        """Executes code as if it belongs to module with given name."""
        if self.future:
            lines = ['from __future__ import annotations', *lines]
        namespace = Namespace(self.objects)
        if module is not None:
            namespace['__name__'] = module
        exec(compile('\n'.join(lines) + '\n', '<pv user code>', 'exec',
                     dont_inherit=True), namespace)
        return namespace


def mangle(class_name, name):
    return (f'_{class_name.lstrip("_")}{name}'
            if (class_name is not None and name.startswith('__')
                and not name.endswith('__'))
            else name)


def compare(signature, expected, *, first=None):
    """
    Compares signature with the expected ``(parameters, returns)``.
    """
    if type(signature) is not PlainSignature:
        return f'signature is not plain: {signature}'
    parameters, returns = expected
    actual = list(signature.parameters)
    if first is not None:
        if not actual:
            return f'there is no parameter "{first}": {signature}'
        head = actual.pop(0)
        if head.name != first:
            return f'first parameter should be "{first}": {signature}'
    if len(actual) != len(parameters):
        return (f'found {len(actual)} parameters, should be '
                f'{[parameter[1] for parameter in parameters]}: {signature}')
    for parameter, (kind, name, has_default, annotation,
                    default) in zip(actual, parameters):
        if parameter.name != name:
            return f'parameter "{name}" is missing: {signature}'
        if parameter.kind is not ParameterKind(kind):
            return (f'kind of "{name}" is {parameter.kind!r}, '
                    f'should be {ParameterKind(kind)!r}')
        optional = has_default or kind in (VP, VK)
        if isinstance(parameter, OptionalParameter) is not optional:
            return f'parameter "{name}" is {type(parameter)}'
        if optional and parameter.has_default is not has_default:
            return f'has_default of "{name}" is {parameter.has_default}'
        if has_default and parameter.default is not default:
            return (f'default of "{name}" is {parameter.default!r}, '
                    f'should be {default!r}')
        if not same_annotation(parameter.annotation, annotation):
            return (f'annotation of "{name}" is {parameter.annotation!r}, '
                    f'should be {annotation!r}')
    if not same_annotation(signature.returns, returns):
        return (f'return annotation is {signature.returns!r}, '
                f'should be {returns!r}')
    return None


def same_annotation(actual, expected):
    return actual is expected or (isinstance(expected, str)
                                  and actual == expected)


ANNOTATIONS = st.sampled_from([
    None, None, 'int', 'str', 'None', 't.Any', 't.List[int]', 'list[str]',
    '"int"', '"Unknown"', 't.Optional[int]', 'int | None', 'T', 'User',
    'User.Nested', 't.Callable[[int], str]', 'te.Literal[1, "a"]', 'Color',
    '...', '1', 'P.args', 'te.Self'
])
DEFAULTS = st.sampled_from([
    'None', '0', '1', '"x"', '()', '[]', '{}', 'object()', 'Color.RED',
    'float("nan")', '...', 'NotImplemented', 'int', 'User', 'lambda: 0',
    'te', 't.List[int]', 'set()', 'User()',
    'Underscored', 't.Any', 'te.Self', 'True', 'False', '-1',
    'Unset()'
])


@st.composite
def functions(draw, *, names_=st.sampled_from(NAMES), taken=(),
              allow_lambda=True, max_size=6, defaults=DEFAULTS):
    parameters = draw(specs.parameters_lists(
            max_size=max_size, annotations=ANNOTATIONS, defaults=defaults,
            bare_optional=False,
            names_=st.sampled_from([name for name in specs.NAMES
                                    if name not in taken])
    ))
    result = {'name': draw(names_), 'parameters': parameters}
    if draw(st.booleans()):
        result['returns'] = draw(ANNOTATIONS)
    if draw(st.integers(0, 5)) == 0:
        result['async'] = True
    elif allow_lambda and draw(st.integers(0, 5)) == 0:
        result['lambda'] = True
    return result
