"""
Process-independent descriptions of signatures. Depends on as few modules
as possible since what is imported is a part of experiments.
"""
import re
import types
import typing as t


def of_result(function):
    """Describes signature or error the query ends up with."""
    from paradigm.base import signature_from_callable
    try:
        signature = signature_from_callable(function)
    except (TypeError, ValueError) as error:
        return f'{type(error).__name__}'
    except Exception as error:
        return f'{type(error).__name__}: {clean(str(error))}'
    return of_signature(signature)


def of_signature(signature):
    signatures = getattr(signature, 'signatures', None)
    if signatures is None:
        return plain(signature)
    return ' | '.join(map(plain, signatures))


def plain(signature):
    return '({}) -> {}'.format(', '.join(map(parameter, signature.parameters)),
                               annotation(signature.returns))


def parameter(value):
    result = (f'{int(value.kind)} {value.name}: '
              f'{annotation(value.annotation)}')
    if getattr(value, 'has_default', False):
        result += f' = {clean(repr(value.default))}'
    elif type(value).__name__ == 'OptionalParameter':
        result += ' = ...'
    return result


def annotation(value, depth=0, visited=()):
    if depth > 12 or any(value is other for other in visited):
        return '<...>'
    visited = (*visited, value)

    def nested(other):
        return annotation(other, depth + 1, visited)

    if isinstance(value, (list, tuple)):
        return '[{}]'.format(', '.join(map(nested, value)))
    origin = getattr(value, '__origin__', None)
    if (origin is not None
            and not isinstance(value, type)
            and not hasattr(value, '__bound__')):
        arguments = getattr(value, '__args__', ())
        return '{}<{}>[{}]'.format(type(value).__name__, nested(origin),
                                   ', '.join(map(nested, arguments)))
    if isinstance(value, types.GenericAlias):
        return 'alias<{}>[{}]'.format(nested(value.__origin__),
                                      ', '.join(map(nested, value.__args__)))
    if isinstance(value, types.UnionType):
        return 'union[{}]'.format(', '.join(map(nested, value.__args__)))
    if isinstance(value, type):
        result = f'{value.__module__}.{value.__qualname__}'
        if value.__module__.partition('.')[0] == 'paradigm' and depth < 6:
            annotations = vars(value).get('__annotations__', {})
            result += '<{}>({})'.format(
                    ', '.join(nested(base) for base in value.__bases__),
                    ', '.join([*sorted(name for name in vars(value)
                                       if name not in IGNORED),
                               *(f'{name}: {nested(annotations[name])}'
                                 for name in sorted(annotations))])
            )
        return result
    if hasattr(value, '__constraints__'):
        return '{}({}, {}, [{}], {}{})'.format(
                type(value).__name__, value.__name__, nested(value.__bound__),
                ', '.join(map(nested, value.__constraints__)),
                value.__covariant__, value.__contravariant__
        )
    if isinstance(value, t.ForwardRef):
        return f'ForwardRef({value.__forward_arg__})'
    return f'{type(value).__name__} {clean(repr(value))}'


IGNORED = {'__module__', '__dict__', '__weakref__', '__doc__',
           '__annotations__', '__abstractmethods__', '_abc_impl',
           '__parameters__', '__orig_bases__', '__subclasshook__',
           '__static_attributes__', '__firstlineno__',
           '_is_protocol', '__init__', '_is_runtime_protocol',
           '__protocol_attrs__', '__non_callable_proto_members__',
           '__callable_proto_members_only__'}


def clean(text):
    return re.sub('0x[0-9a-f]+', '0x', text)
