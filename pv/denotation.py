"""
Tells if annotation evaluated at runtime denotes the declared type,
with the latter given the way the type checker understands it.
"""
import collections.abc
import dataclasses
import enum
import functools
import types
import typing as t

import mypy.nodes as N
import mypy.types as T
import typing_extensions as te

from . import typeshed

ANY_OBJECTS = (t.Any,)
GUARDS = tuple({t.TypeGuard, te.TypeGuard})
SELVES = tuple({t.Self, te.Self})
BOTTOMS = tuple({t.NoReturn, t.Never, te.Never, te.NoReturn})
BROKEN_ANYS = (T.TypeOfAny.from_error, T.TypeOfAny.from_unimported_type,
               T.TypeOfAny.special_form)


class Mismatch(Exception):
    pass


def variable_name(type_):
    # the one it is defined with instead of the one it is imported as
    return (type_.fullname or type_.name).rpartition('.')[2]


@functools.lru_cache(maxsize=None)
def runtime_class(full_name):
    try:
        result = typeshed.find(full_name)
    except typeshed.Unknown:
        return None
    return base_origin(result)


def base_origin(value):
    origin = t.get_origin(value)
    return value if origin is None else origin


def is_union(value):
    return t.get_origin(value) in (t.Union, types.UnionType)


def alternatives_of(value):
    """Flattens unions & literals."""
    if is_union(value):
        return [alternative for argument in t.get_args(value)
                for alternative in alternatives_of(argument)]
    if t.get_origin(value) in (t.Literal, te.Literal):
        return [('type' if argument is None else 'literal', argument)
                for argument in t.get_args(value)]
    if is_recursion(value):
        return [value]
    if base_origin(value) is type and t.get_args(value):
        argument, = t.get_args(value)
        if is_union(argument):
            # the type checker does the same
            return [alternative for sub_argument in t.get_args(argument)
                    for alternative in alternatives_of(type[sub_argument])]
        if t.get_origin(argument) in (t.Literal, te.Literal):
            return [('type', type[t.Literal[sub_argument]])
                    for sub_argument in t.get_args(argument)]
    return [('type', value)]


def is_recursion(value):
    return isinstance(value, t.ForwardRef)


def declared_alternatives(type_, depth):
    proper = T.get_proper_type(type_)
    if isinstance(proper, T.UnionType):
        return [alternative for item in proper.items
                for alternative in declared_alternatives(item, depth)]
    return [type_]


def is_object(type_):
    proper = T.get_proper_type(type_)
    return (isinstance(proper, T.Instance)
            and proper.type.fullname == 'builtins.object')


def is_recursive(type_):
    return isinstance(type_, T.TypeAliasType) and type_.is_recursive


def matches(type_, value, depth=0):
    if depth > 12:
        return True
    if type_ is None:
        # nothing is declared
        return value is t.Any
    if is_recursion(value):
        # recursive aliases are cut off
        return (is_recursive(type_)
                and type_.alias.name == value.__forward_arg__)
    if isinstance(type_, T.TypeAliasType):
        # e.g. classes from declarations may be functions at runtime
        namesake = runtime_class(type_.alias.fullname)
        if namesake is not None and base_origin(value) is namesake:
            return True
    declared, actual = (declared_alternatives(type_, depth),
                        alternatives_of(value))
    if is_object(type_) and ('type', object) in actual:
        # the type checker simplifies unions in some of the places
        return True
    if len(declared) == 1 and len(actual) == 1:
        return matches_single(declared[0], actual[0], depth)
    return (all(any(matches_single(item, alternative, depth)
                    for alternative in actual) for item in declared)
            and all(any(matches_single(item, alternative, depth)
                        for item in declared) for alternative in actual))


def is_any(type_):
    return isinstance(T.get_proper_type(type_), T.AnyType)


def matches_single(type_, tagged, depth):
    if is_recursion(tagged):
        return (is_recursive(type_)
                and type_.alias.name == tagged.__forward_arg__)
    tag, value = tagged
    type_ = T.get_proper_type(type_)
    if isinstance(type_, T.LiteralType):
        return tag == 'literal' and matches_literal(type_, value)
    if tag == 'literal':
        return False
    return matches_type(type_, value, depth)


def matches_literal(type_, value):
    fallback = type_.fallback.type
    if isinstance(value, enum.Enum):
        return (value.name == type_.value
                and runtime_class(fallback.fullname) is type(value))
    if isinstance(value, bytes):
        return (fallback.fullname == 'builtins.bytes'
                and eval(f"b'{type_.value}'") == value)
    return (fallback.fullname == 'builtins.' + type(value).__name__
            and type_.value == value)


def is_final(type_):
    return (type_.type.is_final if isinstance(type_, T.Instance)
            else isinstance(type_, T.TupleType)
            and type_.partial_fallback.type.is_final)


def matches_type(type_, value, depth):
    if isinstance(type_, T.AnyType):
        # some aliases are beyond the type checker
        return (value is t.Any
                or type_.type_of_any in BROKEN_ANYS)
    if any(value is self for self in SELVES):
        # instances of final classes have no other type
        return (isinstance(type_, T.TypeVarType) and is_self(type_)
                or is_final(type_))
    if value is t.LiteralString or value is te.LiteralString:
        # the type checker doesn't tell it from strings
        return (isinstance(type_, T.Instance)
                and type_.type.fullname == 'builtins.str')
    if isinstance(type_, T.NoneType):
        return value is None or value is type(None)
    if isinstance(type_, T.UninhabitedType):
        return any(value is bottom for bottom in BOTTOMS)
    if isinstance(type_, T.ParamSpecType):
        return matches_param_spec(type_, value, depth)
    if isinstance(type_, T.TypeVarType):
        return matches_type_var(type_, value, depth)
    if isinstance(type_, T.UnpackType):
        return (t.get_origin(value) in (t.Unpack, te.Unpack)
                and matches(type_.type, t.get_args(value)[0], depth + 1)
                or getattr(value, '__unpacked__', False))
    if isinstance(type_, T.TypeVarTupleType):
        return (type(value).__name__ == 'TypeVarTuple'
                and value.__name__ == variable_name(type_))
    if isinstance(type_, T.TypeType):
        if base_origin(value) is not type:
            return False
        arguments = t.get_args(value)
        return (matches(type_.item, arguments[0], depth + 1) if arguments
                else is_any(type_.item))
    if isinstance(type_, T.CallableType):
        return matches_callable(type_, value, depth)
    if isinstance(type_, T.TupleType):
        return matches_tuple(type_, value, depth)
    if isinstance(type_, T.TypedDictType):
        return matches_class(type_.fallback.type, value)
    if isinstance(type_, T.Instance):
        return matches_instance(type_, value, depth)
    raise Mismatch(f'unexpected declared type {type(type_)}')


def matches_param_spec(type_, value, depth):
    flavor = type_.flavor
    if flavor == T.ParamSpecFlavor.BARE:
        return (type(value) is type(te.ParamSpec('_P'))
                and value.__name__ == variable_name(type_))
    expected = (te.ParamSpecArgs if flavor == T.ParamSpecFlavor.ARGS
                else te.ParamSpecKwargs)
    return (isinstance(value, expected)
            and value.__origin__.__name__ == variable_name(type_))


def is_self(type_):
    return (type_.fullname in ('typing.Self', 'typing_extensions.Self',
                               '_typeshed.Self')
            or (type_.name == 'Self' and type_.id.raw_id == 0))


def matches_type_var(type_, value, depth):
    if is_self(type_):
        return any(value is self for self in SELVES)
    if not isinstance(value, t.TypeVar):
        return False
    if value.__name__ != variable_name(type_):
        return False
    variance = (N.COVARIANT if value.__covariant__
                else N.CONTRAVARIANT if value.__contravariant__
                else N.INVARIANT)
    if variance != type_.variance:
        return False
    if len(value.__constraints__) != len(type_.values):
        return False
    # order is not the same e.g. for ``typing.AnyStr``
    if not (all(any(matches(item, constraint, depth + 1)
                    for constraint in value.__constraints__)
                for item in type_.values)
            and all(any(matches(item, constraint, depth + 1)
                        for item in type_.values)
                    for constraint in value.__constraints__)):
        return False
    bound = T.get_proper_type(type_.upper_bound)
    if value.__bound__ is None:
        return (bool(type_.values)
                or isinstance(bound, T.Instance)
                and bound.type.fullname == 'builtins.object')
    return matches(bound, value.__bound__, depth + 2)


def matches_callable(type_, value, depth):
    if type_.is_type_obj():
        raise Mismatch('unexpected class object')
    if base_origin(value) is not collections.abc.Callable:
        return False
    arguments = t.get_args(value)
    if not arguments:
        return type_.is_ellipsis_args and is_any(type_.ret_type)
    parameters, returns = arguments
    expected_returns = (type_.ret_type if type_.type_guard is None
                        else None)
    if expected_returns is None:
        if not (t.get_origin(returns) in GUARDS
                and matches(type_.type_guard, t.get_args(returns)[0],
                            depth + 1)):
            return False
    elif not matches(expected_returns, returns, depth + 1):
        return False
    if type_.is_ellipsis_args:
        return parameters is Ellipsis
    param_spec = type_.param_spec()
    if param_spec is not None:
        prefix = list(type_.arg_types[:-2])
        if not prefix:
            return matches_param_spec(param_spec.with_flavor(
                    T.ParamSpecFlavor.BARE
            ), parameters, depth)
        if t.get_origin(parameters) not in (t.Concatenate, te.Concatenate):
            return False
        *actual, last = t.get_args(parameters)
        return (len(actual) == len(prefix)
                and all(matches(item, argument, depth + 1)
                        for item, argument in zip(prefix, actual))
                and matches_param_spec(param_spec.with_flavor(
                                T.ParamSpecFlavor.BARE
                        ), last, depth))
    return (isinstance(parameters, list)
            and len(parameters) == len(type_.arg_types)
            and all(matches(item, argument, depth + 1)
                    for item, argument in zip(type_.arg_types, parameters)))


def matches_tuple(type_, value, depth):
    fallback = type_.partial_fallback.type
    if fallback.fullname != 'builtins.tuple':
        return matches_class(fallback, base_origin(value))
    if base_origin(value) is not tuple:
        return False
    arguments = t.get_args(value)
    return (value not in (tuple, t.Tuple)
            and len(arguments) == len(type_.items)
            and Ellipsis not in arguments
            and all(matches(item, argument, depth + 1)
                    for item, argument in zip(type_.items, arguments)))


def matches_instance(type_, value, depth):
    info = type_.type
    if isinstance(value, dataclasses.InitVar):
        return (info.fullname == 'dataclasses.InitVar'
                and matches(type_.args[0], value.type, depth + 1))
    arguments = t.get_args(value)
    origin = base_origin(value)
    if not matches_class(info, origin):
        return False
    if info.fullname == 'builtins.tuple':
        if not arguments:
            return value in (tuple, t.Tuple) and is_any(type_.args[0])
        return (len(arguments) == 2 and arguments[1] is Ellipsis
                and matches(type_.args[0], arguments[0], depth + 1))
    if not arguments:
        return (all(map(is_any_like, type_.args))
                or not is_subscriptable(origin))
    if any(isinstance(argument, T.ParamSpecType)
           or isinstance(argument, T.Parameters) for argument in type_.args):
        return True
    return (len(arguments) == len(type_.args)
            and all(matches(item, argument, depth + 1)
                    for item, argument in zip(type_.args, arguments)))


def is_any_like(type_):
    proper = T.get_proper_type(type_)
    return isinstance(proper, T.AnyType) or (
            isinstance(proper, T.Parameters) and proper.is_ellipsis_args
    )


def is_subscriptable(cls):
    definer = next((base for base in getattr(cls, '__mro__', ())
                    if '__class_getitem__' in vars(base)), None)
    if definer in (t.Generic, t.Protocol):
        # has nothing to be specialised by
        return bool(cls.__parameters__)
    return (hasattr(cls, '__class_getitem__')
            or cls is type
            or hasattr(type(cls), '__getitem__'))


def matches_class(info, value):
    if isinstance(value, t.NewType):
        return (info.is_newtype
                and value.__name__.rpartition('.')[2] == info.name)
    expected = runtime_class(info.fullname)
    if expected is not None:
        return value is expected or (
                isinstance(expected, t.NewType) and value == expected
        )
    # there is no such object at runtime
    if not isinstance(value, type):
        return False
    path = info.fullname[len(info.module_name) + 1:]
    # made up by the library, should be told from its namesakes at least
    # by the name of an outer class
    return (value.__module__.partition('.')[0] == 'paradigm'
            and value.__name__ in (path, info.name)
            and plain(value.__qualname__).endswith(plain(path)))


def plain(name):
    return ''.join(filter(str.isalnum, name))
