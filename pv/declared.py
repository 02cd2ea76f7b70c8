"""
Standard library callables at runtime along with their declarations.
"""
import functools
import hashlib
import inspect
import re
import types
import typing as t

import mypy.nodes as N
from paradigm.base import signature_from_callable

from . import introspection, stdlib, typeshed
from .specs import PK, PO

CALLABLES_TYPES = (types.FunctionType, types.MethodType,
                   types.BuiltinFunctionType, types.MethodDescriptorType,
                   types.WrapperDescriptorType, types.MethodWrapperType)
ALIASES_TYPES = (type(t.Sequence), type(t.Callable), type(t.Tuple))


class Declared(t.NamedTuple):
    module: str
    path: t.Tuple[str, ...]
    node: t.Any
    # class it is accessed through and the one it's declared in
    cls: t.Any
    owner: t.Any
    is_undeclared_override: bool

    @property
    def full_path(self):
        return self.module + ':' + '.'.join(self.path)

    def declarations(self):
        return typeshed.declarations_of(self.node, self.cls, self.owner)


class Group(t.NamedTuple):
    """Object with everything declared for it."""
    path: str
    value: t.Any
    members: t.List[Declared]

    @property
    def is_bound(self):
        value = self.value
        return (isinstance(value, types.MethodType)
                or (isinstance(value, types.BuiltinFunctionType)
                    and isinstance(value.__self__, type)
                    and value.__name__ != '__new__'))

    def relevant(self):
        """
        Declarations for the name object calls itself by if there is any.
        """
        own = own_path(self.value)
        result = [member for member in self.members
                  if (to_runtime_module(member.module, member.path),
                      '.'.join(member.path)) == own]
        return result or self.members

    @property
    def is_undeclared(self):
        return any(member.is_undeclared_override
                   for member in self.relevant())


def own_path(value):
    if isinstance(value, types.MethodType):
        value = value.__func__
    if isinstance(value, (types.MethodDescriptorType,
                          types.WrapperDescriptorType)):
        module = value.__objclass__.__module__
    elif (isinstance(value, types.BuiltinFunctionType)
          and isinstance(value.__self__, type)):
        return (value.__self__.__module__,
                value.__self__.__qualname__ + '.' + value.__name__)
    else:
        module = value.__module__
    return module, value.__qualname__


def to_runtime_module(module_name, path):
    if module_name == 'typing' and len(path) > 1:
        value = getattr(t, path[0], None)
        if isinstance(value, ALIASES_TYPES):
            return value.__origin__.__module__
    return module_name


def raw(cls, name):
    for base in cls.__mro__:
        if name in vars(base):
            return vars(base)[name]
    return None


def mangle(holder, name):
    return (f'_{holder.__name__.lstrip("_")}{name}'
            if (isinstance(holder, type) and name.startswith('__')
                and not name.endswith('__'))
            else name)


def key_of(value, holder, name):
    if isinstance(value, types.MethodType):
        return 'method', id(value.__func__)
    if isinstance(value, types.BuiltinFunctionType) and isinstance(holder,
                                                                   type):
        return 'builtin', id(raw(holder, name))
    return 'object', id(value)


def locate(module_name, path):
    """Returns object and what holds it (or ``None`` if there is no such)."""
    holder = value = stdlib.modules().get(module_name)
    if value is None:
        return None
    try:
        for name in path:
            holder, value = value, getattr(value, mangle(value, name))
            if isinstance(value, ALIASES_TYPES):
                # e.g. ``typing.Sequence``
                value = value.__origin__
    except Exception:
        return None
    return value, holder


def overrides_undeclared(module_name, path, node, cls, owner, holder):
    """
    Is what's declared in a base class implemented at runtime
    by something that base class doesn't have?
    """
    if cls is None or owner is cls or not isinstance(holder, type):
        return False
    located = locate(*typeshed_path(owner))
    if located is None or not isinstance(located[0], type):
        return False
    declaring, name = located[0], path[-1]
    declared_value = raw(declaring, mangle(declaring, name))
    return (declared_value is not None
            and declared_value is not raw(holder, mangle(holder, name)))


def typeshed_path(info):
    module_name = info.module_name
    return module_name, tuple(info.fullname[len(module_name) + 1:].split('.'))


@functools.lru_cache(maxsize=None)
def groups():
    result = {}
    skipped = {}

    def skip(reason):
        skipped[reason] = skipped.get(reason, 0) + 1

    for item in typeshed.walk():
        if isinstance(item[2], N.TypeInfo):
            continue
        located = locate(*item[:2])
        if located is None:
            skip('absent at runtime')
            continue
        value, holder = located
        member = Declared(*item, overrides_undeclared(*item, holder))
        if isinstance(value, type) or not callable(value):
            skip('not a function at runtime')
            continue
        if not isinstance(value, CALLABLES_TYPES):
            skip('callable instance at runtime')
            continue
        name = member.path[-1]
        if member.cls is not None and (
                not isinstance(holder, type)
                or raw(holder, mangle(holder, name)) is None
        ):
            skip('attribute of metaclass or module')
            continue
        key = key_of(value, holder, name)
        if key in result:
            result[key].members.append(member)
        else:
            result[key] = Group(member.full_path, value, [member])
    groups_ = []
    for group in result.values():
        if not any(mangle_free(group.value.__name__, member.path[-1])
                   for member in group.members):
            # e.g. ``keyword.iskeyword`` is a ``frozenset.__contains__``
            skip('implemented by something declared elsewhere')
            continue
        groups_.append(group)
    return groups_, skipped


def mangle_free(runtime_name, declared_name):
    return (runtime_name == declared_name
            or (runtime_name.startswith('_')
                and runtime_name.endswith(declared_name)))


@functools.lru_cache(maxsize=None)
def by_path():
    return {group.path: group for group in groups()[0]}


def decide(value, full_path, alternatives, *, inspected=False):
    """
    Compares signatures reported with declarations, given as names
    with sequences of functions, each telling what's wrong with a signature.
    Returns list with identified failure if none of them is followed.
    If needed being what introspection gives is considered fine as well.
    """
    expected = None
    if inspected:
        try:
            expected = inspect.signature(value)
        except ValueError:
            pass
    try:
        signature = signature_from_callable(value)
    except (TypeError, ValueError) as error:
        if (inspected and expected is None
                and isinstance(error, ValueError)):
            return []
        reported, problems = type(error).__name__, [f'rejected: {error}']
    else:
        reported, problems = str(signature), []
        if expected is not None:
            problem = introspection.mismatch(signature, expected, False)
            if problem is None:
                return []
            problems.append('introspection: ' + problem)
        signatures = getattr(signature, 'signatures', [signature])
        for name, checks in alternatives:
            if len(checks) != len(signatures):
                problems.append(f'{name}: {len(checks)} overloads, '
                                f'{len(signatures)} reported')
                continue
            for index, (plain, check) in enumerate(zip(signatures, checks)):
                problem = check(plain)
                if problem is not None:
                    problems.append(f'{name}, overload {index}: {problem}')
                    break
            else:
                return []
    return failure(full_path, reported, '\n'.join(problems))


def failure(full_path, reported, problem):
    """Identifies failure by the path of object and what's reported for it."""
    digest = hashlib.blake2b(re.sub('0x[0-9a-f]+', '', reported).encode(),
                             digest_size=4).hexdigest()
    return [(f'{full_path} {digest}', f'{problem}\nreported: {reported}')]


def parameters(declaration, is_bound):
    """
    Parameters as they should be reported: positional-only ones
    are recognized by names too, receiver of bound methods is dropped.

    Returns them along with the flag telling if the first one is a receiver.
    """
    result = typeshed.parameters(declaration)
    last = max([index
                for index, (kind, name, *_) in enumerate(result)
                if kind in (PO, PK) and name.startswith('__')
                and not name.endswith('__')],
               default=-1)
    name = declaration.function.name
    if name.startswith('__') and name.endswith('__'):
        # the type checker considers parameters of them to be positional-only
        count = typeshed.explicitly_positional(declaration.function)
        result = [(PK if kind == PO and index >= count else kind, *rest)
                  for index, (kind, *rest) in enumerate(result)]
    result = [(PO if index <= last else kind, *rest)
              for index, (kind, *rest) in enumerate(result)]
    if declaration.kind == 'function' or not result or result[0][0] not in (
            PO, PK
    ):
        return result, False
    if declaration.kind == 'static' and declaration.function.name != '__new__':
        return result, False
    if is_bound:
        return result[1:], False
    return result, True


class DeclaredClass(t.NamedTuple):
    module: str
    path: t.Tuple[str, ...]
    info: t.Any

    @property
    def full_path(self):
        return self.module + ':' + '.'.join(self.path)


class ClassGroup(t.NamedTuple):
    path: str
    value: type
    members: t.List[DeclaredClass]

    def relevant(self):
        own = self.value.__module__, self.value.__qualname__
        result = [member for member in self.members
                  if (member.module, '.'.join(member.path)) == own]
        return result or self.members


@functools.lru_cache(maxsize=None)
def classes():
    result, skipped = {}, {}
    for module, path, node, _, _ in typeshed.walk():
        if not isinstance(node, N.TypeInfo):
            continue
        member = DeclaredClass(module, path, node)
        located = locate(module, path)
        reason = (None if located is not None
                  and isinstance(located[0], type)
                  else 'absent at runtime' if located is None
                  else 'not a class at runtime')
        if reason is not None:
            skipped[reason] = skipped.get(reason, 0) + 1
            continue
        value, _ = located
        if id(value) in result:
            result[id(value)].members.append(member)
        else:
            result[id(value)] = ClassGroup(member.full_path, value, [member])
    return list(result.values()), skipped


@functools.lru_cache(maxsize=None)
def classes_by_path():
    return {group.path: group for group in classes()[0]}


def constructor(info):
    """
    Returns declarations of the nearest constructor
    along with the class it's declared in.
    """
    for owner in info.mro:
        for name in ('__init__', '__new__'):
            symbol = owner.names.get(name)
            if symbol is not None and typeshed.functions(symbol.node):
                return (typeshed.declarations_of(symbol.node, info, owner),
                        owner, name)
    return [], None, None
