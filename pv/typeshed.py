"""
Reading of stubs by the type checker: what ``mypy`` itself makes
of declarations is the reference for what the library should report.
"""
import ast
import functools
import importlib
import sys
import textwrap
import types
import typing as t
from pathlib import Path

import mypy
import mypy.nodes as N
import mypy.types as T
from mypy import build, modulefinder, options
from mypy.state import state
from mypy.expandtype import expand_type_by_instance
from mypy.maptype import map_instance_to_supertype
from mypy.typevars import fill_typevars

from .specs import KO, PK, PO, VK, VP


def stub_modules(root):
    """Names of modules with stubs for the running version of Python."""
    versions = modulefinder.load_stdlib_py_versions(
            None if root is None else str(root)
    )
    directory = (Path(mypy.__file__).parent if root is None
                 else Path(root)) / 'typeshed' / 'stdlib'
    result = {}
    version = sys.version_info[:2]
    for path in sorted(directory.rglob('*.pyi')):
        parts = path.relative_to(directory).with_suffix('').parts
        if parts[-1] == '__init__':
            parts = parts[:-1]
        name = key = '.'.join(parts)
        while key not in versions and '.' in key:
            key = key.rpartition('.')[0]
        minimum, maximum = versions.get(key, ((0, 0), None))
        if minimum <= version and (maximum is None or version <= maximum):
            result[name] = path
    return result


def analyze(root=None):
    settings = options.Options()
    settings.python_version = sys.version_info[:2]
    settings.platform = sys.platform
    settings.incremental = False
    settings.cache_dir = '/dev/null'
    settings.preserve_asts = True
    if root is not None:
        settings.custom_typeshed_dir = str(Path(root) / 'typeshed')
        settings.abs_custom_typeshed_dir = str(Path(root) / 'typeshed')
    sources = [modulefinder.BuildSource(None, name, None)
               for name in stub_modules(root)]
    result = build.build(sources, settings).files
    # or unions with ``None`` won't survive substitutions
    state.strict_optional = True
    return result


@functools.lru_cache(maxsize=None)
def files():
    return analyze()


class Declaration(t.NamedTuple):
    """Function of stubs as it's seen through the class it's accessed by."""
    function: t.Any
    # signature with types specialized for the accessing class
    type: t.Any
    kind: str  # "function", "instance", "class", "static"


def functions(node):
    """Flattens definition to functions it consists of."""
    if isinstance(node, N.FuncDef):
        return [(node, None)]
    if isinstance(node, N.Decorator):
        return ([] if node.var.is_property else [(node.func, node)])
    if isinstance(node, N.OverloadedFuncDef):
        if node.is_property:
            return []
        return [pair for item in node.items for pair in functions(item)]
    return []


def statements(body):
    """Statements executed on the way, the ones of reachable branches."""
    for statement in body:
        if isinstance(statement, N.IfStmt):
            for block in [*statement.body, statement.else_body]:
                if block is not None and not block.is_unreachable:
                    yield from statements(block.body)
        elif isinstance(statement, N.Block):
            yield from statements(statement.body)
        else:
            yield statement


def aliases(body):
    """
    Other names given to functions by assignments: ``{name: function}``.
    """
    result = {}
    for statement in statements(body):
        if (isinstance(statement, N.AssignmentStmt)
                and statement.unanalyzed_type is None
                and isinstance(statement.rvalue, N.RefExpr)):
            node = result.get(statement.rvalue.fullname,
                              statement.rvalue.node)
            if isinstance(node, N.Var):
                node = None
            for target in statement.lvalues:
                if isinstance(target, N.NameExpr) and functions(node):
                    result[target.name] = node
    return result


@functools.lru_cache(maxsize=None)
def class_aliases(cls):
    return {
        name: node
        for name, node in aliases(cls.defn.defs.body).items()
        # the ones taken from elsewhere are not methods of the class
        if all(function.info is cls for function, _ in functions(node))
    }


IMPLICIT_CLASS_METHODS = {'__init_subclass__', '__class_getitem__'}


def to_kind(function, owner):
    if owner is None:
        return 'function'
    if function.is_static or function.name == '__new__':
        return 'static'
    if function.is_class or function.name in IMPLICIT_CLASS_METHODS:
        return 'class'
    return 'instance'


def specialize(type_, cls, owner):
    if owner is None or cls is None or cls is owner or type_ is None:
        return type_
    return expand_type_by_instance(
            type_, map_instance_to_supertype(self_instance(cls), owner)
    )


@functools.lru_cache(maxsize=None)
def self_instance(cls):
    result = fill_typevars(cls)
    if isinstance(result, T.TupleType):
        return result.partial_fallback
    return result


def declarations_of(node, cls=None, owner=None):
    return [Declaration(function, specialize(function.type, cls, owner),
                        to_kind(function, owner))
            for function, _ in functions(node)]


def is_synthesized(node):
    return False


def members(cls):
    """Yields names with owners and nodes found along MRO."""
    seen = set()
    for owner in cls.mro:
        for name, symbol in owner.names.items():
            if name in seen:
                continue
            seen.add(name)
            if symbol.node is None or symbol.plugin_generated:
                continue
            node = symbol.node
            if isinstance(node, N.Var):
                node = class_aliases(owner).get(name, node)
            yield name, owner, node


def walk(modules=None):
    """
    Yields ``(module name, path, node, class, owner)``.
    """
    for module_name, file in (files() if modules is None
                              else modules).items():
        yield from _walk(module_name, file.names, (), aliases(file.defs))


def _walk(module_name, names, path, functions_aliases):
    for name, symbol in names.items():
        node = symbol.node
        if node is None:
            continue
        node_path = (*path, name)
        if (getattr(node, 'fullname', None)
                != '.'.join((module_name, *node_path))):
            # imported or an alias
            continue
        if isinstance(node, N.TypeInfo):
            yield module_name, node_path, node, None, None
            yield from _walk(module_name, {
                sub_name: sub_symbol
                for sub_name, sub_symbol in node.names.items()
                if isinstance(sub_symbol.node, N.TypeInfo)
            }, node_path, {})
            for member_name, owner, member in members(node):
                if functions(member):
                    yield (module_name, (*node_path, member_name),
                           member, node, owner)
        elif isinstance(node, N.Var) and name in functions_aliases:
            yield (module_name, node_path, functions_aliases[name], None,
                   None)
        elif functions(node):
            yield module_name, node_path, node, None, None


def parameters(declaration):
    """
    Returns list of ``(kind, name, is required, default node, type)``.
    """
    function = declaration.function
    result = []
    type_ = declaration.type
    arg_types = (type_.arg_types if isinstance(type_, T.CallableType)
                 else [None] * len(function.arguments))
    for index, (argument, kind) in enumerate(zip(function.arguments,
                                                 function.arg_kinds)):
        result.append((
            {N.ARG_POS: PO if argument.pos_only else PK,
             N.ARG_OPT: PO if argument.pos_only else PK,
             N.ARG_STAR: VP, N.ARG_NAMED: KO, N.ARG_NAMED_OPT: KO,
             N.ARG_STAR2: VK}[kind],
            argument.variable.name,
            kind in (N.ARG_POS, N.ARG_NAMED),
            argument.initializer,
            arg_types[index]
        ))
    return result


@functools.lru_cache(maxsize=None)
def lines_of(path):
    return Path(path).read_text(encoding='utf-8').splitlines()


@functools.lru_cache(maxsize=None)
def explicitly_positional(function):
    """Counts parameters in front of the slash (if there is any)."""
    module_name = (function.info.module_name if function.info
                   else function.fullname.rpartition('.')[0])
    file = files().get(module_name)
    if file is None:
        return 0
    lines = lines_of(file.path)[function.line - 1:function.end_line]
    if not any('/' in line for line in lines):
        return 0
    try:
        node, = ast.parse(textwrap.dedent('\n'.join(lines))).body
    except (SyntaxError, ValueError):
        node = None
    # some functions are made up by the type checker
    return (len(node.args.posonlyargs)
            if getattr(node, 'name', None) == function.name else 0)


def returns(declaration):
    type_ = declaration.type
    if not isinstance(type_, T.CallableType):
        return None
    result = type_.ret_type
    if declaration.function.is_coroutine:
        # ``async def`` is declared with what is awaited
        proper = T.get_proper_type(result)
        if (isinstance(proper, T.Instance)
                and proper.type.fullname == 'typing.Coroutine'):
            result = proper.args[2]
    if type_.type_guard is not None:
        return ('guard', type_.type_guard)
    return result


class Unknown(Exception):
    """There is no way to tell what the expression evaluates to."""


def find(full_name):
    """Finds runtime object by its full name."""
    parts = full_name.split('.')
    for index in range(len(parts), 0, -1):
        module_name = '.'.join(parts[:index])
        try:
            value = importlib.import_module(module_name)
        except BaseException:
            continue
        try:
            for part in parts[index:]:
                value = getattr(value, part)
        except AttributeError:
            raise Unknown(full_name)
        return value
    raise Unknown(full_name)


def evaluate_default(node):
    if isinstance(node, (N.IntExpr, N.StrExpr, N.FloatExpr, N.ComplexExpr)):
        return node.value
    if isinstance(node, N.BytesExpr):
        quote = ('"' if "'" in node.value and '"' not in node.value
                 else "'")
        return eval(f'b{quote}{node.value}{quote}')
    if isinstance(node, N.EllipsisExpr):
        return ...
    if isinstance(node, N.UnaryExpr):
        value = evaluate_default(node.expr)
        return {'-': lambda: -value, '+': lambda: +value,
                '~': lambda: ~value, 'not': lambda: not value}[node.op]()
    if isinstance(node, N.NameExpr):
        simple = {'True': True, 'False': False, 'None': None}
        if node.name in simple:
            return simple[node.name]
        if node.fullname:
            return find(node.fullname)
    if isinstance(node, N.MemberExpr):
        if node.fullname:
            return find(node.fullname)
        return getattr(evaluate_default(node.expr), node.name)
    if isinstance(node, N.TupleExpr):
        return tuple(map(evaluate_default, node.items))
    if isinstance(node, N.ListExpr):
        return list(map(evaluate_default, node.items))
    if isinstance(node, N.SetExpr):
        return set(map(evaluate_default, node.items))
    if isinstance(node, N.DictExpr):
        return {evaluate_default(key): evaluate_default(value)
                for key, value in node.items}
    if isinstance(node, N.OpExpr):
        left, right = evaluate_default(node.left), evaluate_default(node.right)
        return eval(f'left {node.op} right')
    raise Unknown(node)
