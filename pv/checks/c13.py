"""Parameters of standard library callables against declared ones."""
from paradigm.base import RequiredParameter
from pv import declared, typeshed
from pv.specs import KO, PK, PO, VK, VP

RULE = ('Every function and method declared in typeshed for the running '
        'version, as read by the type checker, is accessed in the importable '
        'standard library; distinct runtime objects are the cases. '
        'Non-trivial: some parameter besides the receiver is declared; '
        'distinct by object.')
ASSUMPTIONS = [
    'mypy reads the stubs it comes with correctly',
    'when several declarations denote the same object and none is '
    'for the name it calls itself by then any of them is fine',
]
KINDS = {PO: 'positional-only', PK: 'positional-or-keyword',
         VP: 'variadic positional', KO: 'keyword-only',
         VK: 'variadic keyword'}


def default_of(node):
    """Returns pair: is there a known default, its value."""
    if node is None:
        return False, None
    try:
        value = typeshed.evaluate_default(node)
    except typeshed.Unknown:
        return None, None
    return (False, None) if value is ... else (True, value)


def mismatch(plain, declaration, is_bound, *, defaults=True):
    """Returns what differs between reported and declared parameters."""
    expected, has_receiver = declared.parameters(declaration, is_bound)
    actual = plain.parameters
    if len(actual) != len(expected):
        return ('number of parameters: '
                f'{len(actual)} reported, {len(expected)} declared')
    for index, (parameter, (kind, name, is_required, default_node, _)) in (
            enumerate(zip(actual, expected))
    ):
        if parameter.name != name:
            return f'parameter {index}: "{parameter.name}" is "{name}"'
        if int(parameter.kind) != kind and not (
                has_receiver and index == 0 and parameter.kind == PO
        ):
            return (f'parameter "{name}": {parameter.kind} '
                    f'is declared {KINDS[kind]}')
        if isinstance(parameter, RequiredParameter) is not is_required:
            return (f'parameter "{name}" is declared '
                    f'{"required" if is_required else "optional"}')
        if is_required or not defaults:
            continue
        has_default, default = default_of(default_node)
        if has_default is None:
            continue
        if parameter.has_default is not has_default:
            return f'parameter "{name}": declared default is {default!r}'
        if has_default and not (type(parameter.default) is type(default)
                                and parameter.default == default):
            return (f'parameter "{name}": default {parameter.default!r}, '
                    f'declared {default!r}')
    return None


def decide_path(case):
    group = declared.by_path()[case]
    return declared.decide(group.value, case, [
        (member.full_path,
         [lambda plain, declaration=declaration: mismatch(
                 plain, declaration, group.is_bound
         ) for declaration in member.declarations()])
        for member in group.relevant()
    ], inspected=group.is_undeclared)


SUITES = {'declared': decide_path}


def is_nontrivial(group):
    return any(len(declared.parameters(declaration, True)[0])
               > (declaration.kind == 'function')
               for member in group.members[:1]
               for declaration in member.declarations())


def run(ctx):
    groups, skipped = declared.groups()
    for group in groups:
        ctx.check('declared', group.path, is_nontrivial(group),
                  label=type(group.value).__name__, key=group.path)
    ctx.notes['out of domain'] = skipped
    ctx.exhaustive = True
