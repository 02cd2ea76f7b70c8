"""Signatures of standard library classes against declared constructors."""
from pv import declared, denotation, typeshed
from pv.checks import c13

RULE = ('Every class declared in typeshed for the running version, as read '
        'by the type checker, is accessed in the importable standard '
        'library. Non-trivial: constructor has parameters or is inherited; '
        'distinct by class.')
ASSUMPTIONS = [
    'mypy reads the stubs it comes with correctly',
    'when several declarations denote the same class and none is '
    'for the name it calls itself by then any of them is fine',
]


def mismatch(plain, declaration, owner, name):
    problem = c13.mismatch(plain, declaration, True,
                           defaults=not owner.is_named_tuple)
    if problem is not None:
        return problem
    expected, _ = declared.parameters(declaration, True)
    for parameter, (_, parameter_name, _, _, type_) in zip(plain.parameters,
                                                           expected):
        if not denotation.matches(type_, parameter.annotation):
            return (f'parameter "{parameter_name}": '
                    f'{parameter.annotation!r} reported, {type_} declared')
    if name == '__init__':
        if plain.returns not in denotation.SELVES:
            return f'result: {plain.returns!r} reported'
    elif owner.is_named_tuple:
        if not (plain.returns in denotation.SELVES
                or denotation.matches_class(owner, plain.returns)):
            return f'result: {plain.returns!r} reported'
    elif not denotation.matches(typeshed.returns(declaration),
                                plain.returns):
        return (f'result: {plain.returns!r} reported, '
                f'{typeshed.returns(declaration)} declared')
    return None


def checks_of(member):
    declarations, owner, name = declared.constructor(member.info)
    return (f'{member.full_path}, {owner.fullname}.{name}' if owner else '',
            [lambda plain, declaration=declaration: mismatch(
                    plain, declaration, owner, name
            ) for declaration in declarations])


def decide_path(case):
    group = declared.classes_by_path()[case]
    return declared.decide(group.value, case,
                           map(checks_of, group.relevant()))


SUITES = {'declared': decide_path}


def is_nontrivial(group):
    declarations, owner, _ = declared.constructor(group.members[0].info)
    return (owner is not group.members[0].info
            or any(len(declaration.function.arguments) > 1
                   for declaration in declarations))


def run(ctx):
    groups, skipped = declared.classes()
    for group in groups:
        ctx.check('declared', group.path, is_nontrivial(group),
                  key=group.path)
    ctx.notes['out of domain'] = skipped
    ctx.exhaustive = True
