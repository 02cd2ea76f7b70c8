"""Annotations of standard library callables against declared types."""
from pv import declared, denotation, typeshed

RULE = ('Every annotation of parameters and result of every function and '
        'method declared in typeshed for the running version is matched '
        'against the type the type checker finds there (aliases expanded, '
        'type parameters substituted the way class it is accessed through '
        'inherits it). Non-trivial: something besides builtin classes and '
        'Any is denoted; distinct by object.')
ASSUMPTIONS = [
    'mypy reads the stubs it comes with correctly',
    'when several declarations denote the same object and none is '
    'for the name it calls itself by then any of them is fine',
    'what has no runtime counterpart is compared by name',
]


def mismatch(plain, declaration, is_bound):
    expected, has_receiver = declared.parameters(declaration, is_bound)
    for index, (parameter, (_, name, _, _, type_)) in enumerate(
            zip(plain.parameters, expected)
    ):
        if has_receiver and index == 0:
            continue
        if not denotation.matches(type_, parameter.annotation):
            return (f'parameter "{name}": {parameter.annotation!r} '
                    f'reported, {type_} declared')
    returns = typeshed.returns(declaration)
    if isinstance(returns, tuple):
        _, guarded = returns
        if not (denotation.t.get_origin(plain.returns) in denotation.GUARDS
                and denotation.matches(
                        guarded, denotation.t.get_args(plain.returns)[0]
                )):
            return (f'result: {plain.returns!r} reported, guard of {guarded} '
                    f'declared')
        return None
    if not denotation.matches(returns, plain.returns):
        return (f'result: {plain.returns!r} reported, {returns} declared')
    return None


def decide_path(case):
    group = declared.by_path()[case]
    return declared.decide(group.value, case, [
        (member.full_path,
         [lambda plain, declaration=declaration: mismatch(
                 plain, declaration, group.is_bound
         ) for declaration in member.declarations()])
        for member in group.relevant()
    ], inspected=group.is_undeclared)


SUITES = {'declared': decide_path}


def is_interesting(type_):
    """Is it anything but a non-generic class?"""
    type_ = denotation.T.get_proper_type(type_)
    return not (type_ is None
                or isinstance(type_, (denotation.T.AnyType,
                                      denotation.T.NoneType))
                or isinstance(type_, denotation.T.Instance)
                and not type_.args)


def is_nontrivial(group):
    for declaration in group.relevant()[0].declarations():
        expected, has_receiver = declared.parameters(declaration,
                                                     group.is_bound)
        if any(is_interesting(type_)
               for _, _, _, _, type_ in expected[has_receiver:]):
            return True
        returns = typeshed.returns(declaration)
        if isinstance(returns, tuple) or is_interesting(returns):
            return True
    return False


def run(ctx):
    groups, skipped = declared.groups()
    for group in groups:
        ctx.check('declared', group.path, is_nontrivial(group),
                  label=type(group.value).__name__, key=group.path)
    ctx.notes['out of domain'] = skipped
    ctx.exhaustive = True
