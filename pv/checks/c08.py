"""str as a Python declaration."""
import inspect

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter,
                           signature_from_callable)
from pv import annotations, evaluation, pools, specs
from pv.checks import c05, c06, c07
from pv.runner import Skip

RULE = ('Plain and overloaded signatures generated from specifications (all '
        'shapes up to a bound exhaustively with simple annotations; nested '
        'annotations and defaults generated), bindings of them and '
        'signatures of standard library and user callables; oracle: the '
        'rendering is put into a function declaration, executed, and what '
        'runtime introspection finds is compared with the specification. '
        'Non-trivial: at least two parameters or a parameter of a kind '
        'requiring a separator; distinct by case.')
ASSUMPTIONS = ['annotations and defaults which have no evaluable '
               'representation are out of domain',
               'optional parameters without default render as required ones '
               '(for the executed declaration they are rendered with an '
               'arbitrary default instead)']


class Placeholder:
    def __repr__(self):
        return "'<unspecified>'"


def fill(signature):
    """Gives defaults to optional parameters without ones."""
    return PlainSignature(
            *[OptionalParameter(annotation=parameter.annotation,
                                default=Placeholder(), kind=parameter.kind,
                                name=parameter.name)
              if (isinstance(parameter, OptionalParameter)
                  and not parameter.has_default
                  and int(parameter.kind) not in specs.VARIADIC)
              else parameter
              for parameter in signature.parameters],
            returns=signature.returns
    )


def equal(left, right):
    """Compares annotations by means decided by C05."""
    return (RequiredParameter(annotation=left, name='x',
                              kind=ParameterKind.KEYWORD_ONLY)
            == RequiredParameter(annotation=right, name='x',
                                 kind=ParameterKind.KEYWORD_ONLY))


def check_plain(signature):
    text = str(signature)
    if not all(map(c07.is_expressible, c06.leaves(signature))):
        raise Skip
    filled = fill(signature)
    filled_text = str(filled)
    if filled_text.replace(" = '<unspecified>'", '') != text:
        return f'{text} mentions defaults where there are none'
    source = f'def function{filled_text}: pass'
    try:
        function = evaluation.execute(source)['function']
    except Exception as error:
        return f'{source} is not a declaration: {error!r}'
    actual = inspect.signature(function)
    declared = list(actual.parameters.values())
    if len(declared) != len(signature.parameters):
        return f'{text} declares {actual}'
    for parameter, expected in zip(declared, filled.parameters):
        if parameter.name != expected.name:
            return f'{text} has {parameter.name} in place of {expected.name}'
        if parameter.kind.value != int(expected.kind):
            return f'{text} has {parameter.name} of kind {parameter.kind!r}'
        if not equal(parameter.annotation, expected.annotation):
            return (f'{text} has {parameter.name} '
                    f'annotated with {parameter.annotation!r}')
        if (parameter.default is not inspect.Parameter.empty) is not (
                isinstance(expected, OptionalParameter)
                and expected.has_default):
            return f'{text} has wrong optionality of {parameter.name}'
        if isinstance(expected, OptionalParameter) and expected.has_default:
            default = expected.default
            if isinstance(default, Placeholder):
                default = '<unspecified>'
            if not (parameter.default == default
                    and type(parameter.default) is type(default)
                    or equal(parameter.default, default)):
                return (f'{text} has default {parameter.default!r} '
                        f'for {parameter.name}')
    if not equal(actual.return_annotation, signature.returns):
        return f'{text} returns {actual.return_annotation!r}'
    return None


def check_signature(signature):
    text = str(signature)
    if isinstance(signature, OverloadedSignature):
        expected = ' | '.join(map(str, signature.signatures))
        if text != expected:
            return f'rendered as {text}, should be {expected}'
        for alternative in signature.signatures:
            message = check_plain(alternative)
            if message is not None:
                return message
        return None
    return check_plain(signature)


def decide(case):
    value = c05.build(case['spec'])
    for count, keywords in case.get('bind', []):
        args, kwargs = [[1]] * count, dict.fromkeys(keywords, (2, int))
        if value.expects(*args, **kwargs):
            value = value.bind(*args, **kwargs)
    return check_signature(value)


def decide_callable(case):
    path = case['callable']
    value = (pools.partials()[path] if ':' not in path
             else pools.resolve(path))
    return check_signature(signature_from_callable(value))


SUITES = {'generated': decide, 'callable': decide_callable}


@st.composite
def cases(draw):
    spec = (draw(c07.plains(max_size=8))
            if draw(st.integers(0, 2))
            else {'signatures': draw(st.lists(c07.plains(max_size=3),
                                              min_size=2, max_size=3))})
    bind = [specs.calls(draw, ['a', 'b', 'c', 'key'], max_args=2, extra=False)
            for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    return {'spec': spec, 'bind': bind}


def is_nontrivial(case):
    spec = case['spec']
    return any(len(plain['parameters']) > 1
               or plain['parameters'] and plain['parameters'][0][0] != specs.PK
               for plain in spec.get('signatures', [spec]))


def run(ctx):
    for path in [*pools.STDLIB, *pools.partials(),
                 'pv.pools:user_function']:
        ctx.check('callable', {'callable': path}, True)
    for shape in specs.enumerate_shapes(4 if ctx.quick else 5,
                                        optionalities=(0, 1, 2)):
        parameters = [[*parameter[:3],
                       [('int', 't.List[str]', 'None', '"x"', 'T')[index],
                        ''], parameter[4]]
                      for index, parameter
                      in enumerate(specs.shape_to_parameters(shape))]
        case = {'spec': {'parameters': parameters, 'returns': ['int', '']}}
        ctx.check('generated', case, is_nontrivial(case))
    ctx.search('generated', cases(), max_examples=2500 if ctx.quick else 30000,
               nontrivial=is_nontrivial,
               label=lambda case: ('overloaded'
                                   if 'signatures' in case['spec']
                                   else 'plain'))
