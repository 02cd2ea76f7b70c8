"""Constructors accept exactly what Python allows to declare."""
import inspect
import itertools

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter)
from pv import names, specs

RULE = ('All sequences of parameters (kinds, optionality, possibly repeated '
        'names) up to a bound, legal or not, exhaustively, plus generated '
        'longer ones obtained from legal ones by swaps, duplications and '
        'renamings; oracle: model of legal declarations, compiling the '
        'declaration by Python for legal ones and ``inspect.Signature`` for '
        'the others. Constructors of parameters are given every kind and '
        'non-kind. Non-trivial: at least two parameters; distinct by case.')
ASSUMPTIONS = ['names are identifiers; interpretation of legality by '
               'compile() and inspect.Signature is the reference']


def decide(case):
    parameters = case['parameters']
    legal = specs.is_legal(parameters)
    built = list(map(specs.build_parameter, parameters))
    for parameter, (kind, name, optionality, annotation, default) in zip(
            built, parameters
    ):
        if (parameter.kind is not ParameterKind(kind)
                or parameter.name != name
                or parameter.annotation != names.evaluate(annotation)):
            return f'parameter exposes {parameter!r}'
        if optionality:
            if parameter.has_default is not (optionality == 1):
                return 'has_default is wrong'
            if optionality == 1 and (parameter.default
                                     != names.evaluate(default)):
                return 'default is wrong'
            if optionality != 1 and hasattr(parameter, '_default'):
                return 'default appears from nowhere'
    if legal:
        compile(f'def f({specs.to_declaration(parameters)}): pass', '', 'exec')
    elif [kind for kind, *_ in parameters if kind in specs.VARIADIC] == list(
            {kind for kind, *_ in parameters if kind in specs.VARIADIC}
    ):
        try:
            inspect.Signature([
                inspect.Parameter(name, inspect._ParameterKind(kind),
                                  **({'default': None}
                                     if optionality
                                     and kind not in specs.VARIADIC
                                     else {}))
                for kind, name, optionality, *_ in parameters
            ])
        except ValueError:
            pass
        else:
            assert False, case
    returns = object()
    try:
        signature = PlainSignature(*built, returns=returns)
    except ValueError:
        return (f'refuses legal ({specs.to_declaration(parameters)})'
                if legal
                else None)
    if not legal:
        return f'accepts illegal {[str(p) for p in built]}, {parameters}'
    if len(signature.parameters) != len(built) or any(
            left is not right
            for left, right in zip(signature.parameters, built)
    ):
        return 'parameters are not exposed as they are'
    if signature.returns is not returns:
        return 'returns is not exposed as it is'
    return None


KINDS = {**{kind.name: kind for kind in ParameterKind},
         **{f'int {value}': value for value in range(-1, 6)},
         'None': None, 'string': 'POSITIONAL_ONLY', 'True': True,
         'float': 1.0, 'type': ParameterKind,
         'inspect': inspect.Parameter.KEYWORD_ONLY}


def decide_kind(case):
    kind = KINDS[case['kind']]
    marker, annotation = object(), object()
    kwargs = {'default': marker} if case['default'] else {}
    cls = {'required': RequiredParameter,
           'optional': OptionalParameter}[case['class']]
    if not isinstance(kind, ParameterKind):
        expected = TypeError
    elif kind in (ParameterKind.VARIADIC_KEYWORD,
                  ParameterKind.VARIADIC_POSITIONAL):
        expected = (ValueError
                    if cls is RequiredParameter or case['default']
                    else None)
    else:
        expected = None
    try:
        result = cls(annotation=annotation, kind=kind, name='x', **kwargs)
    except Exception as error:
        if type(error) is not expected:
            return f'{case}: raised {error!r}, expected {expected}'
        return None
    if expected is not None:
        return f'{case}: expected {expected}'
    if (result.annotation is not annotation or result.kind is not kind
            or result.name != 'x'):
        return f'{case}: exposes {result!r}'
    if cls is OptionalParameter:
        if result.has_default is not case['default']:
            return f'{case}: has_default is wrong'
        if case['default'] and result.default is not marker:
            return f'{case}: default is wrong'
    return None


def decide_overloaded(case):
    plain = PlainSignature(returns=None)
    other = PlainSignature(OptionalParameter(
            annotation=int, kind=ParameterKind.KEYWORD_ONLY, name='x'
    ), returns=int)
    pool = {'plain': plain, 'other': other,
            'overloaded': OverloadedSignature(plain, other), 'none': None,
            'type': PlainSignature, 'tuple': (), 'function': len,
            'inspect': inspect.signature(lambda: 0)}
    arguments = [pool[name] for name in case['signatures']]
    invalid = any(not isinstance(argument, PlainSignature)
                  for argument in arguments)
    expected = ((TypeError,) * invalid
                + (ValueError,) * (len(arguments) < 2))
    try:
        result = OverloadedSignature(*arguments)
    except Exception as error:
        if type(error) not in expected:
            return f'{case}: raised {error!r}, expected {expected}'
        return None
    if expected:
        return f'{case}: expected {expected}'
    if len(result.signatures) != len(arguments) or any(
            left is not right
            for left, right in zip(result.signatures, arguments)
    ):
        return f'{case}: exposes {result.signatures}'
    return None


SUITES = {'plain': decide, 'kind': decide_kind,
          'overloaded': decide_overloaded}


def run(ctx):
    for kind in KINDS:
        for default in (False, True):
            ctx.check('kind', {'kind': kind, 'class': 'optional',
                               'default': default}, True)
        ctx.check('kind', {'kind': kind, 'class': 'required',
                           'default': False}, True)
    for size in range(4):
        for sequence in itertools.product(
                ['plain', 'other', 'overloaded', 'none', 'type', 'tuple',
                 'function', 'inspect'], repeat=size
        ):
            ctx.check('overloaded', {'signatures': list(sequence)}, size > 1)
    variants = [(kind, optionality)
                for kind in range(5)
                for optionality in ((2,) if kind in specs.VARIADIC
                                    else (0, 1, 2))]
    size = 4 if ctx.quick else 5
    for length in range(size + 1):
        for shape in itertools.product(variants, repeat=length):
            parameters = specs.shape_to_parameters(shape)
            ctx.check('plain', {'parameters': parameters}, length > 1,
                      key=str(shape), sample=parameters)
    for length in range(2, 4):
        for shape in itertools.product(variants, repeat=length):
            for declared in itertools.product('ab', repeat=length):
                parameters = specs.shape_to_parameters(shape, declared)
                if specs.is_legal(specs.shape_to_parameters(shape)):
                    ctx.check('plain', {'parameters': parameters}, True,
                              key=str((shape, declared)), sample=parameters)

    @st.composite
    def cases(draw):
        parameters = draw(specs.parameters_lists(
                max_size=12,
                annotations=st.sampled_from(['int', 'None', '"x"', 'T', '[]']),
        ))
        for _ in range(draw(st.integers(0, 2))):
            if not parameters:
                break
            index = draw(st.integers(0, len(parameters) - 1))
            other = draw(st.integers(0, len(parameters) - 1))
            action = draw(st.sampled_from(['swap', 'rename', 'copy',
                                           'require']))
            if action == 'swap':
                parameters[index], parameters[other] = (parameters[other],
                                                        parameters[index])
            elif action == 'rename':
                parameters[index] = [parameters[index][0],
                                     parameters[other][1],
                                     *parameters[index][2:]]
            elif action == 'copy':
                parameters.insert(other, [parameters[index][0], 'copy',
                                          *parameters[index][2:]])
            elif parameters[index][0] not in specs.VARIADIC:
                parameters[index] = [*parameters[index][:2], 0,
                                     parameters[index][3], None]
        return {'parameters': parameters}

    ctx.search('plain', cases(), max_examples=4000 if ctx.quick else 60000,
               nontrivial=lambda case: len(case['parameters']) > 1,
               label=lambda case: ('legal'
                                   if specs.is_legal(case['parameters'])
                                   else 'illegal'))
