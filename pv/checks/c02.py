"""bind against a model of partial application and against Python itself."""
import functools
import inspect
import itertools
import operator

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, ParameterKind, PlainSignature,
                           RequiredParameter)
from pv import specs
from pv.runner import Skip
from pv.specs import KO, PK, PO, VP

RULE = ('Every legal parameter list up to a bound crossed with every call '
        '(exhaustive for the shape of the result, all pairs of calls for '
        'shorter lists), plus generated chains of bindings of longer lists '
        'with unusual names and values. Oracles: a model of partial '
        'application at the level of parameter lists (itself compared with '
        '``inspect.signature`` of a real ``functools.partial``), and calling '
        'real functions with the combined arguments. Non-trivial: an expected '
        'call passing at least one argument, or a rejected one; distinct by '
        'parameters and calls.')
ASSUMPTIONS = ['CPython call machinery and functools.partial '
               'are the reference']


def model_bind(parameters, values, count, keywords):
    """
    Parameters are those of specs with a list of ``[flag, value]`` of defaults
    kept aside by name in ``values``.
    """
    positionals = [parameter for parameter in parameters
                   if parameter[0] in (PO, PK)]
    rest = (positionals[count:]
            + [parameter for parameter in parameters
               if parameter[0] not in (PO, PK)])
    keywordable = {parameter[1] for parameter in rest
                   if parameter[0] in (PK, KO)}
    bound = [name for name in keywords if name in keywordable]
    if not bound:
        return rest, dict(values)
    index = min(position for position, parameter in enumerate(rest)
                if parameter[0] in (PK, KO) and parameter[1] in bound)
    result, values = rest[:index], dict(values)
    for kind, name, optionality, *tail in rest[index:]:
        if kind == VP:
            continue
        if kind in (PK, KO):
            kind = KO
            if name in bound:
                optionality = 1
                values[name] = keywords[name]
        result.append([kind, name, optionality, *tail])
    return result, values


def compare(signature, original, parameters, values, *,
            same=operator.is_):
    if type(signature) is not PlainSignature:
        return f'bound signature has type {type(signature)}'
    if len(signature.parameters) != len(parameters):
        return (f'parameters are {[str(p) for p in signature.parameters]}, '
                f'should be {parameters}')
    sources = {parameter.name: parameter for parameter in original.parameters}
    for actual, (kind, name, optionality, *_) in zip(signature.parameters,
                                                     parameters):
        if (actual.name, actual.kind) != (name, ParameterKind(kind)):
            return (f'found parameter {actual.name} of kind {actual.kind!r}, '
                    f'should be {name} of kind {ParameterKind(kind)!r}')
        if not same(actual.annotation, sources[name].annotation):
            return f'annotation of {name} is changed'
        if type(actual) is not (OptionalParameter if optionality
                                else RequiredParameter):
            return f'parameter {name} has type {type(actual)}'
        if optionality:
            if actual.has_default is not (optionality == 1):
                return f'parameter {name} has has_default wrong'
            if optionality == 1 and not same(actual.default, values[name]):
                return (f'default of {name} is {actual.default!r}, '
                        f'should be {values[name]!r}')
    if not same(signature.returns, original.returns):
        return 'return annotation is changed'
    return None


class Value:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'

    def _forbidden(self, *_args):
        raise RuntimeError('value of an argument is touched')

    __eq__ = __ne__ = __bool__ = __hash__ = _forbidden


def to_arguments(call, tag):
    count, keywords = call
    return ([Value(f'{tag}{index}') for index in range(count)],
            {keyword: Value(f'{tag}{keyword}') for keyword in keywords})


def decide(case):
    """Chain of calls: bound one by one, the last one is a final call."""
    parameters, chain = case['parameters'], case['chain']
    original = signature = specs.build_plain({'parameters': parameters,
                                              'returns': '[int, "x"]'})
    values = {parameter.name: parameter.default
              for parameter in original.parameters
              if isinstance(parameter, OptionalParameter)
              and parameter.has_default}
    current = parameters
    all_args, all_kwargs = [], {}
    positionals = [parameter for parameter in parameters
                   if parameter[0] in (PO, PK)]
    has_variadic_keyword = any(parameter[0] == specs.VK
                               for parameter in parameters)
    for step, call in enumerate(chain):
        consumed = {parameter[1]
                    for parameter in positionals[:len(all_args)]
                    if parameter[0] == PK}
        if has_variadic_keyword and consumed & set(call[1]):
            # not expressible by parameters left,
            # ``inspect.signature`` of partials does the same
            raise Skip
        args, kwargs = to_arguments(call, f'v{step}_')
        before = specs.observe(signature)
        all_args = all_args + args
        all_kwargs = {**all_kwargs, **kwargs}
        for name, all_optional in (('expects', True), ('all_set', False)):
            actual = getattr(signature, name)(*args, **kwargs)
            expected = specs.accepts(parameters, all_args, all_kwargs,
                                     all_optional=all_optional)
            if actual is not expected:
                return (f'({specs.to_declaration(parameters)}) after binding '
                        f'{chain[:step]} with {call}: {name} is {actual!r}, '
                        f'should be {expected!r}')
        expected = specs.accepts(parameters, all_args, all_kwargs,
                                 all_optional=True)
        try:
            bound = signature.bind(*args, **kwargs)
        except TypeError:
            if expected:
                return (f'({specs.to_declaration(parameters)}) '
                        f'after {chain[:step]} refuses to bind {call}')
            if specs.observe(signature) != before:
                return 'failed bind changed the signature'
            return None
        except Exception as error:
            return f'bind raised {type(error)}'
        if not expected:
            return (f'({specs.to_declaration(parameters)}) '
                    f'after {chain[:step]} accepts to bind {call}')
        if specs.observe(signature) != before:
            return 'bind changed the signature'
        current, values = model_bind(current, values, call[0], kwargs)
        message = compare(bound, original, current, values)
        if message is not None:
            return (f'({specs.to_declaration(parameters)}) '
                    f'after binding {chain[:step + 1]}: {message}')
        signature = bound
    # binding at once
    if not any(set(call[1]) & set(other[1])
               for call, other in itertools.combinations(chain, 2)):
        at_once = original.bind(*all_args, **all_kwargs)
        message = compare(at_once, original, current, values)
        if message is not None:
            return (f'({specs.to_declaration(parameters)}) '
                    f'bound with {chain} at once: {message}')
    if not (any(call[0] or call[1] for call in chain)
            or specs.observe(signature) == specs.observe(original)):
        return 'binding nothing changes signature'
    return None


def decide_model(case):
    """Compares the model with the standard library."""
    parameters, call = case['parameters'], case['call']
    args, kwargs = to_arguments(call, 'v')
    if not specs.accepts(parameters, args, kwargs, all_optional=True):
        return None
    names_ = {parameter[1] for parameter in parameters
              if parameter[0] == PO}
    if names_ & set(kwargs):
        # ``inspect`` misinterprets these
        return None
    function = specs._compile(specs.to_declaration(parameters))
    expected = inspect.signature(functools.partial(function, *args, **kwargs))
    actual, values = model_bind(parameters, {}, call[0], kwargs)
    expected_parameters = [
        [parameter.kind.value, parameter.name,
         parameter.default is not parameter.empty]
        for parameter in expected.parameters.values()
    ]
    assert expected_parameters == [
        [kind, name, bool(optionality) and kind not in specs.VARIADIC]
        for kind, name, optionality, *_ in actual
    ], (case, expected)
    return None


SUITES = {'chain': decide, 'model': decide_model}


def run(ctx):
    size = 3 if ctx.quick else 4
    for shape in specs.enumerate_shapes(size, optionalities=(0, 1, 2)):
        parameters = specs.shape_to_parameters(shape)
        names = [parameter[1] for parameter in parameters] + ['z']
        calls = [[count, list(keywords)]
                 for count, keywords
                 in specs.enumerate_calls(names, len(parameters) + 1)]
        for call in calls:
            if all(optionality < 2 or kind in specs.VARIADIC
                   for kind, optionality in shape):
                ctx.decide('model', {'parameters': parameters, 'call': call})
            ctx.check('chain', {'parameters': parameters, 'chain': [call]},
                      bool(call[0] or call[1]))
        if len(shape) < size or not ctx.quick and len(shape) <= 3:
            if not all(optionality < 2 or kind in specs.VARIADIC
                       for kind, optionality in shape):
                continue
            for first, second in itertools.product(calls, calls):
                if specs.accepts(parameters, *to_arguments(first, 'v'),
                                 all_optional=True):
                    ctx.check('chain', {'parameters': parameters,
                                        'chain': [first, second]},
                              any(first) and any(second))

    @st.composite
    def cases(draw):
        parameters = draw(specs.parameters_lists(max_size=8))
        chain = []
        current = parameters
        for _ in range(draw(st.integers(1, 4))):
            # mostly acceptable calls
            if draw(st.integers(0, 5)):
                limit = sum(parameter[0] in (PO, PK) for parameter in current)
                if any(parameter[0] == VP for parameter in current):
                    limit += 2
                count = draw(st.integers(0, min(limit, 3)))
                rest = model_bind(current, {}, count, {})[0]
                pool = [parameter[1] for parameter in rest
                        if parameter[0] in (PK, KO)]
                if any(parameter[0] == specs.VK for parameter in current):
                    pool += [name for name in ['extra', 'self', 'args',
                                               'kwargs', 'has_variadic',
                                               'no identifier',
                                               *[parameter[1] for parameter
                                                 in current
                                                 if parameter[0] == PO]]
                             if name not in pool
                             and name not in [parameter[1]
                                              for parameter in current
                                              if parameter[0] in (PK, KO)]]
                call = [count, draw(st.lists(st.sampled_from(pool),
                                             unique=True, max_size=3)
                                    if pool else st.just([]))]
            else:
                call = specs.calls(draw, [parameter[1]
                                          for parameter in parameters])
            chain.append(call)
            current = model_bind(current, {}, call[0],
                                 dict.fromkeys(call[1]))[0]
        return {'parameters': parameters, 'chain': chain}

    ctx.search('chain', cases(),
               max_examples=4000 if ctx.quick else 60000,
               nontrivial=lambda case: (case['parameters']
                                        and any(map(any, case['chain']))),
               label=lambda case: f'chain of {len(case["chain"])}')
