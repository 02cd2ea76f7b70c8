"""expects/all_set of a plain signature against Python itself."""
from hypothesis import strategies as st

from pv import specs

RULE = ('Every legal parameter list up to a bound crossed with every number '
        'of positional arguments and subset of keyword names (exhaustive), '
        'plus generated longer ones with unusual names and values; oracle: '
        'a compiled Python function with these parameters is called '
        '(for "expects" - with every parameter made optional). Non-trivial: '
        'the call passes at least one argument to a signature with at least '
        'one parameter; distinct by parameter list and call.')
ASSUMPTIONS = ['CPython call machinery is the reference']


def to_arguments(call):
    count, keywords = call
    values = [specs.HOSTILE, 0, None, [], {}, 'x']
    return ([values[index % len(values)] for index in range(count)],
            {keyword: values[index % len(values)]
             for index, keyword in enumerate(keywords)})


def decide(case):
    parameters = case['parameters']
    signature = specs.build_plain({'parameters': parameters,
                                   'returns': 'None'})
    before = specs.observe(signature)
    for call in case['calls']:
        args, kwargs = to_arguments(call)
        keys = list(kwargs)
        for name, all_optional in (('expects', True), ('all_set', False)):
            actual = getattr(signature, name)(*args, **kwargs)
            expected = specs.accepts(parameters, args, kwargs,
                                     all_optional=all_optional)
            if actual is not expected:
                return (f'({specs.to_declaration(parameters)}) with '
                        f'{call[0]} positional and {call[1]} keyword '
                        f'arguments: {name} is {actual!r}, '
                        f'should be {expected!r}')
        if list(kwargs) != keys:
            return 'arguments are changed'
    if specs.observe(signature) != before:
        return 'signature is changed by a query'
    return None


SUITES = {'calls': decide}


def run(ctx):
    size = 4 if ctx.quick else 5
    for shape in specs.enumerate_shapes(size):
        parameters = specs.shape_to_parameters(shape)
        names = [parameter[1] for parameter in parameters] + ['z']
        calls = [[count, list(keywords)]
                 for count, keywords
                 in specs.enumerate_calls(names, len(parameters) + 1)]
        case = {'parameters': parameters, 'calls': calls}
        if ctx.decide('calls', case):
            # report the minimal call
            for call in calls:
                ctx.check('calls', {'parameters': parameters,
                                    'calls': [call]}, True)
        for call in calls:
            ctx.count(None, bool(parameters) and (call[0] or call[1]),
                      key=f'{shape}{call}',
                      sample={'declaration':
                              specs.to_declaration(parameters),
                              'call': call})
    ctx.notes['exhaustive_bound'] = (f'all lists of up to {size} parameters, '
                                     'all calls')

    @st.composite
    def cases(draw):
        parameters = draw(specs.parameters_lists(max_size=9))
        names = [parameter[1] for parameter in parameters]
        return {'parameters': parameters,
                'calls': [specs.calls(draw, names, max_args=8)
                          for _ in range(draw(st.integers(1, 4)))]}

    ctx.search('calls', cases(),
               max_examples=4000 if ctx.quick else 60000,
               nontrivial=lambda case: (case['parameters']
                                        and any(map(any, case['calls']))))
