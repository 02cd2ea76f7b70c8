"""Signatures of partial objects."""
import functools
import inspect
import itertools

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, PlainSignature,
                           signature_from_callable)
from pv import pools, specs, stdlib, usercode
from pv.checks import c02
from pv.runner import Skip
from pv.specs import PK, PO, VK

RULE = ('Partial objects (and chains of them, flattened by functools or not, '
        'of its subclass, with keywords added afterwards) over every callable '
        'of the standard library and over generated functions, methods and '
        'classes, with positional and keyword arguments chosen among declared '
        'and foreign ones. Oracles: bind of the signature of the wrapped '
        'callable, the model of partial application used for C02 applied to '
        'each of its alternatives, and calling user-defined ones. '
        'Non-trivial: at least one argument; distinct by case.')
ASSUMPTIONS = []


class Partial(functools.partial):
    pass


class Value:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


def make_value(kind, name):
    """Half of the values are unlike any other, other half is special."""
    return (Value(name) if kind is None
            else eval(SPECIAL[kind], {'inspect': inspect}))


SPECIAL = ['None', '0', 'False', '""', '()', '[]', '{}', '...', 'int',
           'NotImplemented', 'inspect.Parameter.empty', 'object()', '-1.5']


def attempt(function, *args, **kwargs):
    try:
        return function(*args, **kwargs)
    except (TypeError, ValueError) as error:
        return error


def make(value, chain):
    """Returns partial, all the arguments it has and levels it consists of."""
    args, kwargs, levels = [], {}, []
    for index, step in enumerate(chain):
        kinds = itertools.cycle(step.get('values') or [None])
        step_args = [make_value(next(kinds), f'v{index}_{position}')
                     for position in range(step['args'])]
        step_kwargs = {name: make_value(next(kinds), f'v{index}_{name}')
                       for name in step['kwargs']}
        value = (Partial if step.get('subclass') else functools.partial)(
                value, *step_args, **step_kwargs
        )
        if step.get('attribute'):
            # prevents flattening
            value.attribute = None
        if step.get('late'):
            late = Value('late')
            value.keywords[step['late']] = late
            step_kwargs[step['late']] = late
        args += step_args
        kwargs = {**kwargs, **step_kwargs}
        levels.append((step_args, step_kwargs))
    return value, args, kwargs, levels


def to_spec(plain):
    return [[parameter.kind.value, parameter.name,
             (1 if parameter.has_default else 2)
             if isinstance(parameter, OptionalParameter) else 0, None, None]
            for parameter in plain.parameters]


def alternatives(signature):
    return getattr(signature, 'signatures', (signature,))


def decide_against_model(wrapped, levels, found):
    """Applies model of binding level by level."""
    current = [(plain, to_spec(plain),
                {parameter.name: parameter.default
                 for parameter in plain.parameters
                 if isinstance(parameter, OptionalParameter)
                 and parameter.has_default})
               for plain in alternatives(wrapped)]
    for args, kwargs in levels:
        survived = []
        for plain, spec, values in current:
            if not specs.accepts(spec, args, kwargs, all_optional=True):
                continue
            spec, values = c02.model_bind(spec, values, len(args), kwargs)
            survived.append((plain, spec, values))
        current = survived
    if not current:
        return (None if isinstance(found, TypeError)
                else f'arguments are not acceptable, but found {found!r}')
    if isinstance(found, Exception):
        return f'arguments are acceptable, but found {found!r}'
    plains = alternatives(found)
    if len(plains) != len(current):
        return (f'{len(current)} alternatives accept arguments, '
                f'found {len(plains)}: {found}')
    for plain, (original, spec, values) in zip(plains, current):
        problem = c02.compare(plain, original, spec, values, same=same)
        if problem:
            return problem
    return None


def same(left, right):
    # annotations are made anew by each query
    return left is right or repr(left) == repr(right)


def decide_value(value, case):
    partial, args, kwargs, levels = make(value, case['chain'])
    merged = partial
    flattened = []
    while isinstance(merged, functools.partial):
        flattened.append((list(merged.args), dict(merged.keywords)))
        merged = merged.func
    levels = flattened[::-1]
    wrapped = attempt(signature_from_callable, merged)
    found = attempt(signature_from_callable, partial)
    if isinstance(wrapped, Exception):
        return (None if isinstance(found, Exception)
                else f'wrapped callable has no signature, but found {found}')
    expected = wrapped
    try:
        for step_args, step_kwargs in levels:
            expected = expected.bind(*step_args, **step_kwargs)
    except TypeError as error:
        expected = error
    if isinstance(expected, Exception):
        if not isinstance(found, TypeError):
            return (f'signature {wrapped} does not accept {levels}, '
                    f'but found {found!r}')
    elif isinstance(found, Exception):
        return f'found {found!r}, should be {expected}'
    elif str(expected) != str(found) or (
            'nan' not in str(expected) and expected != found):
        return f'found {found}, should be {expected}'
    problem = decide_against_model(wrapped, levels, found)
    if problem:
        return problem
    if attempt_equal(partial, found) is False:
        return 'result of repeated query is not equal'
    return None


def attempt_equal(partial, found):
    again = attempt(signature_from_callable, partial)
    if isinstance(found, Exception):
        return type(again) is type(found)
    return str(again) == str(found)


def decide_stdlib(case):
    try:
        value = stdlib.resolve(case['path'])
    except (AttributeError, KeyError, ImportError):
        raise Skip
    if not callable(value):
        raise Skip
    return decide_value(value, case)


def decide_user(case):
    renderer = usercode.Renderer()
    spec, kind = case['function'], case['kind']
    lines, _ = renderer.function({**spec, 'name': 'method'}
                                 if kind != 'function' else spec,
                                 indent='' if kind == 'function' else '    ',
                                 name=(None if kind == 'function' else
                                       '__init__' if kind == 'class'
                                       else 'method'),
                                 first=('self_' if kind in ('method', 'class')
                                        else 'cls_' if kind == 'classmethod'
                                        else None),
                                 decorator=(kind + '_' if kind in (
                                         'classmethod', 'staticmethod'
                                 ) else None))
    renderer.objects.update(classmethod_=classmethod,
                            staticmethod_=staticmethod)
    if kind == 'function':
        value = renderer.execute(lines, usercode.FRESH)[spec['name']]
    else:
        cls = renderer.execute(['class Owner:', *lines],
                               usercode.FRESH)['Owner']
        value = (cls if kind == 'class'
                 else cls().method if kind == 'method' else cls.method)
    problem = decide_value(value, case)
    if problem:
        return problem
    partial, args, kwargs, levels = make(value, case['chain'])
    found = attempt(signature_from_callable, partial)
    final = case['call']
    final_args = [None] * final[0]
    final_kwargs = dict.fromkeys(final[1])
    parameters = spec['parameters']
    has_variadic_keyword = any(parameter[0] == VK for parameter in parameters)
    positionals = [parameter for parameter in parameters
                   if parameter[0] in (PO, PK)]
    consumed = {parameter[1] for parameter in positionals[:len(args)]
                if parameter[0] == PK}
    if has_variadic_keyword and consumed & set(final_kwargs):
        return None
    try:
        result = partial(*final_args, **final_kwargs)
        if hasattr(result, 'close'):
            result.close()
    except TypeError:
        callable_ = False
    else:
        callable_ = True
    if isinstance(found, Exception):
        return (f'is callable with {final}, but found {found!r}'
                if callable_ else None)
    if found.all_set(*final_args, **final_kwargs) is not callable_:
        return (f'signature {found} says {not callable_} for {final}, '
                f'actually it is {callable_}')
    return None


SUITES = {'stdlib': decide_stdlib, 'user': decide_user}


@st.composite
def chains(draw, names):
    result = []
    pool = [*dict.fromkeys(names), 'unknown', 'self']
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        step = {'args': draw(st.sampled_from([0, 0, 1, 1, 2, 3])),
                'kwargs': draw(st.lists(st.sampled_from(pool), unique=True,
                                        max_size=2))}
        step['values'] = draw(st.lists(
                st.one_of(st.none(), st.integers(0, len(SPECIAL) - 1)),
                max_size=4
        ))
        option = draw(st.integers(0, 8))
        if option == 0:
            step['subclass'] = True
        elif option == 1:
            step['attribute'] = True
        elif option == 2:
            step['late'] = draw(st.sampled_from(pool))
        result.append(step)
    return result


def has_arguments(case):
    return any(step['args'] or step['kwargs'] for step in case['chain'])


def run(ctx):
    paths = sorted(stdlib.callables())
    names_by_path = {}

    def parameters_names(path):
        if path not in names_by_path:
            found = attempt(signature_from_callable,
                            stdlib.resolve(path))
            names_by_path[path] = (
                [] if isinstance(found, Exception)
                else sorted({parameter.name for plain in alternatives(found)
                             for parameter in plain.parameters})
            )
        return names_by_path[path]

    popular = [path + '@' * ('.' in path.partition(':')[2])
               for path in pools.STDLIB]

    @st.composite
    def stdlib_cases(draw):
        path = draw(st.one_of(st.sampled_from(paths),
                              st.sampled_from(popular)))
        names = parameters_names(path)
        return {'path': path, 'chain': draw(chains(names))}

    @st.composite
    def user_cases(draw):
        function = draw(usercode.functions(
                names_=st.just('function'), taken=('self_', 'cls_'),
                max_size=5
        ))
        names = [parameter[1] for parameter in function['parameters']]
        return {'kind': draw(st.sampled_from(
                ['function', 'function', 'method', 'class', 'classmethod',
                 'staticmethod']
        )),
                'function': {**function, 'async': False},
                'chain': draw(chains(names)),
                'call': specs.calls(draw, names, max_args=4)}

    ctx.search('stdlib', stdlib_cases(),
               max_examples=3500 if ctx.quick else 120000,
               nontrivial=has_arguments,
               label=lambda case: f'stdlib, {len(case["chain"])} levels')
    ctx.search('user', user_cases(),
               max_examples=2500 if ctx.quick else 80000,
               nontrivial=has_arguments, offset=1,
               label=lambda case: f'user {case["kind"]}')
