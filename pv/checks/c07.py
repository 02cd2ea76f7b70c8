"""repr evaluates to an equal object."""
import enum
import sys
import types
import typing as t

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           RequiredParameter, signature_from_callable)
from pv import annotations, evaluation, pools, specs, together
from pv.checks import c05, c06
from pv.runner import Skip

RULE = ('Parameters and signatures generated from specifications (nested '
        'annotations in all spellings, defaults), bindings of them and '
        'signatures of standard library and user callables; oracle: repr is '
        'evaluated in a namespace of public classes and imported modules and '
        'compared with the original (type, equality both ways, parts not '
        'judged by the library, rendering of the result). Signatures with '
        'parts made up by the library are also rendered in new processes '
        'after random histories of other such queries. Non-trivial: '
        'contains an annotation which is not a bare name or a default '
        '(there were queries before); distinct by case.')
ASSUMPTIONS = ['annotations and defaults whose own reprs are not evaluable '
               'expressions (enum members, functions) are out of domain']

DEFAULTS = ['None', '0', '1', '-1', '2.5', '""', '"x"', 'b"x"', '()',
            '(1, 2)', '(1,)', '[]', '[1]', '[(1,), "x"]', '{}', '{"a": 1}',
            '...', 'frozenset({1})', '10**20', '2j', '((), [])', '[None]',
            'set()', 'NotImplemented', 'range(3)', '["x"]', '("x",)',
            'bytearray(b"y")', 'True', 'int', 'User', '(int, [str])',
            '"a\'b\\"c\\n"', 't.List[int]', '-0.5', 'slice(1, 2)',
            '[t.Optional[int], ()]', '(t.Union[int, str],)', 'User.Nested',
            'UserGeneric[int]', 't.Literal["a"]', 'type(None)', 'T']
LITERALS = ['0', '1', '-1', 'True', 'False', 'None', '""', '"a"', 'b"a"',
            '"it\'s"', '"None"']


def is_addressable(value):
    candidate = sys.modules.get(value.__module__)
    for part in value.__qualname__.split('.'):
        candidate = getattr(candidate, part, None)
    return candidate is value


def is_expressible(value):
    """Tells if the annotation or default has evaluable parts only."""
    if isinstance(value, (list, tuple)):
        return all(map(is_expressible, value))
    if isinstance(value, (t.ForwardRef, enum.Enum, types.FunctionType)):
        return False
    args, origin = t.get_args(value), t.get_origin(value)
    if origin is t.Literal:
        return not any(isinstance(arg, enum.Enum) for arg in args)
    if args:
        return (all(map(is_expressible, args))
                and (not isinstance(origin, type) or is_addressable(origin)))
    if isinstance(value, t.TypeVar):
        return all(map(is_expressible, [*value.__constraints__,
                                        value.__bound__]))
    if isinstance(value, t.NewType):
        return is_addressable(value)
    if isinstance(value, type):
        return is_addressable(value) or value in (type(None), type(...))
    return True


def check_value(value):
    text = repr(value)
    if not all(map(is_expressible, c06.leaves(value))):
        raise Skip
    try:
        restored = evaluation.evaluate(text)
    except Exception as error:
        return f'{text} can not be evaluated: {error!r}'
    if type(restored) is not type(value):
        return f'{text} evaluates to {type(restored)}'
    if not (restored == value and value == restored):
        return f'{text} evaluates to unequal {restored!r}'
    if c06.parts(restored) != c06.parts(value):
        return f'{text} evaluates to {restored!r} with different parts'
    if repr(restored) != text:
        return f'{text} evaluates to {restored!r} rendered differently'
    return None


def decide(case):
    value = (c05.build(case['spec']) if isinstance(case['spec'], dict)
             else c05.build_parameter(case['spec']))
    for count, keywords in case.get('bind', []):
        args, kwargs = [[1]] * count, dict.fromkeys(keywords, (2, int))
        if value.expects(*args, **kwargs):
            value = value.bind(*args, **kwargs)
    return check_value(value)


def decide_annotation(case):
    value = c05.build_parameter([3, 'x', 0, case['annotation'], None])
    return check_value(value)


def decide_callable(case):
    path = case['callable']
    value = (pools.partials()[path] if ':' not in path
             else pools.resolve(path))
    return check_value(signature_from_callable(value))


SUITES = {'generated': decide, 'annotation': decide_annotation,
          'callable': decide_callable, 'together': together.decide}


def to_evaluable(tree):
    """Replaces parts which have no evaluable representation."""
    if isinstance(tree, list) and tree:
        if tree[0] == 'literal':
            return ['literal', [value for value in tree[1]
                                if value in LITERALS] or ['"it\'s"']]
        if tree[0] == 'union':
            return annotations.to_union(list(map(to_evaluable, tree[1])))
    if isinstance(tree, list):
        return list(map(to_evaluable, tree))
    return tree


@st.composite
def spell(draw, tree):
    def choose(options):
        options = [option for option in options
                   if not (isinstance(option, str) and 'NewType("' in option)
                   ] or options
        return draw(st.sampled_from(options))
    tree = to_evaluable(tree)
    if 'NT2' in annotations.dumps(tree):
        tree = ['atom', 'int']
    return [annotations.render(tree, choose), annotations.key(tree)]


trees = annotations.trees


@st.composite
def parameters(draw, max_size=5):
    return [[*parameter[:3], draw(spell(parameter[3])), parameter[4]]
            for parameter in draw(specs.parameters_lists(
                    max_size=max_size, annotations=trees,
                    defaults=specs.defaults_from(DEFAULTS),
            ))]


@st.composite
def plains(draw, max_size=5):
    return {'parameters': draw(parameters(max_size=max_size)),
            'returns': draw(spell(draw(trees)))}


@st.composite
def cases(draw):
    choice = draw(st.integers(0, 3))
    if choice == 0:
        return {'spec': draw(parameters(max_size=1).filter(bool))[0]}
    spec = (draw(plains())
            if choice < 3
            else {'signatures': draw(st.lists(plains(max_size=3), min_size=2,
                                              max_size=3))})
    bind = [specs.calls(draw, ['a', 'b', 'c', 'key'], max_args=2, extra=False)
            for _ in range(draw(st.integers(0, 2)))]
    return {'spec': spec, 'bind': bind}


def is_nontrivial(case):
    text = annotations.dumps(case)
    return '[' in text.replace('[[', '') and ('t.' in text or '|' in text)


def run(ctx):
    for path in [*pools.STDLIB, *pools.partials(),
                 'pv.pools:user_function']:
        ctx.check('callable', {'callable': path}, True)
    scale = 1 if ctx.quick else 12
    ctx.search('annotation',
               trees.flatmap(spell).map(lambda pair: {'annotation': pair}),
               max_examples=2500 * scale, nontrivial=is_nontrivial, offset=1)
    ctx.search('generated', cases(), max_examples=2000 * scale,
               nontrivial=is_nontrivial, offset=2,
               label=lambda case: ('parameter'
                                   if isinstance(case['spec'], list)
                                   else ('overloaded'
                                         if 'signatures' in case['spec']
                                         else 'plain')))
    together.run(ctx, 'rendered')
