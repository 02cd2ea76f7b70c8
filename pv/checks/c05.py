"""Equality and hashing."""
import inspect

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter)
from pv import annotations, names, specs

RULE = ('Pairs of parameters and signatures: respellings of the same '
        'definition (annotations respelled by typing/builtin generics, union '
        'styles and orders, literal orders, type variables defined anew) and '
        'results of single edits (kind, name, optionality, default, '
        'annotation, returns, order, number of parameters or alternatives). '
        'Oracle: equality of canonical keys of what was generated; hashes of '
        'equal objects, symmetry, reflexivity, negation, foreign objects. '
        'Also triples of annotation respellings for transitivity. '
        'Non-trivial: signatures or parameters differ in spelling; '
        'distinct by case.')
ASSUMPTIONS = ['defaults are taken from a pool of values pairwise different '
               'by Python equality (1, True and 1.0 are not mixed), '
               'self-unequal defaults (nan) are out of domain',
               'TypeVarTuple objects are compared by identity']

DEFAULTS = ['None', '0', '1', '-1', '2.5', '""', '"x"', 'b"x"', '()',
            '(1, 2)', '(1,)', '[]', '[1]', '[(1,), "x"]', '{}', '{"a": 1}',
            '...', 'Color.RED', 'Color.BLUE', 'frozenset({1})', '10**20',
            'float("inf")', 'len', '2j', '((), [])', '[None]', 'set()',
            'NotImplemented', 'range(3)', '["x"]', '("x",)', '(1, 2, 3)',
            'bytearray(b"y")']


def build_parameter(spec):
    kind, name, optionality, annotation, default = spec
    annotation, kind = names.evaluate(annotation[0]), ParameterKind(kind)
    if optionality == 0:
        return RequiredParameter(annotation=annotation, kind=kind, name=name)
    return OptionalParameter(annotation=annotation, kind=kind, name=name,
                             **({'default': names.evaluate(default)}
                                if optionality == 1
                                else {}))


def build(spec):
    if 'signatures' in spec:
        return OverloadedSignature(*map(build, spec['signatures']))
    return PlainSignature(*map(build_parameter, spec['parameters']),
                          returns=names.evaluate(spec['returns'][0]))


def parameter_key(spec):
    kind, name, optionality, annotation, default = spec
    return [kind, name, optionality, annotation[1],
            default if optionality == 1 else None]


def key(spec):
    if 'signatures' in spec:
        return list(map(key, spec['signatures']))
    return {'parameters': list(map(parameter_key, spec['parameters'])),
            'returns': spec['returns'][1]}


class AlwaysEqual:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


FOREIGN = [None, 0, '', (), object(), int, inspect.signature(lambda x: x),
           inspect.Parameter('x', inspect.Parameter.KEYWORD_ONLY),
           PlainSignature, ParameterKind.KEYWORD_ONLY]


def decide_objects(left, right, expected, description):
    for first, second, side in ((left, right, 'left == right'),
                                (right, left, 'right == left')):
        actual = first == second
        if actual is not expected:
            return (f'{side} is {actual!r}, should be {expected}: '
                    f'{description} {left!r} and {right!r}')
        if (first != second) is not (not expected):
            return f'!= is not negation of ==: {left!r} and {right!r}'
    if expected:
        try:
            left_hash, right_hash = hash(left), hash(right)
        except TypeError:
            pass
        else:
            if left_hash != right_hash:
                return f'hashes of equal {left!r} and {right!r} differ'
    for value in (left, right):
        if (value == value) is not True or (value != value) is not False:
            return f'{value!r} does not equal to itself'
        for foreign in FOREIGN:
            if ((value == foreign) is not False
                    or (foreign == value) is not False
                    or (value != foreign) is not True):
                return f'{value!r} compared with {foreign!r}'
        if value != AlwaysEqual() or not value == AlwaysEqual():
            return f'{value!r} does not delegate to a foreign object'
    return None


def decide(case):
    left, right = build(case['left']), build(case['right'])
    expected = key(case['left']) == key(case['right'])
    return decide_objects(left, right, expected, case['edit'])


def decide_parameters(case):
    left, right = (build_parameter(case['left']),
                   build_parameter(case['right']))
    expected = parameter_key(case['left']) == parameter_key(case['right'])
    message = decide_objects(left, right, expected, case['edit'])
    if message is None and left == PlainSignature(left, returns=None):
        message = 'parameter equals to a signature'
    return message


def decide_annotations(case):
    """All pairs of annotations spelled differently."""
    parameters = [RequiredParameter(annotation=names.evaluate(source),
                                    kind=ParameterKind.KEYWORD_ONLY, name='x')
                  for source, _ in case['annotations']]
    for left, (left_source, left_key) in zip(parameters,
                                             case['annotations']):
        for right, (right_source, right_key) in zip(parameters,
                                                    case['annotations']):
            actual = left == right
            if actual is not (left_key == right_key):
                return (f'annotations {left_source} and {right_source} '
                        f'compare as {actual!r}')
            if actual and hash(left) != hash(right):
                return (f'annotations {left_source} and {right_source} '
                        'compare equal, but hashes differ')
    return None


SUITES = {'signatures': decide, 'parameters': decide_parameters,
          'annotations': decide_annotations}


@st.composite
def parameters(draw, max_size=5):
    result = draw(specs.parameters_lists(
            max_size=max_size, annotations=annotations.trees,
            defaults=st.sampled_from(DEFAULTS),
            names_=st.sampled_from(specs.NAMES[:12])
    ))
    return result


@st.composite
def spell(draw, parameters_):
    return [[kind, name, optionality,
             draw(annotations.rendered(annotation)), default]
            for kind, name, optionality, annotation, default in parameters_]


def edit_tree(draw, tree):
    """Another annotation, preferably close to the given one."""
    kind, *rest = tree
    options = ['replace']
    if kind == 'union':
        options += ['drop', 'add', 'inner']
    elif kind == 'gen' and rest[1]:
        options += ['origin', 'inner', 'bare']
        if len(rest[1]) > 1:
            options.append('swap')
    elif kind == 'literal':
        options += ['literal']
    elif kind == 'callable':
        options += ['returns', 'args']
    elif kind in ('vartuple', 'annotated'):
        options += ['unwrap', 'wrapped']
    option = draw(st.sampled_from(options))
    if option == 'drop':
        members = list(rest[0])
        members.pop(draw(st.integers(0, len(members) - 1)))
        return annotations.to_union(members)
    if option == 'add':
        return annotations.to_union([*rest[0], ['atom', draw(
                st.sampled_from(sorted(annotations.ATOMS))
        )]])
    if option == 'inner':
        if kind == 'union':
            members = list(rest[0])
            index = draw(st.integers(0, len(members) - 1))
            changed = edit_tree(draw, members[index])
            if changed[0] == 'union':
                return changed
            members[index] = changed
            return annotations.to_union(members)
        args = list(rest[1])
        index = draw(st.integers(0, len(args) - 1))
        args[index] = edit_tree(draw, args[index])
        return ['gen', rest[0], args]
    if option == 'origin':
        arity = annotations.GENERICS[rest[0]][0]
        same = [name for name, (other, _) in annotations.GENERICS.items()
                if other == arity]
        return ['gen', draw(st.sampled_from(same)), rest[1]]
    if option == 'bare':
        return ['bare', rest[0]]
    if option == 'swap':
        return ['gen', rest[0], rest[1][::-1]]
    if option == 'literal':
        return ['literal', draw(st.lists(
                st.sampled_from(annotations.LITERALS), min_size=1,
                max_size=4, unique=True
        ))]
    if option == 'returns':
        return ['callable', rest[0], edit_tree(draw, rest[1])]
    if option == 'args':
        return ['callable', draw(st.one_of(
                st.just('...'), st.just('P'),
                st.lists(st.just(['atom', 'int']), max_size=3)
        )), rest[1]]
    if option == 'unwrap':
        return rest[0]
    if option == 'wrapped':
        return [kind, edit_tree(draw, rest[0]), *rest[1:]]
    return ['atom', draw(st.sampled_from(sorted(annotations.ATOMS)))]


def edit_parameters(draw, parameters_):
    """Applies single edit, keeps the list legal."""
    result = [list(parameter) for parameter in parameters_]
    options = ['add']
    if result:
        options += ['kind', 'name', 'optionality', 'default', 'annotation',
                    'annotation', 'remove', 'swap']
    option = draw(st.sampled_from(options))
    index = draw(st.integers(0, len(result) - 1)) if result else 0
    if option == 'add':
        result.insert(index, [draw(st.integers(0, 4)), 'added', 2,
                              ['atom', 'int'], None])
    elif option == 'kind':
        result[index][0] = draw(st.integers(0, 4))
    elif option == 'name':
        result[index][1] = 'renamed'
    elif option == 'optionality':
        if result[index][0] not in specs.VARIADIC:
            result[index][2] = draw(st.integers(0, 2))
            result[index][4] = 'None'
    elif option == 'default':
        if result[index][2] == 1:
            result[index][4] = draw(st.sampled_from(DEFAULTS))
    elif option == 'annotation':
        result[index][3] = edit_tree(draw, result[index][3])
    elif option == 'remove':
        result.pop(index)
    elif option == 'swap':
        other = draw(st.integers(0, len(result) - 1))
        result[index], result[other] = result[other], result[index]
    if not specs.is_legal(result) or any(
            not parameter[2] and parameter[0] in specs.VARIADIC
            or parameter[2] == 1 and parameter[0] in specs.VARIADIC
            for parameter in result
    ):
        return [list(parameter) for parameter in parameters_], 'none'
    return result, option


@st.composite
def plain_pairs(draw):
    left = draw(parameters())
    returns = draw(annotations.trees)
    right, right_returns, edit = left, returns, 'none'
    choice = draw(st.integers(0, 3))
    if choice == 1:
        right_returns, edit = edit_tree(draw, returns), 'returns'
    elif choice > 1:
        right, edit = edit_parameters(draw, left)
    return {'left': {'parameters': draw(spell(left)),
                     'returns': draw(annotations.rendered(returns))},
            'right': {'parameters': draw(spell(right)),
                      'returns': draw(annotations.rendered(right_returns))},
            'edit': edit}


@st.composite
def overloaded_pairs(draw):
    left = [(draw(parameters(max_size=2)), draw(annotations.trees))
            for _ in range(draw(st.integers(2, 4)))]
    right, edit = list(left), 'none'
    index = draw(st.integers(0, len(left) - 1))
    choice = draw(st.integers(0, 6))
    if choice == 1:
        right.insert(index, right[index])
        edit = 'duplicate'
    elif choice == 2 and len(right) > 2:
        right.pop(index)
        edit = 'remove'
    elif choice == 3:
        other = draw(st.integers(0, len(left) - 1))
        right[index], right[other] = right[other], right[index]
        edit = 'swap'
    elif choice == 4:
        edited, edit = edit_parameters(draw, right[index][0])
        right[index] = (edited, right[index][1])
    elif choice == 5:
        right[index] = (right[index][0],
                        edit_tree(draw, right[index][1]))
        edit = 'returns'

    def to_spec(signatures):
        return {'signatures': [
            {'parameters': draw(spell(parameters_)),
             'returns': draw(annotations.rendered(returns))}
            for parameters_, returns in signatures
        ]}

    if choice == 6:
        edit = 'plain'
        return {'left': to_spec(left), 'right': to_spec(left[:1])[
            'signatures'][0], 'edit': edit}
    return {'left': to_spec(left), 'right': to_spec(right), 'edit': edit}


@st.composite
def parameters_pairs(draw):
    left = draw(parameters(max_size=1).filter(bool))
    right, edit = edit_parameters(draw, left)
    if len(right) != 1 or draw(st.booleans()):
        right, edit = left, 'none'
    return {'left': draw(spell(left))[0], 'right': draw(spell(right))[0],
            'edit': edit}


@st.composite
def annotations_groups(draw):
    tree = draw(annotations.trees)
    result = [tree, tree, tree]
    result += [edit_tree(draw, tree) for _ in range(draw(st.integers(0, 3)))]
    return {'annotations': [draw(annotations.rendered(tree))
                            for tree in result]}


def run(ctx):
    scale = 1 if ctx.quick else 12
    differs = (lambda case: case['left'] != case['right'])
    label = (lambda case: 'edit: ' + case['edit'])
    ctx.search('annotations', annotations_groups(),
               max_examples=2500 * scale, offset=1,
               nontrivial=lambda case: len({
                   source for source, _ in case['annotations']
               }) > 1)
    ctx.search('parameters', parameters_pairs(), max_examples=1200 * scale,
               nontrivial=differs, label=label, offset=2)
    ctx.search('signatures', plain_pairs(), max_examples=1200 * scale,
               nontrivial=differs, label=label, offset=3)
    ctx.search('signatures', overloaded_pairs(), max_examples=700 * scale,
               nontrivial=differs, label=label, offset=4)
