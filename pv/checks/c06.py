"""Pickling and copying."""
import copy
import pickle

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           RequiredParameter, signature_from_callable)
from pv import annotations, elsewhere, names, pools, specs, together
from pv.checks import c05
from pv.runner import Skip

RULE = ('Parameters and signatures generated from specifications with '
        'picklable annotations and defaults, bindings of them, and '
        'signatures of standard library and user callables; each is pickled '
        'by protocols 2..5 (pure Python and C implementations), copied '
        'shallowly and deeply, also nested in containers. Oracle: type, '
        'equality in both directions, observable parts, answers to '
        'expects/all_set/bind, snapshot of the original. Pickles are also '
        'restored in a process with another randomization of hashes: should '
        'equal to, have the same hash as and be found among objects defined '
        'there by the same specification. Signatures with parts made up by '
        'the library (nothing at runtime is like them) are also pickled in new processes after random histories of other such '
        'queries: what is restored when queried alone should be restored '
        'in any history. Non-trivial: has '
        'at least one parameter (there were queries before); '
        'distinct by case.')
ASSUMPTIONS = ['objects whose annotations or defaults are not picklable '
               'themselves are out of domain (counted as skipped)',
               'protocols 0 and 1 do not support slotted classes at all']

CALLS = [(0, []), (1, []), (2, []), (3, []), (0, ['a']), (1, ['b']),
         (1, ['unknown']), (0, ['a', 'b', 'c']), (2, ['self', 'key'])]


def to_transformations():
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield (f'pickle protocol {protocol}',
               lambda value, protocol=protocol: pickle.loads(
                       pickle.dumps(value, protocol)
               ))
    yield ('pure Python pickle',
           lambda value: pickle._loads(pickle._dumps(value)))
    yield ('nested pickle',
           lambda value: pickle.loads(pickle.dumps({'x': [value, value]}))[
               'x'][1])
    yield 'copy', copy.copy
    yield 'deepcopy', copy.deepcopy
    yield 'nested deepcopy', lambda value: copy.deepcopy([(value,)])[0][0]
    yield ('pickle of deepcopy',
           lambda value: pickle.loads(pickle.dumps(copy.deepcopy(value))))


TRANSFORMATIONS = list(to_transformations())


def parts(value):
    """Observable parts not judged by equality operators of the library."""
    if isinstance(value, OverloadedSignature):
        return ['overloaded', *map(parts, value.signatures)]
    if isinstance(value, RequiredParameter):
        return ['required', value.name, value.kind, repr(value.kind)]
    if isinstance(value, OptionalParameter):
        return ['optional', value.name, value.kind, value.has_default,
                (type(value.default) if value.has_default else None),
                hasattr(value, '_default')]
    return ['plain', type(value.parameters), *map(parts, value.parameters)]


def leaves(value):
    if isinstance(value, OverloadedSignature):
        for signature in value.signatures:
            yield from leaves(signature)
    elif isinstance(value, (OptionalParameter, RequiredParameter)):
        yield value.annotation
        if isinstance(value, OptionalParameter) and value.has_default:
            yield value.default
    else:
        for parameter in value.parameters:
            yield from leaves(parameter)
        yield value.returns


def check_value(value):
    for leaf in leaves(value):
        try:
            restored = pickle.loads(pickle.dumps(leaf))
            pickle._loads(pickle._dumps(leaf))
            copy.deepcopy(leaf)
        except Exception:
            raise Skip
        if isinstance(leaf, object) and repr(restored) != repr(leaf):
            raise Skip
    is_signature = not isinstance(value, (OptionalParameter,
                                          RequiredParameter))
    before = (specs.observe if is_signature
              else specs.observe_parameter)(value)
    for name, transform in TRANSFORMATIONS:
        try:
            restored = transform(value)
        except Exception as error:
            return f'{name} of {value!r} failed: {error!r}'
        if type(restored) is not type(value):
            return f'{name} of {value!r} has type {type(restored)}'
        if not (restored == value and value == restored):
            return f'{name} of {value!r} is unequal {restored!r}'
        if hash(restored) != hash(value):
            return f'{name} of {value!r} has different hash'
        if parts(restored) != parts(value):
            return f'{name} of {value!r} has different parts {restored!r}'
        for original, copied in zip(leaves(value), leaves(restored)):
            if repr(original) != repr(copied):
                return f'{name} turns {original!r} into {copied!r}'
        if str(restored) != str(value) or repr(restored) != repr(value):
            return f'{name} of {value!r} is rendered as {restored!r}'
        if is_signature:
            for count, keywords in CALLS:
                args, kwargs = [0] * count, dict.fromkeys(keywords, 0)
                for method in ('expects', 'all_set'):
                    if (getattr(restored, method)(*args, **kwargs)
                            is not getattr(value, method)(*args, **kwargs)):
                        return (f'{name} of {value!r} answers {method} '
                                'differently')
                if value.expects(*args, **kwargs):
                    if not (restored.bind(*args, **kwargs)
                            == value.bind(*args, **kwargs)):
                        return f'{name} of {value!r} binds differently'
        after = (specs.observe if is_signature
                 else specs.observe_parameter)(value)
        if after != before:
            return f'{name} changes the original {value!r}'
    return None


def build(case):
    if 'callable' in case:
        path = case['callable']
        return signature_from_callable(pools.partials()[path]
                                       if ':' not in path
                                       else pools.resolve(path))
    value = (c05.build(case['spec']) if isinstance(case['spec'], dict)
             else c05.build_parameter(case['spec']))
    for count, keywords in case.get('bind', []):
        args, kwargs = [[1]] * count, dict.fromkeys(keywords, (2,))
        if not value.expects(*args, **kwargs):
            continue
        value = value.bind(*args, **kwargs)
    return value


_elsewhere = []


def check_elsewhere(case, value):
    if not _elsewhere:
        _elsewhere.append(elsewhere.Elsewhere(1))
    return _elsewhere[0].compare(case, [
        *[pickle.dumps(value, protocol)
          for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1)],
        pickle._dumps(value)
    ])


def decide(case):
    value = build(case)
    return check_value(value) or check_elsewhere(case, value)


def decide_callable(case):
    signature = build(case)
    message = check_value(signature) or check_elsewhere(case, signature)
    if message is not None:
        return message
    plain = (signature.signatures
             if isinstance(signature, OverloadedSignature)
             else [signature])
    for sub_signature in plain:
        for parameter in sub_signature.parameters:
            try:
                message = check_value(parameter)
            except Skip:
                continue
            if message is not None:
                return message
    return None


SUITES = {'generated': decide, 'callable': decide_callable,
          'together': together.decide}


def is_picklable(source):
    try:
        value = names.evaluate(source)
        return (repr(pickle.loads(pickle.dumps(value))) == repr(value)
                and repr(pickle._loads(pickle._dumps(value))) == repr(value)
                and repr(copy.deepcopy(value)) == repr(value))
    except Exception:
        return False


UNPICKLABLE_ATOMS = {name
                     for name, (first, *_) in {**annotations.ATOMS,
                                               **annotations.TOP_ATOMS
                                               }.items()
                     if not is_picklable(first)}
DEFAULTS = list(filter(is_picklable, c05.DEFAULTS))


def to_picklable(tree):
    if isinstance(tree, list):
        if tree and tree[0] == 'atom':
            return (['atom', 'User'] if tree[1] in UNPICKLABLE_ATOMS
                    else tree)
        return list(map(to_picklable, tree))
    return tree


@st.composite
def spell(draw, tree):
    """Spells with importable objects only."""
    tree = to_picklable(tree)

    def choose(options):
        options = [option for option in options
                   if not (isinstance(option, str) and '("' in option)
                   ] or options
        return draw(st.sampled_from(options))
    return [annotations.render(tree, choose), annotations.key(tree)]


@st.composite
def parameters(draw, max_size=5):
    return [[*parameter[:3], draw(spell(parameter[3])), parameter[4]]
            for parameter in draw(specs.parameters_lists(
                    max_size=max_size, annotations=annotations.trees,
                    defaults=specs.defaults_from(DEFAULTS),
                    names_=st.sampled_from(specs.NAMES[:12])
            ))]


@st.composite
def plains(draw, max_size=5):
    return {'parameters': draw(parameters(max_size=max_size)),
            'returns': draw(spell(draw(annotations.trees)))}


@st.composite
def cases(draw):
    choice = draw(st.integers(0, 3))
    if choice == 0:
        return {'spec': draw(parameters(max_size=1).filter(bool))[0]}
    spec = (draw(plains())
            if choice < 3
            else {'signatures': draw(st.lists(plains(max_size=3), min_size=2,
                                              max_size=3))})
    bind = [specs.calls(draw, ['a', 'b', 'c', 'key'], max_args=2, extra=False)
            for _ in range(draw(st.integers(0, 2)))]
    return {'spec': spec, 'bind': bind}


def run(ctx):
    for path in [*pools.STDLIB, *pools.partials(),
                 'pv.pools:user_function']:
        ctx.check('callable', {'callable': path}, True)
    ctx.search('generated', cases(), max_examples=1500 if ctx.quick else 20000,
               nontrivial=lambda case: (
                       isinstance(case['spec'], list)
                       or case['spec'].get('parameters')
                       or case['spec'].get('signatures')
               ),
               label=lambda case: ('parameter'
                                   if isinstance(case['spec'], list)
                                   else ('overloaded'
                                         if 'signatures' in case['spec']
                                         else 'plain')))
    together.run(ctx, 'pickled')
