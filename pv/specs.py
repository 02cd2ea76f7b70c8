"""
JSON-able descriptions of parameters and signatures.

Parameter is described as ``[kind, name, optionality, annotation, default]``
where ``kind`` is in range(5), ``optionality`` is 0 for required parameter,
1 for an optional one with default, 2 for an optional one without it
(always for variadic), annotation and default are source strings.
"""
import functools
import itertools

from hypothesis import strategies as st

from paradigm.base import (OptionalParameter, OverloadedSignature,
                           ParameterKind, PlainSignature, RequiredParameter)

from . import names

PO, PK, VP, KO, VK = range(5)
VARIADIC = (VP, VK)


def build_parameter(spec, default=None):
    kind, name, optionality, annotation, default_source = spec
    annotation = names.evaluate(annotation)
    kind = ParameterKind(kind)
    if optionality == 0:
        return RequiredParameter(annotation=annotation, kind=kind, name=name)
    if optionality == 1:
        return OptionalParameter(annotation=annotation,
                                 default=names.evaluate(default_source),
                                 kind=kind, name=name)
    return OptionalParameter(annotation=annotation, kind=kind, name=name)


def build_plain(spec):
    return PlainSignature(*map(build_parameter, spec['parameters']),
                          returns=names.evaluate(spec['returns']))


def build(spec):
    if 'signatures' in spec:
        return OverloadedSignature(*map(build_plain, spec['signatures']))
    return build_plain(spec)


def is_legal(parameters):
    """Tells if parameters can be declared by a function."""
    kinds = [parameter[0] for parameter in parameters]
    declared = [parameter[1] for parameter in parameters]
    if len(set(declared)) != len(declared):
        return False
    if kinds != sorted(kinds):
        return False
    if any(kinds.count(kind) > 1 for kind in VARIADIC):
        return False
    positionals = [bool(parameter[2]) for parameter in parameters
                   if parameter[0] in (PO, PK)]
    return positionals == sorted(positionals)


def to_declaration(parameters, *, all_optional=False):
    """Renders declaration with given parameters in Python."""
    parts, seen_slash, seen_star = [], True, False
    for index, (kind, name, optionality, *_) in enumerate(parameters):
        if kind == VP:
            parts.append('*' + name)
            seen_star = True
            continue
        if kind == VK:
            parts.append('**' + name)
            continue
        if kind == KO and not seen_star:
            parts.append('*')
            seen_star = True
        parts.append(name + '=None' * bool(optionality or all_optional))
        if kind == PO and (index + 1 == len(parameters)
                           or parameters[index + 1][0] != PO):
            parts.append('/')
    return ', '.join(parts)


@functools.lru_cache(maxsize=None)
def _compile(declaration):
    namespace = {}
    exec(f'def function({declaration}): pass', namespace)
    return namespace['function']


def accepts(parameters, args, kwargs, *, all_optional=False):
    """Asks Python itself."""
    function = _compile(to_declaration(parameters, all_optional=all_optional))
    try:
        function(*args, **kwargs)
    except TypeError:
        return False
    return True


# enumeration
def enumerate_shapes(max_size, *, optionalities=(0, 1)):
    """All legal sequences of ``(kind, optionality)`` up to given size."""
    result = [()]
    frontier = [()]
    for _ in range(max_size):
        frontier = [
            (*shape, (kind, optionality))
            for shape in frontier
            for kind in range(shape[-1][0] if shape else PO, VK + 1)
            for optionality in ((2,) if kind in VARIADIC else optionalities)
            if not (kind in VARIADIC and shape and shape[-1][0] == kind)
            if not (kind in (PO, PK) and not optionality
                    and shape and shape[-1][1])
        ]
        result.extend(frontier)
    return result


def shape_to_parameters(shape, names_='abcdefgh'):
    return [[kind, names_[index], optionality, 'object', str(index)]
            for index, (kind, optionality) in enumerate(shape)]


def enumerate_calls(names_, max_args):
    for count in range(max_args + 1):
        for size in range(len(names_) + 1):
            for keywords in itertools.combinations(names_, size):
                yield count, keywords


# generation
NAMES = ['a', 'b', 'c', 'd', 'e', 'self', 'cls', 'args', 'kwargs', 'name',
         'kind', 'returns', 'value', 'key', 'default', 'x1', '_', '_a', '__b',
         'parameters', 'other', 'annotation', 'has_variadic', 'signature',
         'callable_', 'method', 'func', '\u00e9', 'T', 'print', 'type']


def parameters_lists(*, max_size=7, annotations=st.just('object'),
                     defaults=st.sampled_from(['None', '0', '"x"', '()']),
                     names_=st.sampled_from(NAMES), bare_optional=True):
    optional = st.sampled_from([1, 1, 2] if bare_optional else [1])

    @st.composite
    def strategy(draw):
        taken = draw(st.lists(names_, max_size=max_size, unique=True))
        kinds = sorted(draw(st.lists(
                st.sampled_from([PO, PO, PK, PK, PK, VP, KO, KO, VK]),
                min_size=len(taken), max_size=len(taken)
        )))
        result, has_optional = [], False
        for name, kind in zip(taken, kinds):
            if kind in VARIADIC:
                if result and result[-1][0] == kind:
                    continue
                optionality = 2
            elif kind == KO:
                optionality = draw(st.one_of(st.just(0), optional))
            else:
                optionality = draw(optional
                                   if has_optional
                                   else st.one_of(st.just(0), optional))
                has_optional = bool(optionality)
            result.append([kind, name, optionality, draw(annotations),
                           draw(defaults) if optionality == 1 else None])
        return result

    return strategy()


def defaults_from(atoms):
    """Sources of values, the ones of nested sequences included."""
    return st.one_of(
            st.sampled_from(atoms),
            st.recursive(
                    st.sampled_from(atoms),
                    lambda inner: st.tuples(
                            st.sampled_from(['({},)', '[{}]']),
                            st.lists(inner, min_size=1, max_size=3)
                    ).map(lambda pair: pair[0].format(', '.join(pair[1]))),
                    max_leaves=5
            )
    )


def plain_specs(*, returns=st.just('None'), **kwargs):
    return st.fixed_dictionaries({'parameters': parameters_lists(**kwargs),
                                  'returns': returns})


def overloaded_specs(*, max_signatures=4, **kwargs):
    return st.fixed_dictionaries({
        'signatures': st.lists(plain_specs(**kwargs), min_size=2,
                               max_size=max_signatures)
    })


def calls(draw, parameters_names, *, max_args=6, extra=True):
    """Draws number of positional arguments and names of keyword ones."""
    count = draw(st.integers(0, max_args))
    pool = list(dict.fromkeys(parameters_names))
    if extra:
        pool += [name for name in ('unknown', 'self', 'not identifier',
                                   'class')
                 if name not in pool]
    keywords = draw(st.lists(st.sampled_from(pool), unique=True, max_size=5)
                    if pool else st.just([]))
    return [count, keywords]


class Hostile:
    """Value which should not be touched."""

    def _forbidden(self, *_args):
        raise RuntimeError('value of an argument is touched')

    __eq__ = __ne__ = __bool__ = __hash__ = __len__ = __iter__ = _forbidden
    __lt__ = __call__ = __repr__ = __str__ = __getitem__ = _forbidden


HOSTILE = Hostile()


def observe_parameter(parameter):
    return (type(parameter), parameter.kind, parameter.name,
            id(parameter.annotation),
            *((parameter.has_default,
               id(parameter.default) if parameter.has_default else None)
              if isinstance(parameter, OptionalParameter)
              else ()))


def observe(signature):
    """Identity-level snapshot of everything observable."""
    if isinstance(signature, OverloadedSignature):
        return tuple(map(observe, signature.signatures))
    return (tuple(map(observe_parameter, signature.parameters)),
            id(signature.returns))
