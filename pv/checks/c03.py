"""Overloaded signatures as unions of their alternatives."""
import itertools

from hypothesis import strategies as st

from paradigm.base import OverloadedSignature, PlainSignature
from pv import specs
from pv.checks.c01 import to_arguments

RULE = ('Ordered lists of 2-5 alternatives (duplicates included; all pairs of '
        'small parameter lists exhaustively, longer ones generated) crossed '
        'with calls; oracle: calls of real Python functions for each of the '
        'alternatives, bindings of alternatives one by one. Non-trivial: '
        'at least one alternative expects the call and at least one does '
        'not, or all of them do and arguments are bound; distinct by '
        'alternatives and call.')
ASSUMPTIONS = ['binding of a plain signature is decided by C02']


def decide(case):
    alternatives = [specs.build_plain(spec) for spec in case['signatures']]
    signature = OverloadedSignature(*alternatives)
    exposed = signature.signatures
    if not (len(exposed) == len(alternatives)
            and all(map(lambda left, right: left is right, exposed,
                        alternatives))):
        return 'alternatives are not exposed as they are'
    before = specs.observe(signature)
    for call in case['calls']:
        args, kwargs = to_arguments(call)
        for name, all_optional in (('expects', True), ('all_set', False)):
            actual = getattr(signature, name)(*args, **kwargs)
            expected = any(specs.accepts(spec['parameters'], args, kwargs,
                                         all_optional=all_optional)
                           for spec in case['signatures'])
            if actual is not expected:
                return f'{name} of {call} is {actual!r}, not {expected!r}'
        accepting = [
            alternative.bind(*args, **kwargs)
            for alternative, spec in zip(alternatives, case['signatures'])
            if specs.accepts(spec['parameters'], args, kwargs,
                             all_optional=True)
        ]
        try:
            bound = signature.bind(*args, **kwargs)
        except TypeError:
            if accepting:
                return f'{call} is refused to be bound'
        except Exception as error:
            return f'bind raised {type(error)}'
        else:
            if not accepting:
                return f'{call} is bound while being unexpected'
            if len(accepting) == 1:
                if type(bound) is not PlainSignature:
                    return f'{call}: single alternative does not collapse'
                bound = [bound]
            else:
                if type(bound) is not OverloadedSignature:
                    return f'{call}: alternatives are lost'
                bound = bound.signatures
            if (list(map(specs.observe, bound))
                    != list(map(specs.observe, accepting))):
                return (f'{call}: bound to {[str(s) for s in bound]}, '
                        f'should be {[str(s) for s in accepting]}')
        if specs.observe(signature) != before:
            return 'signature is changed by a query'
    return None


SUITES = {'calls': decide}


def to_spec(shape):
    # objects are distinguishable through annotations and defaults
    return {'parameters': specs.shape_to_parameters(shape), 'returns': 'None'}


def run(ctx):
    shapes = specs.enumerate_shapes(2)
    calls = [[count, list(keywords)]
             for count, keywords in specs.enumerate_calls('abz', 3)]
    for pair in itertools.product(shapes, shapes):
        case = {'signatures': list(map(to_spec, pair)), 'calls': calls}
        ctx.check('calls', case, True,
                  sample=[specs.to_declaration(spec['parameters'])
                          for spec in case['signatures']])

    @st.composite
    def cases(draw):
        signatures = draw(st.lists(
                specs.plain_specs(max_size=5,
                                  names_=st.sampled_from(specs.NAMES[:10])),
                min_size=2, max_size=5
        ))
        if draw(st.booleans()):
            # duplicates
            signatures.insert(draw(st.integers(0, len(signatures))),
                              draw(st.sampled_from(signatures)))
        names = [parameter[1] for spec in signatures
                 for parameter in spec['parameters']]
        return {'signatures': signatures,
                'calls': [specs.calls(draw, names, max_args=5,
                                      extra=draw(st.booleans()))
                          for _ in range(draw(st.integers(1, 4)))]}

    def is_nontrivial(case):
        for call in case['calls']:
            args, kwargs = to_arguments(call)
            accepting = sum(specs.accepts(spec['parameters'], args, kwargs,
                                          all_optional=True)
                            for spec in case['signatures'])
            if 0 < accepting and (accepting < len(case['signatures'])
                                  or args or kwargs):
                return True
        return False

    ctx.search('calls', cases(), max_examples=4000 if ctx.quick else 60000,
               nontrivial=is_nontrivial)
