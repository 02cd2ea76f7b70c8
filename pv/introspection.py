"""Signatures against runtime introspection."""
import typing as t

from paradigm.base import (OptionalParameter, PlainSignature,
                           RequiredParameter)

from . import denotation


def mismatch(signature, expected, is_class):
    if not isinstance(signature, PlainSignature):
        return 'is overloaded'
    parameters = list(expected.parameters.values())
    if len(parameters) != len(signature.parameters):
        return f'{len(signature.parameters)} parameters'
    for actual, raw in zip(signature.parameters, parameters):
        if actual.name != raw.name or int(actual.kind) != int(raw.kind):
            return f'parameter "{raw.name}" is "{actual}"'
        if actual.annotation is not raw.annotation and not (
                raw.annotation is raw.empty and actual.annotation is t.Any
        ):
            return f'annotation of "{raw.name}" is {actual.annotation}'
        is_variadic = raw.kind in (raw.VAR_POSITIONAL, raw.VAR_KEYWORD)
        if (type(actual) is not (OptionalParameter
                                 if is_variadic or raw.default is not raw.empty
                                 else RequiredParameter)):
            return f'parameter "{raw.name}" is {type(actual).__name__}'
        if raw.default is not raw.empty and (
                not actual.has_default or actual.default is not raw.default
        ):
            # some defaults are evaluated on each introspection
            if not (actual.has_default
                    and type(actual.default) is type(raw.default)
                    and (actual.default == raw.default
                         or repr(actual.default) == repr(raw.default))):
                return f'default of "{raw.name}" is different'
    if is_class:
        return (None if signature.returns in denotation.SELVES
                else f'result is {signature.returns}')
    if signature.returns is not expected.return_annotation and not (
            expected.return_annotation is expected.empty
            and signature.returns is t.Any
    ):
        return f'result is {signature.returns}'
    return None
