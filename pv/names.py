"""Objects annotations and defaults of generated cases refer to."""
import collections
import collections.abc
import enum
import typing
import typing as t

import typing_extensions
import typing_extensions as te

T = t.TypeVar('T')
S = t.TypeVar('S')
BT = t.TypeVar('BT', bound=int)
CT = t.TypeVar('CT', int, str)
COT = t.TypeVar('COT', covariant=True)
CNT = t.TypeVar('CNT', contravariant=True)
P = te.ParamSpec('P')
Ts = te.TypeVarTuple('Ts')
NT = t.NewType('NT', int)
NTS = t.NewType('NTS', str)
NTL = t.NewType('NTL', t.List[int])
NTN = t.NewType('NTN', NT)


class User:
    class Nested:
        pass


class Hostile:
    """Fails if anything but identity is looked at."""

    def __bool__(self):
        raise NotImplementedError

    __eq__ = __ne__ = __hash__ = __len__ = lambda *args: Hostile().__bool__()


# named like sentinels
Underscored = type('_empty', (), {})
Unset = type('empty', (), {})


class UserGeneric(t.Generic[T]):
    pass


class UserProtocol(te.Protocol):
    def method(self) -> int:
        ...


class Color(enum.Enum):
    RED = 1
    BLUE = 2


NAMESPACE = {name: value for name, value in globals().items()
             if not name.startswith('_')}


def evaluate(source):
    return eval(source, dict(NAMESPACE))
