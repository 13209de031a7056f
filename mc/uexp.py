"""Classes of similar shapes for the precedence of an explicit class over the -meta section (C13)."""
import dataclasses
from typing import Any, Dict, List, NewType, Optional, Union


@dataclasses.dataclass
class A:
    x: int


@dataclasses.dataclass
class B(A):
    y: int = 2


@dataclasses.dataclass
class C(B):
    z: str = 'z'


@dataclasses.dataclass
class Z:
    x: int
    y: int = 9


class P:
    def __init__(self, x):
        self.x = x


class Q:
    x: str


class S:
    __slots__ = ('x', 'y', 'z')

    def __init__(self, x: int, y: int = 7, z: str = 's'):
        self.x, self.y, self.z = x, y, z


class Empty:
    pass


class O:
    def __init__(self, a: A, l: List[A], d: Dict[str, A], o: Optional[A] = None):
        self.a, self.l, self.d, self.o = a, l, d, o


class O2:
    def __init__(self, a: A, l: List[A], d: Dict[str, A], o: Optional[A] = None):
        self.a, self.l, self.d, self.o = a, l, d, o


class OSub(O):
    pass


class OAny:
    def __init__(self, a, l, d, o=None):
        self.a, self.l, self.d, self.o = a, l, d, o


NA = NewType('NA', A)
NB = NewType('NB', B)
LEAVES = [A(1), B(1, 5), C(3, 4, 'c'), Z(1, 2), P(1), S(1, 2, 'q')]
TARGETS = [A, B, C, Z, P, Q, S, Empty, NA, NB, Optional[A], Optional[B], Union[A, Z], Union[Z, A], Union[int, B], 'uexp.A', 'uexp.C', 'uexp.S']


def snap(v):
    if isinstance(v, list):
        return [snap(x) for x in v]
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if type(v).__module__ == __name__:
        names = v.__slots__ if isinstance(v, S) else sorted(vars(v))
        return (type(v).__name__,) + tuple((n, snap(getattr(v, n))) for n in names if n != '-meta')
    return (type(v).__name__, repr(v))
