"""Classes for C13 (importable)."""
import collections
import dataclasses
import datetime as dtm
import decimal
from typing import Any, Dict, List, NamedTuple, Optional

import attr

from ucls import Color, Eq


class Base(Eq):
    pass


class Leaf(Base):
    def __init__(self, x: int):
        self.x = x


class LeafSub(Leaf):
    def __init__(self, x: int, y: Optional[str] = None):
        super().__init__(x)
        self.y = y


class Alone(Base):
    pass


@dataclasses.dataclass
class Stamped(Base):
    when: dtm.datetime
    day: dtm.date
    amount: decimal.Decimal
    color: Color


class Bare(Base):
    def __init__(self, a, b):
        self.a = a
        self.b = b


class Own(Base):
    def __init__(self, a: Base, b: Optional[Base] = None):
        self.a = a
        self.b = b


class Exact(Base):
    def __init__(self, a: Leaf, b: Stamped, c: Optional[LeafSub] = None):
        self.a = a
        self.b = b
        self.c = c


class OwnSub(Own):
    def __init__(self, a: Base, b: Optional[Base] = None):
        super().__init__(a, b)
        self.extra = 3


@dataclasses.dataclass
class Anything(Base):
    a: Any
    b: Any = None


@dataclasses.dataclass
class Prefix(Base):
    """Names that start with each other."""
    a: Any
    ab: Any


class Slotted(Base):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b


@attr.s
class Attred(Base):
    a = attr.ib()
    b = attr.ib()


class Wrap(Base):
    def __init__(self, x):
        self.x = x


Nt2 = collections.namedtuple('Nt2', ['a', 'b'])


class NtB(NamedTuple):
    a: Base
    b: Optional[Base] = None


class Items(Base):
    def __init__(self, items: List[Base], by_name: Dict[str, Base]):
        self.items = items
        self.by_name = by_name


class Outer:
    class Inner(Base):
        def __init__(self, x):
            self.x = x


TYPED = (Own, OwnSub)
ASIS = (Anything, Prefix)
TWO = [Bare, Own, OwnSub, Anything, Prefix, Slotted, Attred]
ONE = [Wrap]


def local_classes():
    class Local(Base):
        def __init__(self, a, b):
            self.a = a
            self.b = b

    @dataclasses.dataclass
    class LocalDc(Base):
        a: Base
        b: List[Base]
    return [Local, LocalDc]
