"""Importable classes of the type universe (jsons looks classes up by module and name)."""
import enum
import uuid
from dataclasses import dataclass, field
from datetime import date, datetime, timedelta, timezone
from decimal import Decimal
from typing import Dict, List, NamedTuple, NewType, Optional, Tuple, Union

import attr

import jsons


class Color(enum.Enum):
    RED = 1
    GREEN = 'g'
    BLUE = 3.5


class Clash(enum.Enum):      # the name of one member is the value of the other
    A = 'B'
    B = 'A'
    C = 'x'


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class StrE(str, enum.Enum):
    X = 'ex'
    Y = 'why'


UserId = NewType('UserId', int)
Label = NewType('Label', str)


class Eq:
    """Equality on class and attributes."""

    def __eq__(self, other):
        return type(self) is type(other) and vars(self) == vars(other)

    __hash__ = None


@dataclass
class DC:
    a: int
    b: str


@dataclass
class DCDef:
    a: int = 7
    b: Optional[str] = None
    c: float = 1.5


@dataclass(frozen=True)
class Frozen:
    a: int
    b: str


@dataclass
class Empty:
    pass


@dataclass
class KwOnly:
    a: int
    b: str = field(kw_only=True)


@dataclass
class Child(DC):
    c: float


class Plain(Eq):
    def __init__(self, a: int, b: str):
        self.a = a
        self.b = b


class PlainDef(Eq):
    def __init__(self, a: int, b: str = 'dflt'):
        self.a = a
        self.b = b


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self, a: int, b: str):
        self.a = a
        self.b = b


@attr.s(auto_attribs=True)
class Attrs:
    a: int
    b: str


@attr.s(auto_attribs=True, frozen=True)
class AttrsFrozen:
    a: int
    b: str


class NT(NamedTuple):
    a: int
    b: str


class NTDef(NamedTuple):
    a: int
    b: Optional[str] = None


class WithProp(Eq):
    def __init__(self, a: int):
        self.a = a

    @property
    def double(self) -> int:
        return 2 * self.a


class WithClassVar(Eq):
    kind: str = 'k'

    def __init__(self, a: int):
        self.a = a


class JS(jsons.JsonSerializable):
    def __init__(self, a: int, b: str):
        self.a = a
        self.b = b

    def __eq__(self, other):
        return type(self) is type(other) and vars(self) == vars(other)


@dataclass
class Node:
    v: int
    next: Optional['Node'] = None
    kids: List['Node'] = field(default_factory=list)


class Reunion(Eq):       # names that look like typing constructs must not matter
    def __init__(self, a: int):
        self.a = a


class Dyn(Eq):           # instances have different attributes
    def __init__(self, **kw):
        self.__dict__.update(kw)


@dataclass
class OptionalList:
    union: Reunion
    a: int = 3


@dataclass
class Wide:
    f00: int
    f01: str
    f02: float
    f03: bool
    f04: Optional[int]
    f05: datetime
    f06: date
    f07: timedelta
    f08: Decimal
    f09: uuid.UUID
    f10: Color
    f11: List[int]
    f12: Dict[str, DC]
    f13: Tuple[int, str]
    f14: Union[int, List[str]]
    f15: DC
