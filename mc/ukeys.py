"""Classes for C16 (importable)."""
import dataclasses
import datetime as dtm
from collections import namedtuple
from dataclasses import dataclass, field, make_dataclass
from typing import Dict, List, NamedTuple, Optional

import attr
import jsons

from ucls import Color, Eq


@dataclass
class Two:
    first_name: str
    last_name: int


class TwoPlain(Eq):
    def __init__(self, first_name: str, last_name: int = 3):
        self.first_name = first_name
        self.last_name = last_name


class TwoSlots:
    __slots__ = ('first_name', 'last_name')

    def __init__(self, first_name: str, last_name: int):
        self.first_name = first_name
        self.last_name = last_name

    def __eq__(self, other):
        return type(self) is type(other) and (self.first_name, self.last_name) == (other.first_name, other.last_name)


@attr.s(auto_attribs=True)
class TwoAttrs:
    first_name: str
    last_name: int


class TwoNt(NamedTuple):
    first_name: str
    last_name: int = 9


class TwoJs(jsons.JsonSerializable, Eq):
    def __init__(self, first_name: str, last_name: int):
        self.first_name = first_name
        self.last_name = last_name


class Untyped(Eq):
    def __init__(self, first_name, the_values):
        self.first_name = first_name
        self.the_values = the_values


class ExtraAttr(Eq):
    """Has an attribute besides those of the constructor."""

    def __init__(self, first_name: str):
        self.first_name = first_name
        self.some_extra = 1


class ExtraProp(Eq):
    def __init__(self, first_name: str):
        self.first_name = first_name

    @property
    def upper_name(self) -> str:
        return self.first_name.upper()


class Inherits(TwoPlain):
    def __init__(self, first_name: str, last_name: int, third_name: Optional[str] = None):
        super().__init__(first_name, last_name)
        self.third_name = third_name


@dataclass
class Deep:
    inner_value: Two
    inner_list: List[TwoPlain]
    inner_dict: Dict[str, TwoSlots]
    opt_value: Optional[TwoNt] = None
    the_date: Optional[dtm.datetime] = None
    a_color: Color = Color.RED


@dataclass
class Rec:
    the_value: int
    next_rec: Optional['Rec'] = None
    sub_recs: List['Rec'] = field(default_factory=list)


@dataclass
class Decoy:
    something_else: int
    not_there: str


class NTKey(NamedTuple):
    first_name: str
    last_name: int


@dataclass(frozen=True)
class FrozenKey:
    the_id: int
    the_name: str


KINDS = [('Two', Two, [Two('first_name', 1), Two('', 0)]), ('TwoPlain', TwoPlain, [TwoPlain('last_name', 1), TwoPlain('x')]),
         ('TwoSlots', TwoSlots, [TwoSlots('a', 1)]), ('TwoAttrs', TwoAttrs, [TwoAttrs('a', 1)]), ('TwoNt', TwoNt, [TwoNt('a', 1), TwoNt('a')]),
         ('TwoJs', TwoJs, [TwoJs('a', 1)]), ('Untyped', Untyped, [Untyped('a', {'some_key': [{'other_key': 'some_key'}]}), Untyped(1, [])]),
         ('ExtraAttr', ExtraAttr, [ExtraAttr('a')]), ('ExtraProp', ExtraProp, [ExtraProp('abc')]), ('Inherits', Inherits, [Inherits('a', 1), Inherits('a', 2, 'b')]),
         ('Deep', Deep, [Deep(Two('a', 1), [TwoPlain('b', 2)], {'some_key': TwoSlots('c', 3)}, TwoNt('d', 4), dtm.datetime(2020, 1, 2, tzinfo=dtm.timezone.utc)),
                         Deep(Two('a', 1), [], {})]),
         ('Rec', Rec, [Rec(1, Rec(2, Rec(3)), [Rec(4, None, [Rec(5)])])])]
_gen = {}


def generated(kind, names):
    if (kind, names) not in _gen:
        n = 'G%s%d' % (kind, len(_gen))
        if kind == 'Dc':
            c = make_dataclass(n, [(f, int) for f in names])
        elif kind == 'Nt':
            c = NamedTuple(n, [(f, int) for f in names])
        elif kind == 'At':
            c = attr.make_class(n, {f: attr.ib(type=int) for f in names})
        else:
            ns = {}
            exec('def __init__(self, %s):\n%s' % (', '.join('%s: int' % f for f in names), ''.join('    self.%s = %s\n' % (f, f) for f in names)), ns)
            body = {'__init__': ns['__init__']}
            if kind == 'Sl':
                body['__slots__'] = names
            c = type(n, (object,) if kind == 'Sl' else (Eq,), body)
        c.__module__ = 'ukeys'
        globals()[n] = c
        _gen[kind, names] = c
    return _gen[kind, names]


_hold = {}


def holder(kind, tp):
    key = (kind, repr(tp))
    if key not in _hold:
        n = 'H%s%d' % (kind, len(_hold))
        fs = [('held_value', tp), ('and_more', int)]
        if kind == 'Dc':
            c = make_dataclass(n, fs)
        elif kind == 'Nt':
            c = NamedTuple(n, fs)
        else:
            ns = {'tp': tp}
            exec('def __init__(self, held_value: tp, and_more: int = 1):\n    self.held_value = held_value\n    self.and_more = and_more\n', ns)
            body = {'__init__': ns['__init__']}
            if kind == 'Sl':
                body['__slots__'] = ('held_value', 'and_more')
            c = type(n, (object,) if kind == 'Sl' else (Eq,), body)
        c.__module__ = 'ukeys'
        globals()[n] = c
        _hold[key] = c
    return _hold[key]
