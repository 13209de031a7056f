"""A boring model of the registries of one fork, and probes that compare it with the real library."""
import collections.abc
import typing
from dataclasses import dataclass
from typing import Dict, List, NamedTuple, Optional, Tuple

import jsons
from universe import snap
from ucls import UserId, Eq
import ucls


class A(Eq):
    def __init__(self, n: int):
        self.n = n


class B(A):
    pass


class C(B):
    pass


class X(Eq):
    def __init__(self, n: int):
        self.n = n


class M(B, X):
    pass


class Un(Eq):
    """No ancestor but object."""

    def __init__(self, n: int):
        self.n = n


class MyList(list):
    pass


class MyInt(int):
    pass


@dataclass
class H:
    a: A
    b: B
    l: List[B]
    d: Dict[str, X]
    t: Tuple[C, M]
    o: Optional[B]
    u: UserId
    n: int


class HN(NamedTuple):
    b: B
    n: int


for _c in (A, B, C, X, M, Un, MyList, MyInt, H, HN):
    _c.__module__ = 'ucls'
    setattr(ucls, _c.__name__, _c)

USER = [A, B, C, X, M, Un]


class Alias:
    """A typing alias in the default registry: an ancestor of the subclasses of its origin, never re-registered here."""

    def __init__(self, cls):
        self.cls = cls


EXACT = (int, list, object, str, tuple, float, bool, type(None))   # classes with a default function of their own


class Model:
    """names: user function per class; order: classes for the ancestor lookup."""

    def __init__(self):
        self.reg = {k: {'names': {}, 'order': [Alias(list), list, Alias(tuple), tuple, int, str, collections.abc.Mapping,
                                               collections.abc.Iterable, object]} for k in ('ser', 'des')}

    def copy(self):
        m = Model()
        m.reg = {k: {'names': dict(v['names']), 'order': list(v['order'])} for k, v in self.reg.items()}
        return m

    def set(self, kind, fid, cls, high):
        r = self.reg[kind]
        if cls is None:
            r['names'][type(None)] = fid
            return
        r['names'][cls] = fid
        if high:
            r['order'].insert(0, cls)
        else:
            r['order'].append(cls)

    def lookup(self, kind, cls):
        r = self.reg[kind]
        if cls in r['names']:
            return r['names'][cls]
        if cls in EXACT or kind == 'des' and cls is dict:
            return None
        if cls is UserId:
            return self.lookup(kind, int)
        o = typing.get_origin(cls)
        if o is not None:
            if o in (list, tuple, typing.Union) or kind == 'des':
                return None                     # these generics have default functions of their own
            cls = o
        for c in r['order']:
            if isinstance(c, Alias):
                if issubclass(cls, c.cls):
                    return None
            elif isinstance(c, type) and issubclass(cls, c):
                return r['names'].get(c)    # None: the default one
        return None

    # --- what dump / load give under this model
    def dump(self, v, tp=None):
        tp = tp or type(v)
        f = self.lookup('ser', tp)
        if f is not None:
            return f
        if isinstance(v, HN):
            return {'b': self.dump(v.b), 'n': self.dump(v.n)}
        if isinstance(v, H):
            return {'a': self.dump(v.a), 'b': self.dump(v.b), 'l': self.dump(v.l, List[B]),
                    'd': self.dump(v.d, Dict[str, X]), 't': self.dump(v.t, Tuple[C, M]), 'o': self.dump(v.o), 'u': self.dump(v.u, UserId), 'n': self.dump(v.n)}
        if isinstance(v, (list, tuple)):
            return [self.dump(x) for x in v]
        if isinstance(v, dict):
            return {k: self.dump(x) for k, x in v.items()}
        if type(v) in USER:
            return {'n': self.dump(v.n)}
        return v

    def load(self, j, tp):
        f = self.lookup('des', tp)
        if f is not None:
            return f
        o, a = typing.get_origin(tp), typing.get_args(tp)
        if o is list:
            return ('list', [self.load(x, a[0]) for x in j])
        if o is dict:
            return ('dict', {k: self.load(x, a[1]) for k, x in j.items()})
        if o is tuple:
            return ('tuple', [self.load(x, y) for x, y in zip(j, a)])
        if o is typing.Union:
            return None if j is None and self.lookup('des', type(None)) is None else self.load(j, a[0])
        if tp in USER:
            return (tp.__name__, {'n': self.load(j['n'], int)})
        if tp is H:
            return ('H', {k: self.load(j[k], t) for k, t in typing.get_type_hints(H).items()})
        if tp is HN:
            return ('HN', [self.load(j['b'], B), self.load(j['n'], int)])
        if tp is int or tp is UserId:
            return int(j)
        if tp is MyInt:
            return ('MyInt', int(j))
        if tp is MyList:
            return ('MyList', list(j))
        return j


def norm(v):
    """The loaded value in the form the model uses."""
    t = type(v)
    if t in USER:
        return (t.__name__, {k: norm(x) for k, x in vars(v).items()})
    if t is H:
        return ('H', {k: norm(x) for k, x in vars(v).items()})
    if t is HN:
        return ('HN', [norm(v.b), norm(v.n)])
    if t is MyInt:
        return ('MyInt', int(v))
    if t is MyList:
        return ('MyList', [norm(x) for x in v])
    if t is list:
        return ('list', [norm(x) for x in v])
    if t is tuple:
        return ('tuple', [norm(x) for x in v])
    if t is dict:
        return ('dict', {k: norm(x) for k, x in v.items()})
    return v


h0 = H(A(1), B(2), [B(3)], {'x': X(4)}, (C(5), M(6)), B(7), 8, 9)
hj = {'a': {'n': '1'}, 'b': {'n': '2'}, 'l': [{'n': '3'}], 'd': {'x': {'n': '4'}}, 't': [{'n': '5'}, {'n': '6'}],
      'o': {'n': '7'}, 'u': '8', 'n': '9'}
VALUES = [('A', A(1)), ('B', B(1)), ('C', C(1)), ('X', X(1)), ('M', M(1)), ('Un', Un(1)), ('int', 5), ('MyInt', MyInt(5)),
          ('MyList', MyList([1])), ('list', [B(1), [M(2)], 3]), ('dict', {'k': C(1), 'l': {'m': X(1)}}),
          ('tuple', (A(1), 'x')), ('HN', HN(B(1), 2)), ('H', h0), ('none', None), ('nonelist', [None, B(1), None])]
nj = {'n': '1'}
SOURCES = [('A', nj, A), ('B', nj, B), ('C', nj, C), ('X', nj, X), ('M', nj, M), ('Un', nj, Un), ('int', '5', int),
           ('MyInt', '5', MyInt), ('UserId', '5', UserId), ('list', [nj, nj], List[B]), ('dict', {'k': nj}, Dict[str, C]),
           ('tuple', [nj, nj], Tuple[A, X]), ('opt', nj, Optional[M]), ('HN', {'b': nj, 'n': '2'}, HN), ('H', hj, H),
           ('deep', [{'k': [nj]}], List[Dict[str, List[B]]])]
GETS = USER + [int, MyInt, MyList, list, UserId, str, dict]


def defaults(fork_inst):
    return {(k, c): g(c, fork_inst) for k, g in (('ser', jsons.get_serializer), ('des', jsons.get_deserializer))
            for c in GETS}


class Fn:
    """A registered function; it returns its own name."""

    def __init__(self, fid):
        self.fid = fid
        self.__name__ = fid

    def __call__(self, *a, **kw):
        return self.fid


def probe(model, kw, dflt, fns, gets=True, which=('dump', 'load')):
    """Compare the library with the model: list of (probe, got, expected)."""
    bad = []
    n = 0
    if gets:
        for kind, g in (('ser', jsons.get_serializer), ('des', jsons.get_deserializer)):
            for c in GETS:
                n += 1
                fid = model.lookup(kind, c)
                want = fns[fid] if fid is not None else dflt[(kind, c)]
                got = g(c, **kw)
                if got is not want:
                    bad.append(('get_%s(%s)' % (kind, getattr(c, '__name__', c)), getattr(got, '__name__', got),
                                fid or 'default'))
    if 'dump' in which:
        for name, v in VALUES:
            n += 1
            want = model.dump(v)
            try:
                got = jsons.dump(v, **kw)
            except Exception as err:
                got = '%s: %s' % (type(err).__name__, err)
            if got != want:
                bad.append(('dump ' + name, got, want))
    if 'load' in which:
        for name, j, tp in SOURCES:
            n += 1
            want = norm_want(model.load(j, tp))
            try:
                got = norm(jsons.load(j, tp, **kw))
            except Exception as err:
                got = '%s: %s' % (type(err).__name__, err)
            if got != want:
                bad.append(('load ' + name, got, want))
    return bad, n


def norm_want(w):
    return w
