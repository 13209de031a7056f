"""C15 strip options remove exactly what they name, at every depth."""
import itertools
import json
from typing import Dict, List, Optional, Set, Tuple, Union

import jsons
from core import Case
from lib import caught
from ref import jsame, refdump
from universe import *  # noqa
from uinner import SPlain

PROPERTY = 'C15'
ASSUMPTIONS = ['a named tuple keeps all its fields; class variables that hold classes or functions are not attributes']
FLAGS = ('strip_nulls', 'strip_privates', 'strip_properties', 'strip_class_variables')


class Inner:
    cv = 1
    _cv: Optional[int] = None

    def __init__(self):
        self.a = None
        self.ab = 'x'
        self._p = 2
        self.z = 0

    @property
    def prop(self):
        return self.ab

    @property
    def _prop(self):
        return None

    def method(self):
        return 1

    @staticmethod
    def static():
        return 1

    @classmethod
    def klass(cls):
        return 1


# kind -> (class body, instance attributes); a name starting with < goes to the base class
def prop(v):
    return property(lambda self: v)


def rw(name):
    return property(lambda self: getattr(self, name), lambda self, v: None)


KINDS = {
    'pub': ({}, {'a': 1}), 'pubab': ({}, {'ab': 'x'}), 'priv': ({}, {'_p': 3}), 'mangled': ({}, {'_K__m': 4}), 'null': ({}, {'n': None}),
    'privnull': ({}, {'_n': None}), 'falsy': ({}, {'z': 0, 'e': '', 'f': False, 'l': [], 'm': {}}), 'prop': ({'prop': prop(5)}, {}),
    'privprop': ({'_prop': prop(6)}, {}), 'nullprop': ({'np': prop(None)}, {}), 'rwprop': ({'b': rw('_b')}, {'_b': 'q'}),
    'cv': ({'cv': 7}, {}), 'cvann': ({'cva': 8, '__annotations__': {'cva': int}}, {}), 'privcv': ({'_cv': 9}, {}), 'nullcv': ({'ncv': None}, {}),
    'shadow': ({'sh': 9}, {'sh': 10}), 'shadownull': ({'shn': 9}, {'shn': None}), 'nested': ({}, {'o': Inner()}), 'listcv': ({'lcv': [None, Inner()]}, {}),
    'list': ({}, {'li': [None, Inner(), {'k': None}]}), 'dict': ({}, {'d': {'a': None, 'ab': 1, '_p': 2, 'cv': 3, 'prop': [None]}}),
    'funcs': ({'f1': lambda self: 1, 'f2': staticmethod(lambda: 1), 'f3': classmethod(lambda c: 1)}, {}),
    'bcv': ({'<bcv': 11}, {}), 'bprop': ({'<bprop': prop(12)}, {}), 'bprivprop': ({'<_bprop': prop(13)}, {}),
    'cv>prop': ({'<x1': 14, 'x1': prop(15)}, {}), 'prop>cv': ({'<x2': prop(16), 'x2': 17}, {}), 'cv>cv': ({'<x3': 18, 'x3': None}, {}),
    'cv>inst': ({'<x4': 19}, {'x4': 20}), 'enumcv': ({'ecv': Color.RED}, {}), 'objcv': ({'ocv': Inner()}, {}), 'objprop': ({'op': prop(Inner())}, {}),
    'dt': ({}, {'dt': D(2020, 1, 2, tz=UTC)}), 'str_': ({}, {'class_': 'None', 'null': 'null'})}
_n = [0]


def shape(kinds, base=(), extra=None):
    _n[0] += 1
    body, up, inst = {}, {}, {}
    for k in kinds:
        b, i = KINDS[k]
        for n, v in b.items():
            if n == '__annotations__':
                body.setdefault(n, {}).update(v)
            elif n.startswith('<'):
                up[n[1:]] = v
            else:
                body[n] = v
        inst.update(i)
    B = type('B%d' % _n[0], base, up)
    C = type('K%d' % _n[0], (B,), body)
    B.__module__ = C.__module__ = 'ucls'
    o = C.__new__(C)
    for k, v in inst.items():
        o.__dict__[k] = v
    for k, v in (extra or {}).items():
        o.__dict__[k] = v
    return o


def options(o, full):
    names = [n for n in refdump(o)]
    strips = [None] + names[:3] + ['a', 'ab', 'x', [], ['a', 'ab'], ('_p', 'cv', 'prop'), ['zzz'], names, 'a,ab', ['nope', 'n']]
    if not full:
        strips = [None] + names[:1] + ['ab', ('a', '_p', 'prop')]
    for n in range(5):
        for fl in itertools.combinations(FLAGS, n):
            for s in strips:
                kw = {f: True for f in fl}
                if s is not None:
                    kw['strip_attr'] = s
                yield kw


def positions(o):
    yield 'root', o, None
    yield 'list', [o, None, 1], None
    yield 'List', [o, o], List[type(o)]
    yield 'tuple', (None, o), None
    yield 'dict', {'a': o, '_p': None, 'n': [o]}, None
    yield 'Dict', {'cv': o}, Dict[str, type(o)]
    yield 'attr', shape(['pub'], extra={'q': o, 'r': None}), None
    yield 'attr2', shape(['null'], extra={'q': shape(['priv'], extra={'s': [{'k': o}]})}), None
    yield 'nt', NTAny(o, None), None
    yield 'deque', deque([o, {'n': None}]), None
    yield 'opt', o, Optional[type(o)]
    yield 'defaultdict', defaultdict(list, {'a': [o]}), None
    yield 'dataclass', HolderDC(o, None, [o]), None
    yield 'slots', HolderSl(o), None
    yield 'attrs', HolderAt(o, None), None


class NTAny(NamedTuple):
    a: object
    n: Optional[int]


@dataclasses.dataclass
class HolderDC:
    a: object
    n: Optional[int]
    l: list


class HolderSl:
    __slots__ = ('a', '_p')

    def __init__(self, a):
        self.a = a
        self._p = None


@attr.s(auto_attribs=True)
class HolderAt:
    a: object
    _p: Optional[int]


def BOUNDS(tier):
    return {'attribute kinds': len(KINDS), 'objects': 'all sets of up to %d attribute kinds; dataclass, slots, attrs, JsonSerializable and inherited classes' %
            (3 if tier == 'thorough' else 2), 'options': 'all 16 flag sets x up to 16 strip_attr values (a name, several, a substring of a name, none)',
            'positions': '15 (containers, attributes, two levels down)', 'modes': 'no cls, cls, text'}


def check(ctx, key, v, cls, kw):
    want = refdump(v, **kw)
    ctx.step()
    ctx.trace()
    try:
        with caught() as w:
            got = jsons.dump(v, cls, **kw) if cls else jsons.dump(v, **kw)
    except Exception as err:
        return ctx.fail(key, 'dump raises %s: %s' % (type(err).__name__, err), options=kw)
    if w:
        return ctx.fail(key, 'dump warns: %s' % w[0].message)
    if not jsame(got, want):
        ctx.fail(key, 'dump with %s gives %r, expected %r' % (kw, got, want))


def cases(tier):
    ks = list(KINDS)
    yield Case('none', ('set', ()))
    for k in ks:
        yield Case('set:' + k, ('set', (k,)))
    for a, b in itertools.combinations(ks, 2):
        yield Case('set:%s,%s' % (a, b), ('set', (a, b)))
    if tier == 'thorough':
        for a, b in itertools.combinations(ks, 2):
            yield Case('set3:%s,%s' % (a, b), ('set3', (a, b)))
    for s in STATIC:
        yield Case('class:' + s, ('class', s))
    yield Case('all', ('all',))
    for n in (4, 8, 9, 16, 33, 100):
        yield Case('big:%d' % n, ('big', n))


def run(ctx, args):
    kind = args[0]
    if kind == 'set':
        ks = args[1]
        for base in ((), (jsons.JsonSerializable,)):
            o = shape(ks, base)
            for nm, v, cls in positions(o):
                full = len(ks) < 2 or ctx.thorough
                if len(ks) == 2 and (nm not in ('root', 'list', 'dict', 'attr2') or base) and not ctx.thorough:
                    continue
                for kw in options(o, full):
                    ctx.state(ks, nm, sorted(kw), str(kw.get('strip_attr')))
                    check(ctx, '%s|%s|%s|%s' % (','.join(ks), 'js' if base else 'obj', nm, kw), v, cls, kw)
                    if nm == 'root':
                        check(ctx, '%s|cls|%s|%s' % (','.join(ks), nm, kw), v, type(o), kw)
                        if len(ks) < 2:
                            with caught():
                                t = jsons.dumps(o, **kw)
                            ctx.expect(jsame(json.loads(t), json.loads(json.dumps(refdump(o, **kw)))), 'text|%s|%s' % (ks, kw), 'dumps gives %s' % t)
            if base:
                for kw in options(o, False):
                    with caught():
                        t = o.dump(**kw)
                    ctx.expect(jsame(t, refdump(o, **kw)), 'method|%s|%s' % (ks, kw), 'obj.dump(%s) gives %r' % (kw, t))
    elif kind == 'set3':
        for k in KINDS:
            if k not in args[1]:
                o = shape(args[1] + (k,))
                for kw in options(o, False):
                    ctx.state(args[1], k, sorted(kw))
                    check(ctx, '%s,%s|%s' % (','.join(args[1]), k, kw), o, None, kw)
                    check(ctx, '%s,%s|list|%s' % (','.join(args[1]), k, kw), [o, {'k': o}], None, kw)
    elif kind == 'all':
        o = shape(list(KINDS))
        for nm, v, cls in positions(o):
            for kw in options(o, True):
                check(ctx, 'all|%s|%s' % (nm, kw), v, cls, kw)
        # one after the other on the same class, in every order of two option sets
        ops = list(options(o, False))
        for a, b in itertools.product(ops, repeat=2):
            got = jsons.dump([o], **a), jsons.dump([o], **b)
            ctx.expect(jsame(got[1], [refdump(o, **b)]), 'seq|%s|%s' % (a, b), 'after a dump with %s, a dump with %s gives %r' % (a, b, got[1]))
    elif kind == 'big':
        n = args[1]
        for o in (shape(['pub'], extra={**{'k%d' % i: (None if i % 3 == 0 else i) for i in range(n)}, **{'_k%d' % i: None for i in range(n)}}),
                  {'k%d' % i: (None if i % 2 else shape(['null', 'cv'])) for i in range(n)}, [shape(['null', 'priv', 'prop']) for i in range(n)],
                  [None] * n + [{'a': None}]):
            for kw in options(shape(['pub', 'null']), False):
                check(ctx, 'big|%d|%s|%s' % (n, type(o).__name__, kw), o, None, kw)
    else:
        for o in STATIC[args[1]]():
            for nm, v, cls in positions(o):
                for kw in options(o, True):
                    ctx.state(args[1], nm, sorted(kw))
                    check(ctx, 'class|%s|%s|%s' % (args[1], nm, kw), v, cls, kw)
    ctx.outcome(kind)


@dataclasses.dataclass
class SDc:
    a: Optional[int]
    _p: Optional[int] = None
    ab: str = 'x'
    _q: int = 5
    d: Optional[Dict[str, Optional[int]]] = None
    cv: 'typing.ClassVar[int]' = 7

    @property
    def prop(self) -> int:
        return 8


class SSl:
    __slots__ = ('a', '_p', 'ab', 'n')
    CV = 3

    def __init__(self):
        self.a, self._p, self.ab, self.n = 1, 2, [None], None

    @property
    def prop(self):
        return None


class SSub(SSl):
    __slots__ = ('more', '_more')

    def __init__(self):
        super().__init__()
        self.more, self._more = None, 1


@attr.s(auto_attribs=True)
class SAt:
    a: int = 1
    _p: int = 2
    n: Optional[int] = None
    _m: Optional[int] = None
    __d: int = 4

    @property
    def prop(self):
        return 5

    @property
    def _pp(self):
        return 6


class SJs(jsons.JsonSerializable):
    cv = 1
    _cv = None

    def __init__(self):
        self.a, self._p, self.n = 1, 2, None

    @property
    def prop(self):
        return None


class SFork(jsons.JsonSerializable.fork('StripFork')):
    cv = None

    def __init__(self):
        self.a, self._p, self.n = 1, None, {'n': None}


STATIC = {'dataclass': lambda: [SDc(1), SDc(None, 1, '', 0, {'a': None, 'b': 1})], 'slots': lambda: [SSl()], 'slots-sub': lambda: [SSub()],
          'attrs': lambda: [SAt(), SAt(a=None, p=None)], 'plain': lambda: [SPlain(), SPlain(None, 0)], 'js': lambda: [SJs()], 'fork': lambda: [SFork()],
          'withprop': lambda: [WithProp(3)]}
