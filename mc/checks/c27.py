"""C27 options given to dump or load reach every nested (de)serializer."""
import collections
import collections.abc
import datetime as dtm
import decimal
import enum
import itertools
import json
from collections import Counter, namedtuple
from dataclasses import dataclass
from threading import Thread
from typing import (Any, DefaultDict, Deque, Dict, FrozenSet, Iterable, List, Mapping, MutableMapping, MutableSequence, NamedTuple, NewType, Optional,
                    OrderedDict, Sequence, Set, Tuple, Union)

import jsons
import ucls
import universe as U
from jsons.decorators import dumped, loaded
from core import Case
from lib import caught
from universe import T, combine1

PROPERTY = 'C27'
J = jsons.JsonSerializable
ASSUMPTIONS = ['tasks, task_type and warn_on_fail are meant for the outermost list only, attr_getters for the outermost object only, jdkwargs for json.dumps only',
               'custom options must not be called like a parameter of the functions of jsons they pass (obj, cls, types, sig, ...)',
               'an option that is not given may be received with its default value']


def BOUNDS(tier):
    return {'chains': 'all chains of up to %d out of %d containers around a probe x %d sets of options x dump (strict and lenient, with and without type)/load (strict and lenient)' % (
        depth(tier), len(U.UNARY) + len(U.OBJ_KINDS), len(OPTS)),
        'siblings': 'a probe before and after a value of every class and leaf in %d kinds of containers' % len(HOLD),
        'entrances': sorted(ENTRANCES), 'histories': 'all sequences of up to %d calls with different options' % (4 if tier == 'thorough' else 3),
        'inner': 'the values that jsons takes apart by itself: timezones, complex numbers, keys'}


def depth(tier):
    return 3 if tier == 'thorough' else 2


# ------------------------------------------------------------------ probes

class Probe:
    def __init__(self, n=0):
        self.n = n

    def __eq__(self, other):
        return type(other) is Probe

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'PROBE'


def fail_if_default(*args, **kwargs):
    SEEN.append('the fork was not used')
    return 'PROBE' if isinstance(args[0], Probe) else Probe()


SEEN = []


def probe_serializer(obj, cls=None, **kwargs):
    SEEN.append(dict(kwargs))
    return 'PROBE'


def probe_deserializer(obj, cls=None, **kwargs):
    SEEN.append(dict(kwargs))
    if not isinstance(obj, (str, dict)):
        raise ValueError('no probe')
    return Probe()


F = jsons.fork()
G = J.fork()
for f in (F, G):
    jsons.set_serializer(probe_serializer, Probe, fork_inst=f)
    jsons.set_deserializer(probe_deserializer, Probe, fork_inst=f)
jsons.set_serializer(fail_if_default, Probe)
jsons.set_deserializer(fail_if_default, Probe)
PROBE = T('Probe', Probe, [(Probe(), 'PROBE')], lambda x: type(x) is Probe, hashable=True)


def kt(k):
    return k


class Flag:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


X = Flag('X')
Y = Flag('Y')
MANY = ('nope', 'neither')
V = jsons.Verbosity
DUMP_OPTS = {'key_transformer': kt, 'strip_nulls': True, 'strip_privates': True, 'strip_properties': True, 'strip_class_variables': True, 'strip_attr': MANY, 'verbose': V.WITH_CLASS_INFO,
             'use_enum_name': False, 'strip_microseconds': False, 'custom': X, 'none': None, 'falsy': False, 'zero': 0}
LOAD_OPTS = {'key_transformer': kt, 'use_enum_name': True, 'custom': X, 'none': None, 'falsy': False, 'strip_nulls': True, 'zero': 0}
OPTS = ['none', 'all', 'custom', 'none and falsy', 'key_transformer', 'strip_nulls', 'verbose', 'strips', 'leaf options', 'other']


def opts(name, how):
    base = DUMP_OPTS if how == 'dump' else LOAD_OPTS
    pick = {'none': (), 'all': tuple(base), 'custom': ('custom',), 'none and falsy': ('none', 'falsy', 'zero'), 'strips': ('strip_privates', 'strip_properties', 'strip_class_variables', 'strip_attr'),
            'leaf options': ('use_enum_name', 'strip_microseconds')}.get(name, (name,))
    if name == 'other':
        return {'custom': Y, 'other': X, 'key_transformer': None, 'verbose': False} if how == 'dump' else {'custom': Y, 'other': X}
    return {k: base[k] for k in pick if k in base}


INTERNAL = {'meta_hints', 'types', 'attr_getters', 'tasks', 'task_type', 'warn_on_fail'}
DEFAULTS = {'strict': False, 'strip_nulls': False, 'strip_privates': False, 'strip_properties': False, 'strip_class_variables': False, 'tasks': 1}


def problem(got, given, fork, strict):
    """What is wrong with the keyword arguments got, or None."""
    if isinstance(got, str):
        return got
    given = {**given, 'strict': strict}
    got = {k: v for k, v in got.items() if not k.startswith('_') and k not in INTERNAL}
    if got.pop('fork_inst', None) is not fork:
        return 'fork_inst'
    for k, v in given.items():
        if k == 'strip_attr' and k in got:
            w = got.pop(k)
            if ([w] if isinstance(w, str) else list(w or ())) != list(v):
                return '%s=%r instead of %r' % (k, w, v)
        elif k == 'verbose' and k in got:
            w = got.pop(k)
            if V.from_value(w) != V.from_value(v):
                return '%s=%r instead of %r' % (k, w, v)
        elif k == 'key_transformer' and v is None:
            w = got.pop(k, None)
            if w is not None and w('aB_c') != 'aB_c':
                return 'key_transformer'
        elif k not in got:
            return '%s is missing' % k
        elif got[k] is not v:
            return '%s=%r instead of %r' % (k, got[k], v)
        else:
            del got[k]
    for k, v in got.items():
        if k in DEFAULTS and v == DEFAULTS[k]:
            continue
        if k == 'key_transformer' and (v is None or v('aB_c') == 'aB_c' and v is not kt):
            continue
        if k == 'strip_attr' and not v or k == 'verbose' and V.from_value(v) == V.WITH_NOTHING:
            continue
        return '%s=%r was not given' % (k, v)
    return None


def count(j):
    if isinstance(j, dict):
        return sum(map(count, j.values())) + sum(k == 'PROBE' for k in j)
    if isinstance(j, list):
        return sum(map(count, j))
    return int(j == 'PROBE')


def probed(ctx, key, what, fn, n, given, fork=F, strict=False, at_least=False, js=False):
    del SEEN[:]
    ctx.step()
    with caught():
        try:
            r = fn()
        except Exception as err:
            ctx.fail(key, '%s fails: %r' % (what, err))
            return None
    if js:
        # The type of a dict is found with typish, which takes the str() of its values: another dump for a JsonSerializable.
        SEEN[:] = [s for s in SEEN if isinstance(s, dict)]
    if len(SEEN) < n or not at_least and len(SEEN) != n:
        ctx.fail(key, '%s calls %d functions, expected %d' % (what, len(SEEN), n))
    for got in SEEN:
        p = problem(got, given, fork, strict)
        if p:
            ctx.fail(key, '%s: %s (received %r)' % (what, p, got))
            break
    ctx.outcome(min(n, 9))
    return r


# ------------------------------------------------------------------ chains

def chain_terms(d):
    if d == 0:
        return [PROBE]
    return [u for t in chain_terms(d - 1) for u in combine1(t)]


def chains(ctx, d, shard, shards):
    for i, t in enumerate(chain_terms(d)):
        if i % shards != shard:
            continue
        union = 'Optional' in t.name
        js = 'Js(' in t.name and ('ict[' in t.name or 'apping[' in t.name)
        for v, j in t.vals:
            n = count(j)
            if not n:
                continue
            for o in OPTS:
                for strict in (False, True):
                    do, lo = opts(o, 'dump'), opts(o, 'load')
                    if not union or not strict:
                        probed(ctx, 'dump', 'dump(%s %.80r, strict=%s, options %s)' % (t.name, v, strict, o), lambda: jsons.dump(v, strict=strict, fork_inst=F, **do), n, do, F, strict, at_least=union, js=js)
                    probed(ctx, 'dump|type', 'dump(%.80r, %s, strict=%s, options %s)' % (v, t.name, strict, o), lambda: jsons.dump(v, t.tp, strict=strict, fork_inst=F, **do), n, do, F, strict, at_least=union, js=js)
                    r = probed(ctx, 'load', 'load(%.80r, %s, strict=%s, options %s)' % (j, t.name, strict, o), lambda: jsons.load(j, t.tp, strict=strict, fork_inst=F, **lo), n, lo, F, strict, at_least=union)
            ctx.state(t.name, repr(j)[:100])
        ctx.trace()


# ------------------------------------------------------------------ siblings

class Hold3:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


HOLD = {
    'list': lambda a, b, c: [a, b, c], 'tuple': lambda a, b, c: (a, b, c), 'dict': lambda a, b, c: {'a': a, 'b': b, 'c': c}, 'object': Hold3,
    'nt': namedtuple('Nt3', 'a b c'), 'nested': lambda a, b, c: [[a], b, {'k': (c,)}], 'keys': lambda a, b, c: {a: b, 'k': c},
}


def loads_strictly(j, tp):
    try:
        jsons.load(j, tp, strict=True)
        return True
    except jsons.JsonsError:
        return False


def siblings(ctx, hold, shard, shards):
    """Values of every kind between two probes: what they do with their options does not matter to the others."""
    for i, t in enumerate(U.terms(0) + (U.terms(1) if ctx.thorough else [])):
        if i % shards != shard:
            continue
        for v, j in t.vals[:None if ctx.thorough else 2]:
            for o in OPTS:
                do, lo = opts(o, 'dump'), opts(o, 'load')
                if v is None and hold == 'keys' and do.get('strip_nulls'):
                    continue
                w = HOLD[hold](Probe(), v, Probe())
                probed(ctx, 'siblings|' + hold, 'dump(%s of %.80r, options %s)' % (hold, v, o), lambda: jsons.dump(w, fork_inst=F, **do), 2, do)
                if hold in ('tuple', 'object', 'nt'):
                    tp = Tuple[Probe, t.tp, Probe]
                    js = ['PROBE', j, 'PROBE']
                    if hold != 'tuple':
                        tp = U.obj_of('Pl' if hold == 'object' else 'Nt', PROBE, t, PROBE).tp
                        js = {'f0': 'PROBE', 'f1': j, 'f2': 'PROBE'}
                    for strict in (False, True):
                        if strict and not loads_strictly(j, t.tp):
                            continue
                        probed(ctx, 'siblings|load|' + hold, 'load(%s of %.80r as %s, options %s)' % (hold, j, t.name, o), lambda: jsons.load(js, tp, strict=strict, fork_inst=F, **lo), 2, lo, F, strict)
            ctx.state(hold, t.name, repr(v)[:80])
        ctx.trace()


# ------------------------------------------------------------------ unions, attributes without type, keys, leaves that are taken apart

class Alt:
    def __init__(self, q: int):
        self.q = q


class Free:
    def __init__(self, a=0):
        self.a = a


class Anyhow:
    __annotations__ = {'p': Probe, 'ps': List[Probe]}

    def __init__(self, a: int = 0):
        self.a = a


class AnyAttrs:
    a: Any
    b: List[Any]
    c: list
    d: Dict[str, Any]
    e: Optional[Any]
    f: tuple
    g: Tuple[Any, ...]
    h: dict

    def __init__(self):
        self.a, self.b, self.c, self.d, self.e, self.f, self.g, self.h = Probe(), [Probe()], [Probe()], {'k': Probe()}, Probe(), (Probe(),), (Probe(),), {'k': Probe()}


class SlotAttrs:
    __slots__ = ('a', 'b')

    def __init__(self):
        self.a, self.b = Probe(), [Probe()]


class NtAny(NamedTuple):
    a: Any = Probe()
    b: list = [Probe()]


LOOSE = [(Any, Probe(), 1), (Any, [Probe(), {'k': Probe()}], 2), (List[Any], [Probe(), Probe()], 2), (Tuple[Any, ...], (Probe(), [Probe()]), 2), (Tuple[Any, Any], (Probe(), [Probe()]), 2),
         (Dict[str, Any], {'k': Probe(), 'l': [Probe()]}, 2), (Optional[Any], Probe(), 1), (Optional[List[Any]], [Probe()], 1), (List[Optional[Any]], [Probe(), None], 1), (Sequence[Any], [Probe()], 1),
         (list, [Probe()], 1), (tuple, (Probe(), Probe()), 2), (set, {Probe()}, 1), (dict, {'k': Probe()}, 1), (List[list], [[Probe()], [Probe()]], 2), (Dict[str, dict], {'k': {'l': Probe()}}, 1),
         (List[Dict[str, Any]], [{'k': Probe()}], 1), (Set[Any], {Probe()}, 1), (Deque[Any], collections.deque([Probe()]), 1), (Mapping[str, Any], {'k': Probe()}, 1), (NewType('NAny', Any), Probe(), 1),
         (AnyAttrs, AnyAttrs(), 8), (List[AnyAttrs], [AnyAttrs()], 8), (Dict[str, AnyAttrs], {'k': AnyAttrs()}, 8), (SlotAttrs, SlotAttrs(), 2), (NtAny, NtAny(), 2), (List[NtAny], [NtAny()], 2)]


def loose(ctx, i, _):
    """Dumping as a type that leaves the parts open."""
    tp, v, n = LOOSE[i]
    for o, strict, as_type in itertools.product(OPTS, (False, True), (False, True)):
        do = opts(o, 'dump')
        probed(ctx, 'loose', 'dump(%r, %s, strict=%s, %s)' % (v, tp if as_type else None, strict, o), lambda: jsons.dump(v, tp if as_type else None, strict=strict, fork_inst=F, **do), n, do, F, strict)
        ctx.state(str(tp), o, strict, as_type)
        ctx.trace()


def special(ctx, _):
    New = NewType('New', Probe)
    cases_ = [(Union[int, Probe], Probe(), 'PROBE', 1), (Union[Probe, int], Probe(), 'PROBE', 1), (Union[Alt, List[Probe]], [Probe(), Probe()], ['PROBE', 'PROBE'], 2),
              (Union[Dict[str, Probe], List[Probe]], {'k': Probe()}, {'k': 'PROBE'}, 1), (Optional[Union[Probe, Alt]], Probe(), 'PROBE', 1), (List[Union[Alt, Probe]], [Probe(), Probe()], ['PROBE', 'PROBE'], 2),
              (New, Probe(), 'PROBE', 1), (List[New], [Probe()], ['PROBE'], 1), (Dict[Probe, int], {Probe(): 1}, {'PROBE': 1}, 1), (Dict[Probe, Probe], {Probe(): Probe()}, {'PROBE': 'PROBE'}, 2),
              (Tuple[Probe, List[Probe], Dict[str, Probe]], (Probe(), [Probe()], {'k': Probe()}), ['PROBE', ['PROBE'], {'k': 'PROBE'}], 3)]
    for (tp, v, j, n), o, strict in itertools.product(cases_, OPTS, (False, True)):
        do, lo = opts(o, 'dump'), opts(o, 'load')
        probed(ctx, 'special|dump', 'dump(%r, %s, strict=%s, %s)' % (v, tp, strict, o), lambda: jsons.dump(v, tp, strict=strict, fork_inst=F, **do), n, do, F, strict, True)
        probed(ctx, 'special|load', 'load(%r, %s, strict=%s, %s)' % (j, tp, strict, o), lambda: jsons.load(j, tp, strict=strict, fork_inst=F, **lo), n, lo, F, strict, True)
        ctx.state(str(tp), o, strict)
        ctx.trace()
    for o in OPTS:
        do, lo = opts(o, 'dump'), opts(o, 'load')
        # attributes that the constructor does not know
        probed(ctx, 'remaining', 'load of attributes outside the constructor, %s' % o, lambda: jsons.load({'a': 1, 'p': 'PROBE', 'ps': ['PROBE', 'PROBE']}, Anyhow, fork_inst=F, **lo), 3, lo)
        w = Free()
        w.p, w.q = Probe(), [Probe()]
        probed(ctx, 'remaining', 'dump of attributes outside the constructor, %s' % o, lambda: jsons.dump(w, fork_inst=F, **do), 2, do)
        # -meta classes
        for wrap, n in ((lambda j: j, 1), (lambda j: [j, j], 2), (lambda j: {'k': j}, 1)):
            probed(ctx, 'meta', 'load with -meta, %s' % o, lambda: jsons.load(wrap({'n': 1, '-meta': {'classes': {'/': Probe.__module__ + '.Probe'}}}), fork_inst=F, **lo), n, lo)
        # hashed keys
        K = Dict[Tuple[Probe, int], Probe]
        j = {'-keys': {'5': ['PROBE', 1]}, '5': 'PROBE'}
        probed(ctx, 'hashed', 'load of hashed keys, %s' % o, lambda: jsons.load(j, K, fork_inst=F, **lo), 2, lo)
        probed(ctx, 'hashed', 'dump of hashed keys, %s' % o, lambda: jsons.dump({(Probe(), 1): Probe()}, fork_inst=F, **do), 2, do)
        # two tasks
        for tasks in (2, 3):
            probed(ctx, 'tasks', 'dump with %d tasks, %s' % (tasks, o), lambda: jsons.dump([Probe(), [Probe()], Probe()], tasks=tasks, task_type=Thread, fork_inst=F, **do), 3, do)
            probed(ctx, 'tasks', 'load with %d tasks, %s' % (tasks, o), lambda: jsons.load(['PROBE'] * 3, List[Probe], tasks=tasks, task_type=Thread, fork_inst=F, **lo), 3, lo)
        # what a warned list leaves out
        probed(ctx, 'warn', 'load with warn_on_fail, %s' % o, lambda: jsons.load(['PROBE', 5, 'PROBE'], List[Probe], warn_on_fail=True, fork_inst=F, **lo), 3, lo)
        ctx.state('special', o)
        ctx.trace()


PARTS = {
    'complex': (complex(1, 2), complex, {'real': 1, 'imag': 2}, {float: 2}, {}),
    'timezone': (dtm.timezone(dtm.timedelta(hours=2)), dtm.timezone, {'name': 'UTC+02:00', 'offset': 7200.0}, {dtm.timedelta: 1}, {dtm.timedelta: 1}),
    'dict keys': ({dtm.date(2020, 1, 2): 1}, Dict[dtm.date, int], {'2020-01-02': 1}, {dtm.date: 1}, {dtm.date: 1}),
    'string': ('x', str, 'x', {str: 1}, {str: 1}),
    'datetime in str': ('x', None, '2020-01-01T00:00:00Z', {dtm.datetime: 1}, {}),
    'enum': (ucls.Color.RED, ucls.Color, 'RED', {}, {}),
    'bool': (True, bool, True, {bool: 1}, {bool: 1}),
    'decimal': (decimal.Decimal('1.5'), decimal.Decimal, '1.5', {}, {}),
}


def parts(ctx, name):
    """Values that jsons takes apart itself: the functions registered for the parts get the options too."""
    v, tp, j, l, d = PARTS[name]
    for o in OPTS:
        for wrap in (0, 1, 2):
            do, lo = opts(o, 'dump'), opts(o, 'load')
            f = jsons.fork()
            jsons.set_serializer(probe_serializer, Probe, fork_inst=f)

            def recording(old):
                def fn(obj, cls=None, **kwargs):
                    SEEN.append(dict(kwargs))
                    return old(obj, cls=cls, **kwargs)
                return fn
            for c in l:
                jsons.set_deserializer(recording(jsons.get_deserializer(c)), c, fork_inst=f)
            for c in d:
                jsons.set_serializer(recording(jsons.get_serializer(c)), c, fork_inst=f)
            n = sum(l.values())
            jj, t, vv = j, tp, v
            for _ in range(wrap):
                jj, vv = [jj, jj], [vv, vv]
                t = List[t] if t else None
                n *= 2
            for strict in (False, True):
                if name not in ('bool', 'string'):
                    probed(ctx, 'parts|load|' + name, 'load(%r, %s, options %s)' % (jj, t, o), lambda: jsons.load(jj, t, strict=strict, fork_inst=f, **lo), n, lo, f, strict)
                if d:
                    probed(ctx, 'parts|dump|' + name, 'dump(%r, options %s)' % (vv, o), lambda: jsons.dump(vv, strict=strict, fork_inst=f, **do), sum(d.values()) * 2 ** wrap, do, f, strict)
            ctx.state(name, o, wrap)
        ctx.trace()


# ------------------------------------------------------------------ containers without element types

class Unhinted:
    def __init__(self, a, b=None):
        self.a, self.b = a, b


class Rest:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class Attached:
    pass


class Half(NamedTuple):
    a: list
    b: dict = None


BareNt = namedtuple('BareNt', 'a b')
LISTS = [list, tuple, set, frozenset, collections.deque, List, Tuple, Set, FrozenSet, Deque, Sequence, MutableSequence, Iterable, collections.abc.Sequence, collections.abc.MutableSequence,
         None, Any, Union[int, list], Optional[list], Optional[tuple], NewType('Lst', list), List[Any], Tuple[Any, ...], Set[Any]]
DICTS = [dict, Dict, Mapping, MutableMapping, collections.abc.Mapping, collections.OrderedDict, collections.defaultdict, DefaultDict, OrderedDict, None, Any, Optional[dict], Union[int, dict],
         Dict[str, Any], NewType('Dct', dict)]
OBJS = [Unhinted, Rest, Attached, BareNt, Half]
# (name, source with n probes, types)
BARE = [
    ('list', ['PROBE', 'PROBE'], LISTS), ('deep list', [['PROBE'], [['PROBE'], 1], None, {'k': 'PROBE'}], [t for t in LISTS if t not in (set, frozenset, Set, FrozenSet, Set[Any])]),
    ('dict', {'k': 'PROBE', 'l': 'PROBE'}, DICTS), ('deep dict', {'k': {'l': ['PROBE', {'m': 'PROBE'}]}, 'n': 'PROBE'}, DICTS),
    ('object', {'a': 'PROBE', 'b': ['PROBE', {'k': 'PROBE'}]}, [Unhinted, Rest, BareNt]), ('half', {'a': ['PROBE', ['PROBE']], 'b': {'k': 'PROBE'}}, [Half, Unhinted]),
    ('positions', ['PROBE', {'k': 'PROBE'}], [BareNt, Tuple[Any, dict], Tuple[Any, Dict]]),
    ('list of', [['PROBE'], ['PROBE', 'PROBE']], [List[list], List[tuple], Tuple[list, tuple], List[Optional[list]], List[List], Set[tuple], collections.deque, Deque[list], List[Any]]),
    ('dict of', {'k': ['PROBE'], 'l': ['PROBE', ['PROBE']]}, [Dict[str, list], Dict[str, tuple], Dict[str, Any], DefaultDict[str, list], Mapping[str, tuple]]),
    ('rest', {'a': ['PROBE'], 'z': ['PROBE', {'k': 'PROBE'}], 'y': 'PROBE'}, [Unhinted, Rest, Attached]),
    ('text', 'PROBE', [None, Any]),
]


def bare(ctx, i, _):
    """Where no type is known, what is inferred gets the options too."""
    name, j, tps = BARE[i]
    n = count(j)
    f = jsons.fork()
    for c in (str, Probe):
        def rec(obj, cls=None, **kwargs):
            if obj == 'PROBE':
                SEEN.append(dict(kwargs))
            return obj
        jsons.set_deserializer(rec, c, fork_inst=f)
        jsons.set_serializer(lambda obj, cls=None, **kwargs: SEEN.append(dict(kwargs)) or obj if obj == 'PROBE' else obj, c, fork_inst=f)
    for tp, o, strict in itertools.product(tps, OPTS, (False, True)):
        if strict and (name == 'rest' or tp in (Attached, Rest)):
            continue
        lo, do = opts(o, 'load'), opts(o, 'dump')
        same_type = not strict and type(j) in (tp, getattr(tp, '__supertype__', None))
        if same_type or tp is Any and isinstance(tp, type(Any)):
            continue        # returned as it is
        # parts of exactly the JSON type that is asked for are returned as they are
        lax = any(w in str(tp) for w in ('Any', 'list', 'dict', 'Lst', 'Dct', 'List', 'Dict', 'Union', 'Optional')) or tp in (Half, Rest) or name == 'rest'     # and so are attributes that the constructor does not know
        probed(ctx, 'bare|load', 'load(%r, %s, strict=%s, options %s)' % (j, tp, strict, o), lambda: jsons.load(j, tp, strict=strict, fork_inst=f, **lo), 0 if lax else n, lo, f, strict, at_least=lax)
        # the dump of what was loaded
        with caught():
            v = jsons.load(j, tp, strict=strict)
        probed(ctx, 'bare|dump', 'dump(%r, options %s)' % (v, o), lambda: jsons.dump(v, fork_inst=f, **do), 1, do, f, False, at_least=True)
        ctx.state(name, str(tp), o, strict)
        ctx.trace()


# ------------------------------------------------------------------ entrances and histories

class JP(G):
    def __init__(self, p: Probe, ps: List[Probe] = None):
        self.p = p
        self.ps = ps or [Probe()]


JJ = {'p': 'PROBE', 'ps': ['PROBE']}
ENTRANCES = {
    'dump': lambda o: jsons.dump([Probe(), {'k': Probe()}], fork_inst=F, **o),
    'dumps': lambda o: jsons.dumps([Probe(), {'k': Probe()}], fork_inst=F, **o),
    'dumps jdkwargs': lambda o: jsons.dumps([Probe(), {'k': Probe()}], {'indent': 1}, fork_inst=F, **o),
    'dumpb': lambda o: jsons.dumpb([Probe(), {'k': Probe()}], fork_inst=F, **o),
    'dumped': lambda o: dumped(fork_inst=F, **o)(lambda p: p)([Probe()]),
    'dumped s': lambda o: dumped(fork_inst=F, dumper=jsons.dumps, returnvalue=False, **o)(lambda p, q: p)([Probe()], q=Probe()),
    'obj.dump': lambda o: JP(Probe()).dump(**o),
    'obj.dumps': lambda o: JP(Probe()).dumps(**o),
    'obj.dumpb': lambda o: JP(Probe()).dumpb(**o),
    'with_dump': lambda o: type('W', (G.with_dump(fork=True, **o),), {'__init__': JP.__init__})(Probe()).json,
    'load': lambda o: jsons.load(['PROBE', 'PROBE'], List[Probe], fork_inst=F, **o),
    'loads': lambda o: jsons.loads('["PROBE", "PROBE"]', List[Probe], fork_inst=F, **o),
    'loads jdkwargs': lambda o: jsons.loads('["PROBE", "PROBE"]', List[Probe], {'parse_int': int}, fork_inst=F, **o),
    'loadb': lambda o: jsons.loadb(b'["PROBE", "PROBE"]', List[Probe], fork_inst=F, **o),
    'loaded': lambda o: loaded(fork_inst=F, **o)(returning)('PROBE'),
    'obj.load': lambda o: JP.load(JJ, **o),
    'obj.loads': lambda o: JP.loads(json.dumps(JJ), **o),
    'obj.loadb': lambda o: JP.loadb(json.dumps(JJ).encode(), **o),
    'with_load': lambda o: (lambda W: W.from_json(JJ))(type('W', (G.with_load(fork=True, **o),), {'__init__': JP.__init__})),
    'transform': lambda o: jsons.transform([Probe(), Probe()], List[Probe], fork_inst=F, dump_kwargs={'fork_inst': F, **o}, **o),
}
LOADERS = ('load', 'loads', 'loads jdkwargs', 'loadb', 'loaded', 'obj.load', 'obj.loads', 'obj.loadb', 'with_load')


def returning(p: Probe) -> Probe:
    return 'PROBE'


def fork_ok(name, got):
    want = G if name.startswith(('obj.', 'with_')) else F
    f = got.get('fork_inst') if isinstance(got, dict) else None
    return isinstance(f, type) and issubclass(f, want), f


def enter(ctx, key, name, o, what):
    given = opts(o, 'load' if name in LOADERS else 'dump')
    if name == 'transform':
        given.pop('verbose', None)
    del SEEN[:]
    ctx.step()
    with caught():
        try:
            ENTRANCES[name](given)
        except Exception as err:
            ctx.fail(key, '%s fails: %r' % (what, err))
            return
    n = {'dumped': 1, 'transform': 4}.get(name, 2)
    if len(SEEN) != n:
        ctx.fail(key, '%s calls %d functions, expected %d' % (what, len(SEEN), n))
    for got in SEEN:
        ok, f = fork_ok(name, got)
        p = problem(got, given, f, False) if ok else 'fork_inst=%r' % f
        if p:
            ctx.fail(key, '%s: %s (received %r)' % (what, p, got))
            break


def entrances(ctx, name):
    for o in OPTS:
        enter(ctx, 'entrance|' + name, name, o, '%s with %s' % (name, o))
        ctx.state(name, o)
        ctx.trace()


def histories(ctx, n, shard, shards):
    """No option of one call shows up in another one."""
    names = ['dump', 'load', 'obj.dump', 'obj.load', 'loaded', 'dumps', 'with_dump']
    sets = ['none', 'all', 'other'] if n > 2 else OPTS
    ops = [(a, o) for a in names for o in sets]
    for i, seq in enumerate(itertools.product(ops, repeat=n)):
        if i % shards != shard:
            continue
        for k, (a, o) in enumerate(seq):
            enter(ctx, 'history', a, o, 'after %r %s with %s' % (seq[:k], a, o))
        ctx.state(seq)
        ctx.trace()


class Meddler:
    pass


def meddling(ctx, _):
    """Functions that call jsons themselves or change their keyword arguments leave those of the others alone."""
    def greedy(obj, cls=None, **kwargs):
        if obj.how == 'clear':
            kwargs.clear()
        elif obj.how == 'change':
            for k in kwargs:
                kwargs[k] = 'changed'
        elif obj.how == 'call':
            jsons.dump([1, ucls.DC(1, 'x'), {'k': None}], key_transformer=str.upper, strip_nulls=False, custom='inner')
        elif obj.how == 'load':
            jsons.load({'a': 1, 'b': 'x'}, ucls.DC, strict=True, custom='inner')
        elif obj.how == 'fails':
            try:
                jsons.dump(ucls.DC(1, Failing()), strict=True, custom='inner')
            except jsons.JsonsError:
                pass
        elif obj.how == 'raise':
            raise ValueError('meddler')
        return 'meddled'

    def failing(obj, cls=None, **kwargs):
        raise ValueError('failing')
    jsons.set_serializer(greedy, Meddler, fork_inst=F)
    jsons.set_serializer(failing, Failing)
    for how, hold, o in itertools.product(('clear', 'change', 'call', 'load', 'fails', 'raise'), HOLD, OPTS):
        if how == 'raise' and hold != 'object':
            continue
        m = Meddler()
        m.how = how
        do = opts(o, 'dump')
        probed(ctx, 'meddling', 'dump(%s with a function that meddles (%s), options %s)' % (hold, how, o), lambda: jsons.dump(HOLD[hold](Probe(), m, Probe()), fork_inst=F, **do), 2, do)
        ctx.state(how, hold, o)
        ctx.trace()


class Failing:
    pass


def cases(tier):
    for d in range(0, depth(tier) + 1):
        sh = (1, 1, 8, 64)[d]
        for s in range(sh):
            yield Case('chain:%d:%d' % (d, s), ('chains', d, s, sh))
    for h in HOLD:
        for s in range(4):
            yield Case('siblings:%s:%d' % (h, s), ('siblings', h, s, 4))
    for i, b in enumerate(BARE):
        yield Case('bare:' + b[0], ('bare', i, None))
    for i in range(len(LOOSE)):
        yield Case('loose:%d' % i, ('loose', i, None))
    yield Case('special', ('special', None))
    for p in PARTS:
        yield Case('parts:' + p, ('parts', p))
    for e in ENTRANCES:
        yield Case('entrance:' + e, ('entrances', e))
    yield Case('history:2', ('histories', 2, 0, 1))
    for s in range(4):
        yield Case('history:3:%d' % s, ('histories', 3, s, 4))
    if tier == 'thorough':
        for s in range(64):
            yield Case('history:4:%d' % s, ('histories', 4, s, 64))
    yield Case('meddling', ('meddling', None))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
