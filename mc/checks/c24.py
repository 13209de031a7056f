"""C24 warnings are given exactly when they are not suppressed for that code and fork."""
import datetime as dtm
import itertools
import json
from collections import Counter
from dataclasses import dataclass, field
from typing import Dict, List, NamedTuple, Optional, Set, Tuple, Union

import jsons
import universe as U
from jsons.decorators import dumped, loaded
from core import Case
from lib import caught, tree
from universe import same, snap

PROPERTY = 'C24'
ASSUMPTIONS = ['warnings are recorded with the filter "always": Python itself may hide repeated warnings',
               'a Union may try a type that warns and then another one: at least one warning is demanded there, and none if suppressed',
               'suppress_warning of a class that is no fork but a mere subclass is left out: it shares the set of its fork']
NAIVE = dtm.datetime(2020, 5, 17, 10, 0, 0)
S = jsons.JsonSerializable.__mro__[1]        # the default StateHolder
J = jsons.JsonSerializable


def BOUNDS(tier):
    return {'histories': 'all sequences of up to %d suppress/unsuppress/fork operations on up to 4 forks; after each operation every code is triggered in every fork' % depth(tier),
            'calls': 'every subset of the %d codes suppressed x every subset of conditions x %d ways of calling' % (len(CODES), len(WAYS)),
            'positions': 'every code in every position of %d nested containers' % len(NESTS),
            'silence': 'all leaves, objects and 1-level combinators dumped and loaded'}


def depth(tier):
    return 4 if tier == 'thorough' else 3


class Bad:
    pass


def _no_bad(obj, **kwargs):
    raise ValueError('bad')


class Attr:
    def __init__(self, ok, no):
        self.ok = ok
        self.no = no


class Open:
    def __init__(self, a=1):
        self.a = a


HASHED = {'a': 1, 'z': {'-keys': {'k': 5}, 'k': 1}}

# code -> (what triggers it(fork), the expected result as snapshot or exception)
CODES = {
    'datetime-without-tz': lambda f: jsons.dump(NAIVE, fork_inst=f),
    'element-not-deserialized': lambda f: jsons.load([1, 'x', 3, []], List[int], warn_on_fail=True, fork_inst=f),
    'attribute-not-serialized': lambda f: jsons.dump(Attr(1, Bad()), fork_inst=f),
    'hashed-keys-without-hint': lambda f: vars(jsons.load({'a': 1, 'z': {'-keys': {}, 'k': 1}}, Open, fork_inst=f)),
    'decorated-static': lambda f: loaded(fork_inst=f)(staticmethod(lambda x: x)),
}
COUNT = {'datetime-without-tz': 1, 'element-not-deserialized': 2, 'attribute-not-serialized': 1, 'hashed-keys-without-hint': 1, 'decorated-static': 1}
jsons.set_serializer(_no_bad, Bad)


def call(fn):
    """(outcome, codes of the warnings given)."""
    with caught() as w:
        try:
            r = ('ok', snap(fn()))
        except Exception as err:
            r = ('err', type(err).__name__, str(err))
    return r, [code(x) for x in w]


def code(w):
    msg = str(w.message)
    if not issubclass(w.category, UserWarning) or 'Use suppress_warning(' not in msg or ') or suppress_warnings(True) to turn off this message.' not in msg:
        return 'foreign: ' + msg
    return msg.split('Use suppress_warning(')[-1].split(')')[0]


_base = {}


def base(c):
    """The outcome without any suppression, in a fork of its own."""
    if c not in _base:
        f = jsons.fork()
        jsons.suppress_warnings(False, f)
        f._suppressed_warnings = set()
        _base[c] = call(lambda: CODES[c](f))
        assert _base[c][0][0] == 'ok' or _base[c][0][1] == 'InvalidDecorationError', _base[c]
    return _base[c]


# ------------------------------------------------------------------ histories

class World:
    def __init__(self):
        self.forks = [S]
        self.model = [(False, frozenset())]

    def apply(self, op):
        if op[0] == 'all':
            jsons.suppress_warnings(op[2], *(() if self.forks[op[1]] is S and op[2] else (self.forks[op[1]],)))
            self.model[op[1]] = (op[2], self.model[op[1]][1])
        elif op[0] == 'one':
            jsons.suppress_warning(op[2], self.forks[op[1]])
            self.model[op[1]] = (self.model[op[1]][0], self.model[op[1]][1] | {op[2]})
        elif op[0] == 'fork':
            self.forks.append(jsons.fork(self.forks[op[1]]))
            self.model.append(self.model[op[1]])
        elif op[0] == 'jfork':
            self.forks.append(J.fork())
            self.model.append(self.model[0])

    def suppressed(self, i, c):
        return self.model[i][0] or c in self.model[i][1]


W = World()
LIMIT = 4


def enabled(prefix):
    n = 1 + sum(op[0] in ('fork', 'jfork') for op in prefix)
    for i in range(n):
        for v in (True, False):
            yield ('all', i, v)
        for c in CODES:
            yield ('one', i, c)
        if n < LIMIT:
            yield ('fork', i)
    if n < LIMIT:
        yield ('jfork', 0)


def do(ctx, prefix, op):
    ctx.step()
    W.apply(op)
    for i, f in enumerate(W.forks):
        for c in CODES:
            observe(ctx, prefix + (op,), i, f, c)
    # a class that derives from a fork uses its settings, and one of JsonSerializable those of the default
    for i, f in [(0, J)] + [(i, f) for i, f in enumerate(W.forks) if issubclass(f, J)]:
        D = type('D', (f,), {'__init__': lambda self, when: setattr(self, 'when', when)})
        r, w = call(lambda: D(NAIVE).json)
        want = [] if W.suppressed(i, 'datetime-without-tz') else ['datetime-without-tz']
        if w != want or r[0] != 'ok':
            ctx.fail('subclass', 'after %r an object of a subclass of fork %d warns %r, expected %r' % (prefix + (op,), i, w, want))
    ctx.state(tuple(W.model))
    ctx.trace()


def observe(ctx, history, i, f, c):
    ctx.step()
    r, w = call(lambda: CODES[c](f))
    want = [] if W.suppressed(i, c) else [c] * COUNT[c]
    if w != want:
        ctx.fail('history|' + c, 'after %r fork %d warns %r for %s, expected %r' % (history, i, w, c, want))
    if r != base(c)[0]:
        ctx.fail('result|' + c, 'after %r fork %d gives %r for %s, without suppression %r' % (history, i, r, c, base(c)[0]))
    ctx.outcome('silent' if not w else 'warns')


def history(ctx, prefix):
    for c in CODES:
        base(c)
    for op in prefix:
        W.apply(op)
    tree(ctx, depth(ctx.tier) - len(prefix), enabled, do, prefix)
    if len(prefix) == 1 and prefix[0] == ('all', 0, True):      # the initial state
        tree(ctx, 1, enabled, do)


# ------------------------------------------------------------------ several conditions in one call

class Many:
    """Up to three conditions at once in a dump."""
    def __init__(self, when, bad, l):
        self.when = when
        self.bad = bad
        self.l = l


@dataclass
class Holder:
    items: List[int]
    keep: int = 0


def dumping(conds):
    return Many(NAIVE if 'datetime-without-tz' in conds else 'now', Bad() if 'attribute-not-serialized' in conds else 1, [1, Attr(NAIVE if 'datetime-without-tz' in conds else 0, 2)])


def loading(conds):
    return [{} if 'element-not-deserialized' not in conds else 5, {'a': 1, 'z': {'-keys': {}, 'k': 1} if 'hashed-keys-without-hint' in conds else {'k': 1}}, {'a': 2}]


DUMPERS = {
    'dump': lambda o, f: jsons.dump(o, fork_inst=f),
    'dumps': lambda o, f: json.loads(jsons.dumps(o, fork_inst=f)),
    'dumpb': lambda o, f: json.loads(jsons.dumpb(o, fork_inst=f)),
    'transform': lambda o, f: vars(jsons.transform(o, Untouched, dump_kwargs={'fork_inst': f}, fork_inst=f)),
    'dumped': lambda o, f: dumped(fork_inst=f)(lambda x: x)(o),
    'nested': lambda o, f: jsons.dump({'a': [o]}, fork_inst=f)['a'][0],
}
LOADERS = {
    'load': lambda o, f: jsons.load(o, List[Open], warn_on_fail=True, fork_inst=f),
    'loads': lambda o, f: jsons.loads(json.dumps(o), List[Open], warn_on_fail=True, fork_inst=f),
    'loadb': lambda o, f: jsons.loadb(json.dumps(o).encode(), List[Open], warn_on_fail=True, fork_inst=f),
}
WAYS = list(DUMPERS) + list(LOADERS)


class Untouched:
    def __init__(self, when, l, bad=None):
        self.when, self.l, self.bad = when, l, bad


def subsets(xs):
    xs = list(xs)
    for n in range(len(xs) + 1):
        for c in itertools.combinations(xs, n):
            yield frozenset(c)


def calls(ctx, way):
    dump_way = way in DUMPERS
    relevant = ['datetime-without-tz', 'attribute-not-serialized'] if dump_way else ['element-not-deserialized', 'hashed-keys-without-hint']
    for conds in subsets(relevant):
        plain = None
        for sup in sorted(subsets(CODES), key=len):
            for flag in (False, True):
                f = jsons.fork()
                for c in sorted(sup):
                    jsons.suppress_warning(c, f)
                if flag:
                    jsons.suppress_warnings(True, f)
                ctx.step()
                if dump_way:
                    r, w = call(lambda: DUMPERS[way](dumping(conds), f))
                else:
                    r, w = call(lambda: LOADERS[way](loading(conds), f))
                if plain is None:
                    plain = r
                want = Counter()
                for c in conds:
                    if c not in sup and not flag:
                        want[c] = 2 if c == 'datetime-without-tz' else 1
                if Counter(w) != want:
                    ctx.fail('calls|' + way, '%s with %s and %s suppressed (all: %s) warns %r, expected %r' % (way, sorted(conds), sorted(sup), flag, w, dict(want)))
                if r != plain or r[0] != 'ok':
                    ctx.fail('calls|result|' + way, '%s with %s and %s suppressed (all: %s) gives %r, without suppression %r' % (way, sorted(conds), sorted(sup), flag, r, plain))
                ctx.state(way, sorted(conds), sorted(sup), flag)
        ctx.trace()


# ------------------------------------------------------------------ positions

class Nt(NamedTuple):
    a: object
    b: object


@dataclass
class Two:
    x: object
    y: object


def js(x, y, f):
    D = type('D', (J,), {'__init__': lambda self, x, y: (setattr(self, 'x', x), setattr(self, 'y', y))[0]})
    return D(x, y)


NESTS = {
    'list': lambda a, b, f: [a, b], 'tuple': lambda a, b, f: (a, b), 'dict': lambda a, b, f: {'a': a, 'b': b}, 'nt': lambda a, b, f: Nt(a, b), 'plain': lambda a, b, f: Attr(a, b),
    'js': js, 'deep': lambda a, b, f: [[a], {'k': [b]}], 'key': lambda a, b, f: {(1, 2): a, 'b': b},
}
TRIGGERS = {'datetime-without-tz': lambda: NAIVE, 'attribute-not-serialized': lambda: Attr(1, Bad())}


def positions(ctx, outer, inner):
    """Every distribution of conditions over the 4 places of two nested containers: n conditions give n warnings."""
    leaves = ['none'] + list(TRIGGERS)
    for combo in itertools.product(leaves, repeat=4):
        for sup in subsets(TRIGGERS):
            f = jsons.fork()
            for c in sup:
                jsons.suppress_warning(c, f)
            v = [TRIGGERS[c]() if c != 'none' else 1 for c in combo]
            o = NESTS[outer](NESTS[inner](v[0], v[1], f), NESTS[inner](v[2], v[3], f), f)
            ctx.step()
            r, w = call(lambda: jsons.dump(o, fork_inst=f))
            want = [c for c in combo if c != 'none' and c not in sup]
            if r[0] != 'ok' or Counter(w) != Counter(want):
                ctx.fail('positions|%s|%s' % (outer, inner), 'dump of %s of %s with %r and %s suppressed warns %r (%r)' % (outer, inner, combo, sorted(sup), w, r[:1]))
            ctx.state(outer, inner, combo, sorted(sup))
        ctx.trace()


def elements(ctx, n):
    """Skipped elements: one warning each that names its index, and the others are loaded."""
    pool = {'good': (1, 1), 'bad': ('x', None), 'worse': ([], None)}
    for combo in itertools.product(pool, repeat=n):
        for sup in (set(), {'element-not-deserialized'}, {'datetime-without-tz'}):
            f = jsons.fork()
            for c in sup:
                jsons.suppress_warning(c, f)
            ctx.step()
            with caught() as w:
                r = jsons.load([pool[c][0] for c in combo], List[int], warn_on_fail=True, fork_inst=f)
            bad = [i for i, c in enumerate(combo) if c != 'good']
            if r != [1] * (n - len(bad)):
                ctx.fail('elements', 'load of %r gives %r' % (combo, r))
            if 'element-not-deserialized' in sup:
                bad = []
            if len(w) != len(bad) or any('element at index %d.' % i not in str(x.message) for i, x in zip(bad, w)):
                ctx.fail('elements', 'load of %r with %r suppressed warns %r' % (combo, sup, [str(x.message) for x in w]))
            ctx.state(combo, sorted(sup))
        ctx.trace()


def hints(ctx, n):
    """Hashed keys: a warning for every attribute without a type that has some, and no other."""
    ns = {'Dict': Dict, 'Tuple': Tuple}
    for combo in itertools.product(('hinted', 'hashed', 'plain', 'given'), repeat=n):
        ann = {'a%d' % i: Dict[Tuple[int, int], str] for i, c in enumerate(combo) if c == 'hinted'}
        args = ''.join(', a%d: Dict[Tuple[int, int], str] = None' % i for i, c in enumerate(combo) if c == 'given')
        ns = {'Dict': Dict, 'Tuple': Tuple}
        exec('class H:\n __annotations__ = {}\n def __init__(self%s):\n  pass\n%s' % (args, ''.join('  self.a%d = a%d\n' % (i, i) for i, c in enumerate(combo) if c == 'given')), ns)
        H = ns['H']
        H.__annotations__.update(ann)
        src = jsons.dump({(1, 2): 'x'}, Dict[Tuple[int, int], str])
        js_ = {'a%d' % i: {'k': 1} if c == 'plain' else src for i, c in enumerate(combo)}
        for sup in (False, True):
            f = jsons.fork()
            if sup:
                jsons.suppress_warning('hashed-keys-without-hint', f)
            ctx.step()
            with caught() as w:
                o = jsons.load(js_, H, fork_inst=f)
            want = [] if sup else ['a%d' % i for i, c in enumerate(combo) if c == 'hashed']
            got = [str(x.message).split('`')[1] if '`' in str(x.message) else str(x.message) for x in w]
            if sorted(got) != want:
                ctx.fail('hints', 'load of %r warns for %r, expected %r' % (combo, got, want))
            for i, c in enumerate(combo):
                if c in ('hinted', 'given') and getattr(o, 'a%d' % i, None) != {(1, 2): 'x'}:
                    ctx.fail('hints', 'load of %r gives %r for a%d' % (combo, getattr(o, 'a%d' % i, None), i))
            ctx.state(combo, sup)
        ctx.trace()


def decorators(ctx, _):
    """decorated-static: with the fork given to the decorator, for each decorator and kind of method."""
    for deco, kind, par, sup in itertools.product((loaded, dumped), (staticmethod, classmethod), ({}, {'returnvalue': False}, {'parameters': False}), (None, 'all', 'one', 'other')):
        f = jsons.fork()
        if sup == 'all':
            jsons.suppress_warnings(True, f)
        elif sup:
            jsons.suppress_warning('decorated-static' if sup == 'one' else 'datetime-without-tz', f)
        ctx.step()
        r, w = call(lambda: deco(fork_inst=f, **par)(kind(lambda x: x)))
        if r[:2] != ('err', 'InvalidDecorationError') or w != ([] if sup in ('all', 'one') else ['decorated-static']):
            ctx.fail('decorated', '%s of a %s with %s suppressed gives %r and warns %r' % (deco.__name__, kind.__name__, sup, r, w))
        r, w = call(lambda: deco(fork_inst=f, **par)(lambda x: x)(1))
        if r[0] != 'ok' or w:
            ctx.fail('decorated', '%s of a function with %s suppressed gives %r and warns %r' % (deco.__name__, sup, r, w))
        ctx.state(deco.__name__, kind.__name__, sorted(par), sup)
        ctx.trace()


# ------------------------------------------------------------------ silence

def silence(ctx, shard, shards):
    """Nothing else warns: values of every type are dumped and loaded in silence (but for naive datetimes)."""
    terms = U.terms(0) + U.terms(1)
    for k, t in enumerate(terms):
        if k % shards != shard:
            continue
        for v, _ in t.vals[:None if ctx.thorough else 3]:
            naive = 'datetime' in t.name and has_naive(v)
            for tp in (None, t.tp):
                for kw in ({}, {'strip_nulls': True}, {'verbose': jsons.Verbosity.WITH_EVERYTHING}):
                    ctx.step()
                    r, w = call(lambda: jsons.dump(v, tp, **kw))
                    w = [x for x in w if x != 'datetime-without-tz' or not naive]
                    if w and r[0] == 'ok':
                        ctx.fail('silence|dump', 'dump(%.120r, %s, **%r) warns %r' % (v, tp, kw, w))
            with caught():
                try:
                    j = jsons.dump(v, t.tp)
                except Exception:
                    continue
            for strict in (False, True):
                ctx.step()
                r, w = call(lambda: jsons.load(j, t.tp, strict=strict))
                w = [x for x in w if x != 'datetime-without-tz' or not naive]
                if w:
                    ctx.fail('silence|load', 'load(%.120r, %s, strict=%s) warns %r' % (j, t.name, strict, w))
            ctx.state(t.name, repr(v)[:100])
        ctx.trace()


def has_naive(v):
    found = []

    def walk(x, d=0):
        if isinstance(x, dtm.datetime) and x.utcoffset() is None:
            found.append(x)
        elif d > 6:
            return
        elif isinstance(x, dict):
            for k, y in x.items():
                walk(k, d + 1)
                walk(y, d + 1)
        elif isinstance(x, (list, tuple, set, frozenset)) or hasattr(x, '__iter__') and not isinstance(x, (str, bytes, bytearray, range)):
            for y in list(x):
                walk(y, d + 1)
        elif hasattr(x, '__dict__') and not isinstance(x, type):
            walk(vars(x), d + 1)
        elif hasattr(x, '__slots__'):
            for s in x.__slots__ if not isinstance(x.__slots__, str) else [x.__slots__]:
                walk(getattr(x, s, None), d + 1)
    walk(v)
    return bool(found)


def cases(tier):
    firsts = list(enabled(()))
    for op in firsts:
        yield Case('history:%s' % '-'.join(map(str, op)), ('history', (op,)))
    for way in WAYS:
        yield Case('calls:' + way, ('calls', way))
    for o in NESTS:
        for i in NESTS:
            yield Case('positions:%s:%s' % (o, i), ('positions', o, i))
    for n in range(0, 7 if tier == 'thorough' else 6):
        yield Case('elements:%d' % n, ('elements', n))
    for n in range(1, 6 if tier == 'thorough' else 5):
        yield Case('hints:%d' % n, ('hints', n))
    yield Case('decorators', ('decorators', None))
    for s in range(8):
        yield Case('silence:%d' % s, ('silence', s, 8))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
