"""C28 already deserialized values in a source are accepted unchanged in lenient mode."""
import datetime as dtm
import itertools
import typing
from collections import defaultdict, deque
from threading import Thread
from typing import Any, Dict, List, NewType, Optional, Tuple

import jsons
import ucls
import universe as U
from jsons.decorators import loaded
from core import Case
from lib import caught
from universe import LEAF, LEAVES, OBJ, OBJECTS, OBJ_KINDS, same, snap

PROPERTY = 'C28'
ASSUMPTIONS = ['a value has exactly the requested type if its class is the annotated class (or that a NewType stands for); a Union or Optional is no class, so only what is inside their members counts',
               'what strict mode rejects are values of types that JSON does not have; a str, tuple, set, ... is no such value']
VALID = (str, int, float, bool, list, tuple, set, dict, type(None))
REP = ('datetime', 'DC', 'Color', 'Decimal', 'NT', 'int')


def BOUNDS(tier):
    return {'terms': 'all %d leaves and classes, all of them in each of %d containers, chains of %d containers around %d of them, and all pairs in %d kinds of containers' % (
        len(LEAVES) + len(OBJECTS), len(COMBOS), 3 if tier == 'thorough' else 2, len(REP), len(PAIR)),
        'subsets': 'every choice of positions that are left deserialized (up to %d per source)' % LIMIT, 'modes': 'lenient, strict, %d sets of options, validators that accept and that reject' % len(OPTS)}


LIMIT = 600


# ------------------------------------------------------------------ values that know their parts

class Node:
    def __init__(self, name, tp, value, json, kids=(), t=None, obj=False, keys=()):
        self.name, self.tp, self.value, self.json, self.kids = name, tp, value, json, list(kids)      # kids: (step, node)
        self.keys = dict(keys)          # JSON key -> node of the key
        self.t = t
        naked = tp
        while hasattr(naked, '__supertype__'):
            naked = naked.__supertype__
        self.swappable = isinstance(naked, type) and type(value) is naked and typing.get_origin(naked) is None

    def sources(self):
        """(source, replaced nodes with their paths) for every choice of positions."""
        if self.swappable and type(self.value) not in (int, str, float, bool, type(None)):
            yield self.value, ((self, ()),)
        if not self.kids:
            yield self.json, ()
            return
        pools = [list(itertools.islice(n.sources(), 40)) for _, n in self.kids]
        for combo in itertools.product(*pools):
            rep = tuple((n, (step,) + path) for (step, _), (_, reps) in zip(self.kids, combo) for n, path in reps)
            if isinstance(self.json, list):
                yield [c[0] for c in combo], rep
            else:
                yield {step: c[0] for (step, _), c in zip(self.kids, combo)}, rep


def leaf(t, k=0):
    v, j = t.vals[k % len(t.vals)]
    return Node(t.name, t.tp, v, j, t=t)


def seq(make, wrap):
    def fn(*nodes):
        t = wrap(nodes[0])
        return Node('%s' % t, t, make([n.value for n in nodes]), [n.json for n in nodes], [(i, n) for i, n in enumerate(nodes)])
    return fn


def mapping(make, wrap):
    def fn(*nodes):
        t = wrap(nodes[0])
        names = ['k%d' % i for i in range(len(nodes))]
        return Node(str(t), t, make(nodes[0].tp, zip(names, [n.value for n in nodes])), {k: n.json for k, n in zip(names, nodes)}, list(zip(names, nodes)))
    return fn


def optional(n, *_):
    return Node('Optional[%s]' % n.name, Optional[n.tp], n.value, n.json, n.kids, obj=True)


def newtype(n, *_):
    r = Node('NewType(%s)' % n.name, NewType('Nw', n.tp), n.value, n.json, n.kids)
    return r


class _TT:
    """As much of a type term as obj_of needs."""

    def __init__(self, n):
        self.name, self.tp, self.vals, self.bad, self.conf = n.name, n.tp, [(n.value, n.json)], [], lambda x: True
        self.depth, self.hashable, self.obj = 1, False, True


def obj(kind):
    def fn(*nodes):
        cls = U.obj_of(kind, *[_TT(n) for n in nodes]).tp
        names = ['f%d' % i for i in range(len(nodes))]
        return Node('%s(%s)' % (kind, ','.join(n.name for n in nodes)), cls, cls(*[n.value for n in nodes]), {k: n.json for k, n in zip(names, nodes)}, list(zip(names, nodes)))
    return fn


def tup(*nodes):
    return Node('Tuple(%s)' % ','.join(n.name for n in nodes), Tuple[tuple(n.tp for n in nodes)], tuple(n.value for n in nodes), [n.json for n in nodes], [(i, n) for i, n in enumerate(nodes)])


COMBOS = {
    'List': seq(list, lambda n: List[n.tp]), 'list': seq(list, lambda n: list[n.tp]), 'VTuple': seq(tuple, lambda n: Tuple[n.tp, ...]), 'Deque': seq(deque, lambda n: typing.Deque[n.tp]),
    'Sequence': seq(list, lambda n: typing.Sequence[n.tp]), 'Iterable': seq(list, lambda n: typing.Iterable[n.tp]), 'Dict': mapping(lambda t, items: dict(items), lambda n: Dict[str, n.tp]),
    'Mapping': mapping(lambda t, items: dict(items), lambda n: typing.Mapping[str, n.tp]), 'DefaultDict': mapping(lambda t, items: defaultdict(t, items), lambda n: typing.DefaultDict[str, n.tp]), 'Optional': optional, 'NewType': newtype, 'Tuple': tup,
}
COMBOS.update({k: obj(k) for k in OBJ_KINDS})
PAIR = ('Tuple',) + tuple(OBJ_KINDS)

OPTS = {'none': {}, 'tasks': {'tasks': 2, 'task_type': Thread}, 'warn': {'warn_on_fail': True}, 'getters': {'attr_getters': {}}, 'custom': {'custom': 1},
        'snake': {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}}


def fetch(r, path):
    for s in path:
        if isinstance(r, dict):
            r = r[s]
        elif isinstance(s, str):
            r = getattr(r, s)
        else:
            r = list(r)[s]
    return r


def nonjson(v):
    return type(v) not in VALID


def attempt(fn):
    with caught():
        try:
            return ('ok', fn())
        except Exception as err:
            return ('err', err)


def explore(ctx, node, optnames=('none',)):
    """All choices of positions of one value."""
    for optname in optnames:
        opts = OPTS[optname]
        f = jsons.fork()
        base = attempt(lambda: jsons.load(node.json, node.tp, fork_inst=f, **opts))
        if base[0] != 'ok':
            continue
        n = 0
        for src, rep in node.sources():
            if not rep:
                continue
            n += 1
            if n > LIMIT:
                ctx.cap('%s: more than %d choices' % (node.name, LIMIT))
                break
            before = snap(src)
            ctx.step()
            r = attempt(lambda: jsons.load(src, node.tp, fork_inst=f, **opts))
            if r[0] != 'ok' or not same(r[1], base[1]):
                ctx.fail('lenient', 'load(%.200r, %s, %s) gives %r, expected %r' % (src, node.name, optname, r[1], base[1]))
            else:
                for m, path in rep:
                    if fetch(r[1], path) is not m.value and nonjson(m.value):
                        ctx.fail('copied', 'load(%.200r, %s) does not take over the %s at %r' % (src, node.name, m.name, path))
            if snap(src) != before:
                ctx.fail('source', 'load(%.200r, %s) changed its source' % (src, node.name))
            if any(nonjson(m.value) for m, _ in rep):
                ctx.step()
                r = attempt(lambda: jsons.load(src, node.tp, strict=True, fork_inst=f, **{k: v for k, v in opts.items() if k != 'warn_on_fail'}))
                if r[0] == 'ok' or not isinstance(r[1], jsons.DeserializationError):
                    ctx.fail('strict', 'load(%.200r, %s, strict=True) gives %r' % (src, node.name, r[1]))
            ctx.state(node.name, optname, tuple(p for _, p in rep))
            ctx.outcome(min(len(rep), 9))
        ctx.trace()


def count(node, target, src):
    """How many values of the type are not deserialized yet in a source."""
    if src is node.value and node.swappable:
        return 0
    n = int(node.tp is target)
    for step, k in node.kids:
        n += count(k, target, src[step] if isinstance(src, (list, dict)) else k.value)
    return n


def validated(ctx, node):
    """The validators of what is taken over run, once, with that very value."""
    n = 0
    for src, rep in node.sources():
        if not rep:
            continue
        n += 1
        if n > 60:
            break
        classes = []
        for m, _ in rep:
            if m.tp not in classes and not (isinstance(m.tp, type) and issubclass(m.tp, dict)):
                classes.append(m.tp)
        for target in classes:
            for verdict in (True, False):
                f = jsons.fork()
                seen = []

                def validator(x):
                    seen.append(x)
                    return verdict
                jsons.set_validator(validator, target, fork_inst=f)
                ctx.step()
                r = attempt(lambda: jsons.load(src, node.tp, fork_inst=f))
                mine = [m.value for m, _ in rep if m.tp is target]
                if verdict:
                    if r[0] != 'ok':
                        ctx.fail('validated', 'load(%.200r, %s) with a validator gives %r' % (src, node.name, r[1]))
                    elif any(sum(x is v for x in seen) < sum(w is v for w in mine) for v in mine) or target is not ucls.Node and len(seen) > len(mine) + count(node, target, src):
                        ctx.fail('validated', 'load(%.200r, %s) validates %r, expected each of %r once' % (src, node.name, seen, mine))
                elif r[0] == 'ok' or not isinstance(r[1], jsons.ValidationError):
                    ctx.fail('invalid', 'load(%.200r, %s) with a rejecting validator for %s gives %r' % (src, node.name, target, r[1]))
        ctx.state('validated', node.name, tuple(p for _, p in rep))
    ctx.trace()


# ------------------------------------------------------------------ cases

ALL = LEAVES + OBJECTS
BY_NAME = {**LEAF, **OBJ}


def width(name):
    return 1 if name in ('Optional', 'NewType') else 3


def singles(ctx, shard, shards):
    for i, t in enumerate(ALL):
        if i % shards != shard:
            continue
        for k in range(len(t.vals) if ctx.thorough else 2):
            n = leaf(t, k)
            explore(ctx, n, ('none', 'custom', 'getters'))
            validated(ctx, n)
            for c in COMBOS:
                m = COMBOS[c](*[leaf(t, k + x) for x in range(width(c))])
                explore(ctx, m, tuple(OPTS) if ctx.thorough or k == 0 else ('none',))
                if k == 0:
                    validated(ctx, m)


def chains(ctx, name, outer):
    t = BY_NAME[name]
    for a in COMBOS:
        w = min(2, width(a))
        m = COMBOS[a](*[leaf(t, x) for x in range(w)])
        m2 = COMBOS[a](*[leaf(t, x + 1) for x in range(w)])
        n = COMBOS[outer](*([m, m2] if width(outer) > 1 else [m]))
        explore(ctx, n, ('none', 'tasks', 'snake') if outer in ('List', 'Deque') else ('none',))
        if ctx.thorough:
            if outer != 'Optional' and a not in ('Optional', 'NewType'):
                # (a Union reports a rejection as a mismatch; the elements of a NewType have two types with a validator)
                validated(ctx, n)
            for b in COMBOS:
                explore(ctx, COMBOS[b](*([n, m2_as(n, a, outer, t)] if width(b) > 1 and not mixed(b, n) else [n])))


def m2_as(n, a, outer, t):
    w = min(2, width(a))
    m = COMBOS[a](*[leaf(t, x + 1) for x in range(w)])
    return COMBOS[outer](*[m])


def mixed(b, n):
    return b not in PAIR        # sequences have elements of one type


def pairs(ctx, kind, shard, shards):
    for i, (s, t) in enumerate(itertools.product(ALL, repeat=2)):
        if i % shards != shard:
            continue
        for order in ((s, t), (s, t, s)) if ctx.thorough else ((s, t),):
            explore(ctx, COMBOS[kind](*[leaf(x, y) for y, x in enumerate(order)]))


def misc(ctx, _):
    d = dtm.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dtm.timezone.utc)
    dc = ucls.DC(1, 'x')

    def expect(key, what, fn, want, exc=None):
        ctx.step()
        ctx.trace()
        r = attempt(fn)
        if exc:
            if r[0] == 'ok' or not isinstance(r[1], exc):
                ctx.fail(key, '%s gives %r, expected a %s' % (what, r[1], exc.__name__))
        elif r[0] != 'ok' or not same(r[1], want):
            ctx.fail(key, '%s gives %r, expected %r' % (what, r[1], want))
        ctx.state(key, what)
    # keys
    for k, j in ((d, '2020-01-02T03:04:05Z'), (dtm.date(2020, 1, 2), '2020-01-02')):
        for other in ({}, {'2021-01-02T03:04:05Z' if isinstance(k, dtm.datetime) else '2021-01-02': 2}):
            full = {j: 1, **other}
            expect('keys', 'load(%r as Dict)' % {k: 1, **other}, lambda: jsons.load({k: 1, **other}, Dict[type(k), int]), jsons.load(full, Dict[type(k), int]))
            expect('keys strict', 'load(%r as Dict, strict)' % {k: 1, **other}, lambda: jsons.load({k: 1, **other}, Dict[type(k), int], strict=True), None, jsons.DeserializationError)
    # keys and values
    for ks, vs in itertools.product((0, 1), repeat=2):
        src = {d if ks else '2020-01-02T03:04:05Z': dc if vs else {'a': 1, 'b': 'x'}}
        expect('keys', 'load(%r)' % src, lambda: jsons.load(src, Dict[dtm.datetime, ucls.DC]), {d: dc})
    # attributes that the constructor does not know
    class Free:
        def __init__(self, a: int = 0):
            self.a = a

    class Ann:
        when: dtm.datetime
        dc: ucls.DC
        l: List[ucls.DC]

        def __init__(self, a: int = 0):
            self.a = a
    for w, x in itertools.product((d, '2020-01-02T03:04:05Z'), (dc, {'a': 1, 'b': 'x'})):
        expect('remaining', 'annotated attributes %r %r' % (w, x), lambda: vars(jsons.load({'when': w, 'dc': x, 'l': [x, x], 'a': 5}, Ann)), {'when': d, 'dc': dc, 'l': [dc, dc], 'a': 5})
    expect('remaining', 'attributes without type', lambda: vars(jsons.load({'when': d, 'dc': dc}, Free)), {'a': 0, 'when': d, 'dc': dc})
    # -meta next to objects
    meta = jsons.dump(ucls.DC(1, 'x'), verbose=True)
    for v in (True,):
        class In:
            def __init__(self, x: ucls.DC, y: dtm.datetime):
                self.x, self.y = x, y
        for x, y in itertools.product((meta, {'a': 1, 'b': 'x'}, dc), (d, '2020-01-02T03:04:05Z')):
            expect('meta', 'meta %r %r' % (x, y), lambda: vars(jsons.load({'x': x, 'y': y}, In)), {'x': dc, 'y': d})
            expect('meta', 'list of meta %r' % (x,), lambda: jsons.load([x, meta], List[ucls.DC]), [dc, dc])
    # Any takes everything as it is
    for v in (d, dc, [d], {'k': dc}, 5, None):
        expect('any', 'load(%r, Any)' % (v,), lambda: jsons.load(v, Any), v)
        expect('any', 'load([%r], List[Any])' % (v,), lambda: jsons.load([v], List[Any]), [v])
        expect('any', 'load({k: %r}, Dict[str, Any])' % (v,), lambda: jsons.load({'k': v}, Dict[str, Any]), {'k': v})
    # decorators
    @loaded()
    def fn(a: dtm.datetime, b: ucls.DC, *c: ucls.DC, e: List[ucls.DC] = ()) -> ucls.DC:
        return [a, b, list(c), list(e)] if False else _ret(a, b, c, e)

    def _ret(a, b, c, e):
        got.append([a, b, list(c), list(e)])
        return dc
    J = {'a': 1, 'b': 'x'}
    for a, b, c, e in itertools.product((d, '2020-01-02T03:04:05Z'), (dc, J), (dc, J), (dc, J)):
        got = []
        expect('loaded', 'loaded(%r, %r, %r, e=%r)' % (a, b, c, e), lambda: fn(a, b, c, e=[e, J]), dc)
        if not same(got, [[d, dc, [dc], [dc, dc]]]):
            ctx.fail('loaded', 'a loaded function receives %r' % (got,))
    # a custom deserializer is not asked for what is deserialized already
    f = jsons.fork()
    jsons.set_deserializer(lambda o, cls, **kw: ucls.DC(-1, 'custom'), ucls.DC, fork_inst=f)
    expect('custom', 'custom deserializer', lambda: jsons.load([dc, J], List[ucls.DC], fork_inst=f), [dc, ucls.DC(-1, 'custom')])
    # without a type, objects are no source
    for v in (d, dc, [dc], {'k': d}, [[d]]):
        for kw in ({}, {'strict': True}):
            expect('untyped', 'load(%r, **%r)' % (v, kw), lambda: jsons.load(v, **kw), None, jsons.DeserializationError)
    # a value of a different class is not accepted
    for v, tp in ((dc, ucls.Plain), (d, ucls.DC), (ucls.Plain(1, 'x'), ucls.DC), (dtm.date(2020, 1, 1), dtm.datetime), (dc, List[ucls.DC]), (d, int), (object(), ucls.DC), (b'x', dtm.datetime)):
        for kw in ({}, {'strict': True}):
            for wrap in (lambda v, t: (v, t), lambda v, t: ([v], List[t]), lambda v, t: ({'k': v}, Dict[str, t]), lambda v, t: ([v], Tuple[t])):
                vv, tt = wrap(v, tp)
                expect('different', 'load(%r, %s, **%r)' % (vv, tt, kw), lambda: jsons.load(vv, tt, **kw), None, jsons.DeserializationError)


def cases(tier):
    for s in range(16):
        yield Case('single:%d' % s, ('singles', s, 16))
    for name in REP:
        for o in COMBOS:
            yield Case('chain:%s:%s' % (name, o), ('chains', name, o))
    for k in PAIR:
        for s in range(2):
            yield Case('pair:%s:%d' % (k, s), ('pairs', k, s, 2))
    yield Case('misc', ('misc', None))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
