"""C03 arguments are never modified."""
import asyncio
import itertools
import json
import re
import typing

from core import Case
from lib import caught
from universe import *  # noqa
import ucls
import jsons
from jsons import Verbosity
from jsons.decorators import dumped, loaded

PROPERTY = 'C03'
ASSUMPTIONS = ['arguments are built from the declared universe; a snapshot is type exact, ordered and deep']


def BOUNDS(tier):
    return {'types': 'leaves, classes, one combinator; two over representatives', 'sources': 'valid, alternative, '
            'malformed, with hashed keys, with meta sections', 'calls': 'dump*/load*/transform/decorators x option sets',
            'calls on the same argument': 2}


class Raises(Eq):
    """Dumping fails half way."""

    def __init__(self, a: List[int], z: Dict[str, int]):
        self.a = a
        self.bad = object_without_serializer()
        self.z = z


def object_without_serializer():
    def gen():
        yield 1
    return gen()


class PropRaises(Eq):
    def __init__(self, a: List[int]):
        self.a = a

    @property
    def p(self):
        raise ValueError('p')


def containers(v, acc, depth=0):
    """ids of the mutable containers in a value."""
    if depth > 40:
        return acc
    if isinstance(v, (list, set, deque, dict)):
        if id(v) in acc:
            return acc
        acc.add(id(v))
    if isinstance(v, collections.abc.Mapping):
        for k, x in v.items():
            containers(k, acc, depth + 1)
            containers(x, acc, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset, deque)):
        for x in v:
            containers(x, acc, depth + 1)
    elif isinstance(v, (str, bytes, int, float, complex, NoneType, type, enum.Enum, dtm.date, dtm.time, dtm.tzinfo,
                        dtm.timedelta, decimal.Decimal, uuid.UUID, pathlib.PurePath)):
        pass
    else:
        for x in attrs_of(v).values():
            containers(x, acc, depth + 1)
    return acc


def clsnap(tp):
    """Snapshot of every class mentioned in a type."""
    res = []
    seen = set()

    def go(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, type) and x.__module__ not in ('builtins', 'datetime', 'decimal', 'uuid', 'collections',
                                                        'pathlib', 'zoneinfo', 'collections.abc', 'typing'):
            for c in x.__mro__[:-1]:
                if c.__module__.startswith('jsons') or c.__module__ in ('typing', 'enum', 'builtins'):
                    continue
                d = tuple(sorted((k, id(v) if not isinstance(v, (dict, list, tuple, str, int)) else repr(v))
                                 for k, v in vars(c).items() if k != '__abstractmethods__'
                                 and not (k == '__annotations__' and not v)))     # created lazily by CPython
                i = vars(c).get('__init__')
                res.append((c.__qualname__, d, repr(getattr(i, '__annotations__', None)),
                            repr(getattr(i, '__defaults__', None))))
                for h in list(getattr(c, '__annotations__', {}).values()):
                    go(h)
        for a in typing.get_args(x):
            go(a)
    go(tp)
    return tuple(res)


DUMP_OPTS = [
    ('plain', lambda: {}), ('strict', lambda: {'strict': True}),
    ('verbose', lambda: {'verbose': True}),
    ('strip', lambda: {'strip_nulls': True, 'strip_privates': True, 'strip_properties': True,
                       'strip_class_variables': True, 'strip_attr': ['b']}),
    ('camel', lambda: {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE}),
    ('types', lambda: {'types': {'a': int, 'k': str}}),
    ('mixed', lambda: {'verbose': Verbosity.WITH_EVERYTHING, 'strip_nulls': True, 'strip_attr': ('zz', 'a'),
                       'key_transformer': jsons.KEY_TRANSFORMER_PASCALCASE, 'use_enum_name': False}),
]
LOAD_OPTS = [
    ('plain', lambda: {}), ('strict', lambda: {'strict': True}),
    ('getters', lambda: {'attr_getters': {'a': lambda: 5, 'zz': lambda: 6}}),
    ('snake', lambda: {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}),
    ('warn', lambda: {'warn_on_fail': True}),
    ('hints', lambda: {'use_enum_name': True, 'custom': {'x': [1]}}),
]


def snapkw(kw):
    return tuple((k, snap(v) if not callable(v) else id(v)) for k, v in kw.items())


def guarded(ctx, key, what, fn, args, kw, tp, expect_fail=None):
    """Call fn(*args, **kw) twice; nothing given may change, and both calls must agree."""
    before = [snap(a) for a in args]
    kbefore = snapkw(kw)
    cbefore = clsnap(tp) if tp is not None else None
    outs = []
    for i in range(2):
        try:
            r = ('ok', fn(*args, **kw))
        except Exception as err:
            r = ('err', type(err).__name__, str(err))
        outs.append(r)
        ctx.step()
        for n, (a, b) in enumerate(zip(args, before)):
            if snap(a) != b:
                ctx.fail(key, '%s modified its argument %d (call %d): %r was %r' % (what, n, i + 1, snap(a), b))
                return outs
        if snapkw(kw) != kbefore:
            ctx.fail(key, '%s modified its keyword arguments: %r was %r' % (what, snapkw(kw), kbefore))
            return outs
        if cbefore is not None and clsnap(tp) != cbefore:
            ctx.fail(key, '%s modified a class: %r was %r' % (what, clsnap(tp), cbefore))
            return outs
    ctx.trace()
    ctx.outcome(what + ':' + outs[0][0])
    a, b = outs
    if a[0] == 'ok':
        if b[0] != 'ok' or TIME.sub('', repr(snap(a[1]))) != TIME.sub('', repr(snap(b[1]))):
            ctx.fail(key, '%s gives another result for the same argument: %r, then %r' % (what, a, b))
    elif a[:2] != b[:2]:
        ctx.fail(key, '%s ends differently for the same argument: %r, then %r' % (what, a, b))
    return outs


TIME = re.compile(r'dump_time.{0,80}?Z')


def strip_time(j):
    if isinstance(j, dict) and '-meta' in j:
        j = {**j, '-meta': {k: v for k, v in j['-meta'].items() if k != 'dump_time'}}
    return j


def calls(ctx, t, quickmode=False):
    before = clsnap(t.tp)
    calls_(ctx, t, quickmode)
    ctx.expect(clsnap(t.tp) == before, 'class|' + t.name, 'a call modified a class: %r was %r' % (clsnap(t.tp), before))


def calls_(ctx, t, quickmode=False):
    dump_opts = DUMP_OPTS if not quickmode else [DUMP_OPTS[0], DUMP_OPTS[1], DUMP_OPTS[-1]]
    load_opts = LOAD_OPTS if not quickmode else [LOAD_OPTS[0], LOAD_OPTS[1], LOAD_OPTS[3]]
    for i, (v, j) in enumerate(t.vals):
        for name, mk in dump_opts:
            kw = mk()
            key = '%s|v%d|%s' % (t.name, i, name)
            ctx.state(t.name, i, name)
            guarded(ctx, 'dump|' + key, 'dump', lambda o, **k: jsons.dump(o, **k), [v], kw, None)
            guarded(ctx, 'dumpcls|' + key, 'dump with cls', lambda o, **k: jsons.dump(o, t.tp, **k), [v], kw, None)
            guarded(ctx, 'dumps|' + key, 'dumps', lambda o, jk, **k: jsons.dumps(o, jk, **k),
                    [v, {'sort_keys': False, 'indent': 1}], kw, None)
            guarded(ctx, 'dumpb|' + key, 'dumpb', lambda o, jk, **k: jsons.dumpb(o, 'utf-8', jk, **k),
                    [v, {'sort_keys': False}], kw, None)
        guarded(ctx, 'transform|%s|v%d' % (t.name, i), 'transform',
                lambda o, da, dk, **k: jsons.transform(o, t.tp, dump_args=da, dump_kwargs=dk, **k),
                [v, [], {'strict': False, 'strip_attr': ['zz']}], {'custom': [1]}, None)
    srcs = [('j%d' % i, j) for i, (_, j) in enumerate(t.vals)] + [('a%d' % i, j) for i, (j, _) in enumerate(t.alt)] + \
        [('b%d' % i, j) for i, j in enumerate(t.bad)]
    if quickmode and len(srcs) > 12:
        srcs = srcs[::3]
    for lab, j in srcs:
        variants = [(lab, j)]
        if t.obj and isinstance(j, dict) and not quickmode:
            variants.append((lab + 'meta', {**j, '-meta': {'classes': {'/': 'ucls.DC', '/a': 'builtins.int'}}}))
            variants.append((lab + 'extra', {**j, 'extra': {'-keys': {1: [2]}, 1: [3]}, 'l': [[1], {'q': [2]}]}))
        for lab2, src in variants:
            for name, mk in load_opts:
                key = '%s|%s|%s' % (t.name, lab2, name)
                ctx.state(t.name, lab2, name)
                with caught():
                    outs = guarded(ctx, 'load|' + key, 'load', lambda o, **k: jsons.load(o, t.tp, **k), [src], mk(), None)
                if outs[0][0] == 'ok' and '-meta' not in repr(src) and 'extra' not in lab2:
                    shared = containers(outs[0][1], set()) & containers(src, set())
                    if shared:
                        ctx.fail('alias|' + key, 'the loaded value shares a mutable container with the source',
                                 value=outs[0][1], source=src)
                    if len(outs) > 1 and outs[1][0] == 'ok' and (containers(outs[0][1], set())
                                                                & containers(outs[1][1], set())):
                        ctx.fail('alias2|' + key, 'two loads share a mutable container', value=outs[0][1], source=src)
        with caught():
            guarded(ctx, 'untyped|%s|%s' % (t.name, lab), 'load without cls', lambda o, **k: jsons.load(o, **k), [j], {}, None)
            text = json.dumps(j)
            guarded(ctx, 'loads|%s|%s' % (t.name, lab), 'loads', lambda s, jk, **k: jsons.loads(s, t.tp, jk, **k),
                    [text, {'parse_int': int}], {'custom': [1]}, None)
            guarded(ctx, 'loadb|%s|%s' % (t.name, lab), 'loadb',
                    lambda s, jk, **k: jsons.loadb(s, t.tp, 'utf-8', jk, **k),
                    [text.encode(), {'parse_int': int}], {'custom': [1]}, None)


def special(ctx, which):
    if which == 'keys':
        K = [(1, 2), (3, 'x'), Frozen(1, 'x'), NT(1, 'y'), 5, 's', None]
        for n in (1, 2, 3):
            for ks in itertools.combinations(range(len(K)), n):
                d = {K[k]: [i] for i, k in enumerate(ks)}
                for name, mk in DUMP_OPTS:
                    guarded(ctx, 'kd|%r|%s' % (ks, name), 'dump of a dict with hashed keys',
                            lambda o, **k: jsons.dump(o, **k), [d], mk(), None)
                for kt in (Tuple[int, int], Frozen, NT, Tuple[int, str], str):
                    src = jsons.dump(d)
                    for name, mk in LOAD_OPTS:
                        with caught():
                            guarded(ctx, 'kl|%r|%s|%s' % (ks, kt, name), 'load of a dict with stored keys',
                                    lambda o, **k: jsons.load(o, Dict[kt, List[int]], **k), [src], mk(), None)
                            guarded(ctx, 'kx|%r|%s|%s' % (ks, kt, name), 'load of a dict with stored keys (nested)',
                                    lambda o, **k: jsons.load(o, List[Dict[kt, List[int]]], **k), [[src, src]], mk(), None)
                with caught():
                    guarded(ctx, 'ku|%r' % (ks,), 'untyped load of a dict with stored keys',
                            lambda o: jsons.load(o), [jsons.dump(d)], {}, None)
                    guarded(ctx, 'ko|%r' % (ks,), 'load of an object with a stray dict with stored keys',
                            lambda o: jsons.load(o, DC), [{'a': 1, 'b': 'x', 'c': jsons.dump(d)}], {}, DC)
    elif which == 'fail':
        for cls in (Raises, PropRaises):
            o = Raises([1, 2], {'k': 1}) if cls is Raises else PropRaises([1])
            for wrap in (lambda x: x, lambda x: [x, [1]], lambda x: {'k': x, 'l': [1]}, lambda x: DC(x, [1])):
                for name, mk in DUMP_OPTS:
                    v = wrap(o)
                    before = snap_nogen(v)
                    kw = mk()
                    kb = snapkw(kw)
                    with caught():
                        try:
                            jsons.dump(v, **kw)
                        except Exception:
                            pass
                    ctx.expect(snap_nogen(v) == before and snapkw(kw) == kb, 'fail|%s|%s' % (cls.__name__, name),
                               'a failing dump modified its arguments')
    elif which == 'verbose':
        for v in (DC(1, 'x'), OBJ['Node'].vals[1][0], OBJ['Wide'].vals[0][0], [DC(1, 'x')], {'k': DC(1, 'x')}):
            src = jsons.dump(v, verbose=True)
            for name, mk in LOAD_OPTS:
                for tp in (None, type(v) if not isinstance(v, (list, dict)) else None):
                    with caught():
                        guarded(ctx, 'vl|%s|%s|%s' % (type(v).__name__, name, tp), 'load of a verbose dump',
                                lambda o, **k: jsons.load(o, tp, **k), [src], mk(), tp)
    elif which == 'decorators':
        for t in (LEAF['datetime'], LEAF['int'], OBJ['DC'], List_(OBJ['DC']), Dict_(LEAF['int']), OBJ['Node'],
                  Tuple_(LEAF['int'], OBJ['DC'])):
            ns = {'X': t.tp, 'seen': []}
            for form in ('pos', 'kw', 'star', 'starkw', 'method', 'async'):
                for side in ('loaded', 'dumped'):
                    dec = loaded if side == 'loaded' else dumped
                    tp = t.tp

                    def f(x: tp) -> tp:
                        return x

                    def g(*x: tp) -> tp:
                        return x[0]

                    def h(**x: tp) -> tp:
                        return x['x']

                    async def a(x: tp) -> tp:
                        return x

                    class M:
                        @dec()
                        def f(self, x: tp) -> tp:
                            return x
                    for n, (v, j) in enumerate(t.vals):
                        arg = j if side == 'loaded' else v
                        opts = {'fork_inst': jsons.JsonSerializable}
                        fn = {'pos': lambda x: dec()(f)(x), 'kw': lambda x: dec()(f)(x=x), 'star': lambda x: dec()(g)(x, x),
                              'starkw': lambda x: dec()(h)(x=x), 'method': lambda x: M().f(x),
                              'async': lambda x: asyncio.run(dec()(a)(x))}[form]
                        guarded(ctx, 'dec|%s|%s|%s|%d' % (t.name, form, side, n), 'a %s function' % side, fn, [arg], {}, t.tp)
                        # the container of the arguments is not the function's to change either
                        lst, dct = [arg], {'x': arg}
                        b1, b2 = snap(lst), snap(dct)
                        for call in (lambda: dec()(f)(*lst), lambda: dec()(f)(**dct)):
                            try:
                                call()
                            except Exception:
                                pass
                        ctx.expect(snap(lst) == b1 and snap(dct) == b2, 'decargs|%s|%s|%d' % (t.name, side, n),
                                   'argument containers changed')
    elif which == 'options':
        options(ctx)
    elif which == 'longchain':
        # nothing accumulates over many calls on the same objects
        for t in OBJECTS + [List_(OBJ['DC']), Dict_(OBJ['Node'])]:
            v, j = t.vals[-1]
            b, bj, bc = snap(v), snap(j), clsnap(t.tp)
            for i in range(150):
                jsons.dump(v)
                jsons.load(j, t.tp)
            ctx.expect((snap(v), snap(j), clsnap(t.tp)) == (b, bj, bc), 'chain|' + t.name,
                       'something changed after 150 calls')


OPT = {
    'fork_inst': lambda: jsons.fork(name='opt'), 'key_transformer': lambda: jsons.KEY_TRANSFORMER_SNAKECASE, 'strict': lambda: True, 'custom': lambda: {'x': [1]}, 'types': lambda: {'a': int},
    'strip_attr': lambda: ['zz'], 'attr_getters': lambda: {'b': lambda: 'got'}, 'verbose': lambda: False, 'warn_on_fail': lambda: True, 'strip_nulls': lambda: True, 'tasks': lambda: 2,
}


def options(ctx):
    """Every pair of options, given to every function that takes options: nothing given changes."""
    class JSo(jsons.JsonSerializable):
        def __init__(self, a: int, b: str = 'q'):
            self.a, self.b = a, b
    for n in range(0, 4 if ctx.thorough else 3):
        for names in itertools.combinations(OPT, n):
            mk = lambda ns=names: {k: OPT[k]() for k in ns}    # noqa: E731
            o, j, text = DC(1, 'x'), {'a': 1, 'b': 'x'}, '{"a": 1, "b": "x"}'
            ctx.state(names)
            with caught():
                for what, fn, args in (
                        ('dump', jsons.dump, [o]), ('dump cls', lambda o, **k: jsons.dump(o, DC, **k), [o]), ('dump list', jsons.dump, [[o, [o]]]), ('dump dict', jsons.dump, [{'k': o}]),
                        ('dumps', lambda o, k2, **k: jsons.dumps(o, k2, **k), [o, {'indent': 1}]), ('dumpb', lambda o, k2, **k: jsons.dumpb(o, jdkwargs=k2, **k), [o, {'indent': 1}]),
                        ('load', lambda j, **k: jsons.load(j, DC, **k), [j]), ('load list', lambda j, **k: jsons.load(j, List[DC], **k), [[j, j]]), ('load untyped', jsons.load, [[j]]),
                        ('loads', lambda j, k2, **k: jsons.loads(j, DC, k2, **k), [text, {'parse_int': int}]), ('loadb', lambda j, k2, **k: jsons.loadb(j, DC, jdkwargs=k2, **k), [text.encode(), {'parse_int': int}]),
                        ('JsonSerializable.load', lambda j, **k: JSo.load(j, **k), [j]), ('JsonSerializable.from_json', lambda j, **k: JSo.from_json(j, **k), [j]),
                        ('JsonSerializable.dump', lambda o, **k: o.dump(**k), [JSo(1)]), ('JsonSerializable.loads', lambda j, **k: JSo.loads(j, **k), [text])):
                    kw = mk()
                    if what.startswith('JsonS'):
                        kw.pop('fork_inst', None)
                    guarded(ctx, 'options|%s|%s' % (what, '+'.join(names)), what, fn, args, kw, None)
                for dn in range(0, 3):
                    for dnames in itertools.combinations([k for k in OPT if k not in ('attr_getters', 'warn_on_fail')], dn):
                        if dn == 2 and n == 2 and not ctx.thorough and 'fork_inst' not in dnames + names:
                            continue
                        guarded(ctx, 'options|transform|%s|%s' % ('+'.join(names), '+'.join(dnames)), 'transform', lambda o, dk, **k: jsons.transform(o, DC, dump_kwargs=dk, **k),
                                [o, {k: OPT[k]() for k in dnames}], mk(), None)
                # options that a class was made with
                opts = mk()
                opts.pop('fork_inst', None)
                b = snapkw(opts)
                try:
                    W = jsons.JsonSerializable.with_dump(**opts).with_load(**opts)

                    class Wo(W):
                        def __init__(self, a: int):
                            self.a = a
                    for _ in range(2):
                        Wo(1).json
                        Wo.from_json(j)
                        Wo(1).dump(strip_attr=['q'])
                except jsons.JsonsError:
                    pass
                ctx.expect(snapkw(opts) == b, 'options|with|%s' % '+'.join(names), 'the options given to with_dump and with_load changed: %r was %r' % (snapkw(opts), b))


def snap_nogen(v):
    if isinstance(v, (Raises, PropRaises)):
        return (type(v).__name__, tuple((k, id(x) if k == 'bad' else snap(x)) for k, x in vars(v).items()))
    if isinstance(v, list):
        return [snap_nogen(x) for x in v]
    if isinstance(v, dict):
        return {k: snap_nogen(x) for k, x in v.items()}
    if isinstance(v, DC):
        return [snap_nogen(v.a), snap(v.b)]
    return snap(v)


def cases(tier):
    for w in ('keys', 'fail', 'verbose', 'decorators', 'longchain', 'options'):
        yield Case('s:' + w, ('special', w))
    for t in terms(0) + terms(1):
        yield Case('d%d:%s' % (t.depth, t.name), ('term', t, False))
    reps = [LEAF[n] for n in ('int', 'datetime')] + [OBJ['DC']]
    if tier == 'thorough':
        reps += [LEAF[n] for n in ('str', 'Color', 'complex')] + [OBJ['NT'], OBJ['Plain'], OBJ['JS'], OBJ['Node']]
    for t in terms(2, reps):
        yield Case('dd:%s' % t.name, ('term', t, tier != 'thorough'))


def run(ctx, args):
    with caught():
        if args[0] == 'special':
            special(ctx, args[1])
        else:
            calls(ctx, args[1], args[2])
