"""C22 failing list elements are reported by index, or skipped with a warning."""
import itertools
import re
import warnings
from collections import deque
from collections.abc import MutableSequence as AbcMutableSequence
from dataclasses import make_dataclass
from threading import Thread
from typing import Deque, Dict, FrozenSet, Iterable, List, MutableSequence, NamedTuple, Optional, Sequence, Set, Tuple

import jsons
import ucls
from core import Case
from universe import *  # noqa
from universe import same, snap

PROPERTY = 'C22'
ASSUMPTIONS = ['warn_on_fail is about the elements of the outermost list of a load (it is a parameter of the list deserializer, not handed down to lists in lists)',
               'a failed validation is not a failed deserialization: it is raised as ValidationError', 'warnings are counted with the filter "always"']


def BOUNDS(tier):
    n = maxlen(tier)
    return {'lengths': 'every list of up to %d elements, every subset of failing elements, every rotation of the failing values' % n,
            'element types': 'all leaves, classes and unary combinators over representatives that have failing values',
            'containers': sorted(k for k, *_ in CONTAINERS), 'nesting': 'up to 3 levels of lists with every (multiset of) failing position(s)'}


def maxlen(tier):
    return 7 if tier == 'thorough' else 4


def named(cls):
    return [int(i) for i in re.findall(r'element at index (\d+)\.', cls)]


def field(name, kind, tp):
    if kind == 'dc':
        return make_dataclass(name, [('f0', tp)], module='ucls')
    if kind == 'nt':
        c = NamedTuple(name, [('f0', tp)])
        c.__module__ = 'ucls'
        return c
    ns = {}
    exec('class %s:\n def __init__(self, f0):\n  self.f0 = f0' % name, {}, ns)
    ns[name].__init__.__annotations__['f0'] = tp
    return ns[name]


# name, type of t -> type, source from list, elements of the result, ordered
CONTAINERS = [
    ('List', lambda t: List[t], lambda j: j, lambda r: r, list),
    ('list', lambda t: list[t], lambda j: j, lambda r: r, list),
    ('Sequence', lambda t: Sequence[t], lambda j: j, lambda r: r, list),
    ('MutableSequence', lambda t: MutableSequence[t], lambda j: j, lambda r: r, list),
    ('Iterable', lambda t: Iterable[t], lambda j: j, lambda r: r, list),
    ('Deque', lambda t: Deque[t], lambda j: j, lambda r: r, deque),
    ('Set', lambda t: Set[t], lambda j: j, lambda r: r, set),
    ('FrozenSet', lambda t: FrozenSet[t], lambda j: j, lambda r: r, frozenset),
    ('Optional', lambda t: Optional[List[t]], lambda j: j, lambda r: r, list),
    ('Dict', lambda t: Dict[str, List[t]], lambda j: {'k': j}, lambda r: r['k'], list),
    ('Tuple', lambda t: Tuple[int, List[t]], lambda j: [1, j], lambda r: r[1], list),
    ('Tuple...', lambda t: Tuple[List[t], ...], lambda j: [j], lambda r: r[0], list),
    ('dc', lambda t: field('Dc', 'dc', List[t]), lambda j: {'f0': j}, lambda r: r.f0, list),
    ('nt', lambda t: field('Nt', 'nt', List[t]), lambda j: {'f0': j}, lambda r: r.f0, list),
    ('pl', lambda t: field('Pl', 'pl', List[t]), lambda j: {'f0': j}, lambda r: r.f0, list),
    ('dc of dc', lambda t: field('Dc', 'dc', field('Dd', 'dc', Dict[str, List[t]])), lambda j: {'f0': {'f0': {'k': j}}}, lambda r: r.f0.f0['k'], list),
    ('dc of set', lambda t: field('Dc', 'dc', Set[t]), lambda j: {'f0': j}, lambda r: r.f0, set),
]
HASHED = {'Set', 'FrozenSet', 'dc of set'}


def attempt(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('ok', fn())
        except Exception as err:
            r = ('err', err)
    return r, [str(x.message) for x in w]


def judge(ctx, key, tp, src, out, kind, want, fails, **opts):
    """want: the loaded good elements; fails: indices of the failing ones."""
    ctx.step()
    before = snap(src)
    r, w = attempt(lambda: jsons.load(src, tp, **opts))
    if fails:
        if r[0] == 'ok':
            ctx.fail(key, 'load(%r, %s) gives %r although elements %r cannot be loaded' % (src, tp, r[1], fails))
        elif not isinstance(r[1], jsons.DeserializationError) or named(str(r[1]))[:1] != (fails[:1] if not key.startswith('Optional') else []):
            ctx.fail(key, 'load(%r, %s) raises %s: %s, expected index %d' % (src, tp, type(r[1]).__name__, r[1], fails[0]))
    elif r[0] != 'ok' or not same(out(r[1]), kind(want)):
        ctx.fail(key, 'load(%r, %s) gives %r, expected %r' % (src, tp, r[1], want))
    if w:
        ctx.fail(key + '|warned', 'load(%r, %s) warns %r' % (src, tp, w))
    if snap(src) != before:
        ctx.fail(key + '|source', 'load(%r, %s) changed its source' % (src, tp))
    # skipping
    ctx.step()
    r, w = attempt(lambda: jsons.load(src, tp, warn_on_fail=True, **opts))
    if r[0] != 'ok':
        ctx.fail(key + '|skip', 'load(%r, %s, warn_on_fail=True) raises %s: %s' % (src, tp, type(r[1]).__name__, r[1]))
    else:
        got = out(r[1])
        if not same(got, kind(want)):
            ctx.fail(key + '|skip', 'load(%r, %s, warn_on_fail=True) gives %r, expected %r' % (src, tp, r[1], want))
    if [named(x)[:1] for x in w] != [[i] for i in fails]:
        ctx.fail(key + '|warnings', 'load(%r, %s, warn_on_fail=True) warns %r, expected indices %r' % (src, tp, w, fails))
    if snap(src) != before:
        ctx.fail(key + '|source', 'load(%r, %s, warn_on_fail=True) changed its source' % (src, tp))
    ctx.outcome('fails %d' % len(fails))
    ctx.trace()


def values(ctx, cname, tname, n):
    """Every list of up to n elements with every subset of failing elements."""
    t = TERM[tname]
    _, mk, src, out, kind = next(c for c in CONTAINERS if c[0] == cname)
    tp = mk(t.tp)
    good = [(j, v) for v, j in t.vals] + list(t.alt)
    bad = [b for b in t.bad if b is not None] if 'Optional' in tname else t.bad
    bad = [b for b in bad if attempt(lambda: jsons.load(b, t.tp))[0][0] == 'err']
    assert bad, tname
    for k in range(n + 1):
        for mask in itertools.product((0, 1), repeat=k):
            for rot in range(len(bad) if k <= 2 and any(mask) else 1):
                js, want, fails = [], [], []
                for i, m in enumerate(mask):
                    if m:
                        js.append(bad[(rot + i) % len(bad)])
                        fails.append(i)
                    else:
                        j, v = good[(rot + i) % len(good)]
                        js.append(j)
                        want.append(v)
                judge(ctx, '%s|%s' % (cname, tname), tp, src(js), out, kind, want, fails)
                ctx.state(cname, tname, js)
    if t.vals and cname == 'List':
        long = [good[0][0]] * 25
        for at in (0, 12, 24):
            js = list(long)
            js[at] = bad[0]
            judge(ctx, 'long|' + tname, tp, js, out, kind, [good[0][1]] * 24, [at])


# ------------------------------------------------------------------ nested lists: the path of indices

NEST = [('List[List[int]]', List[List[int]], 2), ('List[List[List[int]]]', List[List[List[int]]], 3), ('List[Set[int]]', List[Set[int]], 2), ('Deque[List[int]]', Deque[List[int]], 2),
        ('List[Dict]', List[Dict[str, List[int]]], 2), ('List[Dc]', List[field('Dc', 'dc', List[int])], 2), ('List[Nt]', List[field('Nt', 'nt', List[int])], 2),
        ('List[Optional]', List[Optional[List[int]]], 2), ('List[Tuple]', List[Tuple[List[int], ...]], 2), ('List[Seq[Dq]]', List[Sequence[Deque[int]]], 3),
        ('Dict[List[List]]', Dict[str, List[List[int]]], 2), ('List[Dc[List[Dc]]]', List[field('Dc', 'dc', List[field('De', 'dc', List[int])])], 3)]


def build(tp, shape, leaf, path=()):
    """A source of the type in which every list has `shape` elements."""
    import typing
    o, a = typing.get_origin(tp), typing.get_args(tp)
    if tp is int:
        return leaf(path)
    if o is typing.Union:
        return build(a[0], shape, leaf, path)
    if o is dict:
        return {'k': build(a[1], shape, leaf, path)}
    if o is tuple:
        return [build(a[0], shape, leaf, path)]
    if hasattr(tp, '_fields') or not o:
        import typing as ty
        return {'f0': build(ty.get_type_hints(tp)['f0'], shape, leaf, path)}
    return [build(a[0], shape, leaf, path + (i,)) for i in range(shape[len(path)])]


def nested(ctx, k, n):
    name, tp, depth = NEST[k]
    for shape in itertools.product(range(1, n + 1), repeat=depth):
        paths = list(itertools.product(*[range(s) for s in shape]))
        few = list(itertools.chain.from_iterable(itertools.combinations(paths, c) for c in range(0, 3)))
        opt = 'Optional' in name
        for failing in few:
            src = build(tp, shape, lambda p: 'x%s' % (p,) if p in failing else 10 * sum(p) + 1)
            ctx.step()
            before = snap(src)
            r, w = attempt(lambda: jsons.load(src, tp))
            first = list(min(failing)) if failing else None
            if failing:
                # a Union tells that nothing matched: its own path ends there
                want = first[:1] if opt else first
                if r[0] == 'ok' or not isinstance(r[1], jsons.DeserializationError) or named(str(r[1])) != want:
                    ctx.fail('path|' + name, 'load(%r, %s) gives %r, expected the path %r' % (src, name, r[1], want))
            elif r[0] != 'ok':
                ctx.fail('path|' + name, 'load(%r, %s) raises %r' % (src, name, r[1]))
            if w:
                ctx.fail('path|%s|warned' % name, 'load(%r, %s) warns %r' % (src, name, w))
            ctx.step()
            r2, w2 = attempt(lambda: jsons.load(src, tp, warn_on_fail=True))
            outer = sorted({p[0] for p in failing})
            part = src['k'] if name.startswith('Dict') else src
            kept = [x for i, x in enumerate(part) if i not in outer]
            want = jsons.load({'k': kept} if name.startswith('Dict') else kept, tp)
            if r2[0] != 'ok' or not same(r2[1], want):
                ctx.fail('skip|' + name, 'load(%r, %s, warn_on_fail=True) gives %r, expected %r' % (src, name, r2[1], want))
            paths_w = [named(x) for x in w2]
            want_w = [[i] if opt else list(min(p for p in failing if p[0] == i)) for i in outer]
            if paths_w != want_w:
                ctx.fail('warnings|' + name, 'load(%r, %s, warn_on_fail=True) warns %r, expected paths %r' % (src, name, w2, want_w))
            if snap(src) != before:
                ctx.fail('source|' + name, 'load(%r, %s) changed its source' % (src, name))
            ctx.state(name, src)
            ctx.trace()
            ctx.outcome('nested %d' % len(failing))


# ------------------------------------------------------------------ kinds of failures, options, tasks

class Picky:
    def __init__(self, a: int):
        if a > 2:
            raise KEYS[a]
        self.a = a


KEYS = {3: ValueError('too much'), 4: KeyError('k'), 5: ZeroDivisionError(), 6: AttributeError('at index 99'), 7: RuntimeError(''), 8: StopIteration(), 9: OSError(2, 'no')}


def failures(ctx, _):
    """Whatever the reason of the failure is, it is reported the same way."""
    def hook(obj, cls=None, **kw):
        if isinstance(obj, dict) and 'raise' in obj:
            raise KEYS[obj['raise']]
        return ucls.DC(**obj)
    fork = jsons.fork()
    jsons.set_deserializer(hook, ucls.DC, fork_inst=fork)
    js = [({'a': i}, None) for i in range(3)] + [({'a': i}, i) for i in sorted(KEYS)] + [({}, 'missing'), ({'a': None}, 'none'), ({'a': []}, 'type'), (5, 'no dict'), (None, 'None'), ('x', 'str')]
    for combo in itertools.product(js, repeat=2):
        src = [j for j, _ in combo]
        fails = [i for i, (_, f) in enumerate(combo) if f is not None]
        judge(ctx, 'picky', List[Picky], src, lambda r: [x.a for x in r], list, [j['a'] for j, f in combo if f is None], fails)
        ctx.state(src)
    hs = [({'a': 1, 'b': 'x'}, None)] + [({'raise': i}, i) for i in sorted(KEYS)]
    for combo in itertools.product(hs, repeat=3):
        src = [j for j, _ in combo]
        fails = [i for i, (_, f) in enumerate(combo) if f is not None]
        judge(ctx, 'hook', List[ucls.DC], src, lambda r: r, list, [ucls.DC(1, 'x') for _, f in combo if f is None], fails, fork_inst=fork)
        ctx.state(src)
    # strict mode: partially deserialized elements and unexpected attributes fail as well
    ss = [({'a': 1, 'b': 'x'}, None), ({'a': 1, 'b': 'x', 'c': 2}, 1), (ucls.DC(1, 'x'), 1), ({'a': 1}, 1)]
    for combo in itertools.product(ss, repeat=3):
        src = [j for j, _ in combo]
        fails = [i for i, (_, f) in enumerate(combo) if f is not None]
        judge(ctx, 'strict', List[ucls.DC], src, lambda r: r, list, [ucls.DC(1, 'x') for _, f in combo if f is None], fails, strict=True)
        ctx.state(src)
    # elements whose -meta names an unknown class
    ms = [({'a': 1, 'b': 'x'}, None), ({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.Nope'}}}, 1), ({'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.DC'}}}, None), ({'-meta': {'classes': {'/': 'nope.Nope'}}}, 1)]
    for combo in itertools.product(ms, repeat=3):
        src = [j for j, _ in combo]
        fails = [i for i, (_, f) in enumerate(combo) if f is not None]
        judge(ctx, 'meta', List[ucls.DC], src, lambda r: r, list, [ucls.DC(1, 'x') for _, f in combo if f is None], fails)
        ctx.state(src)
    # tuples, named tuples and dicts name no index of their own, but those of the lists around them
    for tp, good, bad, g in ((List[Tuple[int, str]], [1, 'x'], [1], (1, 'x')), (List[Tuple[int, ...]], [1, 2], [1, 'q'], (1, 2)), (List[Dict[str, int]], {'a': 1}, {'a': 'q'}, {'a': 1}),
                             (List[Dict[int, int]], {'1': 1}, {'q': 1}, {1: 1}), (List[NT], [1, 'x'], [1], NT(1, 'x'))):
        for mask in itertools.product((0, 1), repeat=4):
            judge(ctx, 'mixed', tp, [bad if m else good for m in mask], lambda r: r, list, [g for m in mask if not m], [i for i, m in enumerate(mask) if m])
            ctx.state(str(tp), mask)


REJ = [('int', int, [('1', 1), (2, 2)], ['x', {}], ['7', 8]), ('DC', ucls.DC, [({'a': 1, 'b': 'x'}, ucls.DC(1, 'x'))], [{'a': 1}, 5], [{'a': 7, 'b': 'x'}, ucls.DC(8, 'y')]),
       ('List[int]', List[int], [([1], [1]), ([], [])], [['x'], 5], [['7'], [1, 8]]), ('Optional[int]', Optional[int], [(None, None), ('3', 3)], ['x', [1]], [])]


def rejected(ctx, name, container):
    """Elements that are fine, that cannot be deserialized, or that are turned down by a validator, in any order."""
    _, tp, good, bad, rej = next(r for r in REJ if r[0] == name)
    _, mk, wrap, out, kind = next(c for c in CONTAINERS if c[0] == container)
    fork = jsons.fork()
    jsons.set_validator(lambda v: v not in (7, 8), int, fork_inst=fork)
    jsons.set_validator(lambda v: getattr(v, 'a', 0) not in (7, 8), ucls.DC, fork_inst=fork)    # (ucls.Dc has the same name to jsons)
    for n in range(1, 6 if ctx.thorough else 5):
        for marks in itertools.product('gbr' if rej else 'gb', repeat=n):
            src, want = [], []
            for i, m in enumerate(marks):
                if m == 'g':
                    src.append(good[i % len(good)][0])
                    want.append(good[i % len(good)][1])
                else:
                    src.append((bad if m == 'b' else rej)[i % 2])
            if container in HASHED and len(set(map(str, want))) < len(want):
                want = list({str(x): x for x in want}.values())
            if 'r' not in marks:
                judge(ctx, container + '|rejected|' + name, mk(tp), wrap(src), out, kind, want, [i for i, m in enumerate(marks) if m == 'b'], fork_inst=fork)
            else:
                first = next(i for i, m in enumerate(marks) if m != 'g')
                at = marks.index('r')
                for warn in (False, True):
                    r, w = attempt(lambda: jsons.load(wrap(src), mk(tp), warn_on_fail=warn, fork_inst=fork))
                    key = 'rejected|%s|%s|%s|%s' % (container, name, ''.join(marks), warn)
                    ctx.step()
                    ctx.trace()
                    # the list stops at what cannot be skipped
                    if not warn and marks[first] == 'b':
                        ok = isinstance(r[1], jsons.DeserializationError) and named(str(r[1]))[:1] == [first] or container == 'Optional' and isinstance(r[1], jsons.DeserializationError)
                    else:
                        ok = isinstance(r[1], jsons.ValidationError) or container == 'Optional' and isinstance(r[1], jsons.JsonsError)
                    ctx.expect(r[0] == 'err' and ok, key, 'load(%r, warn_on_fail=%s) with a validator gives %r' % (src, warn, r))
                    seen = [named(x)[:1] for x in w]
                    ctx.expect(seen == ([[i] for i in range(at) if marks[i] == 'b'] if warn else []), key + '|warnings', 'load(%r, warn_on_fail=%s) warns %r' % (src, warn, w))
            ctx.state(name, container, marks)


def tasks(ctx, k):
    """The same report for any number of threads."""
    for n in range(0, 5):
        for mask in itertools.product((0, 1), repeat=n):
            src = ['x%d' % i if m else str(i) for i, m in enumerate(mask)]
            fails = [i for i, m in enumerate(mask) if m]
            judge(ctx, 'tasks', List[int], src, lambda r: r, list, [i for i, m in enumerate(mask) if not m], fails, tasks=k, task_type=Thread)
            ctx.state(k, src)


def suppressed(ctx, _):
    """The code of the warning is element-not-deserialized: suppressing it changes nothing but the warning."""
    for how in ('none', 'code', 'all', 'other', 'undone'):
        fork = jsons.fork()
        if how == 'code':
            jsons.suppress_warning('element-not-deserialized', fork_inst=fork)
        elif how in ('all', 'undone'):
            jsons.suppress_warnings(True, fork_inst=fork)
            if how == 'undone':
                jsons.suppress_warnings(False, fork_inst=fork)
        elif how == 'other':
            jsons.suppress_warning('datetime-without-tz', fork_inst=fork)
        for mask in itertools.product((0, 1), repeat=4):
            src = ['x' if m else '1' for m in mask]
            ctx.step()
            r, w = attempt(lambda: jsons.load(src, List[int], warn_on_fail=True, fork_inst=fork))
            if r != ('ok', [1] * mask.count(0)):
                ctx.fail('suppressed|' + how, 'load(%r, warn_on_fail) gives %r' % (src, r))
            n = 0 if how in ('code', 'all') else sum(mask)
            if len(w) != n or any('element-not-deserialized' not in x for x in w):
                ctx.fail('suppressed|' + how, 'load(%r, warn_on_fail) warns %r' % (src, w))
            ctx.state(how, mask)
            ctx.trace()


def all_terms(tier):
    res = [t for t in LEAVES + OBJECTS]
    for n in REP_LEAVES if tier == 'thorough' else ['int', 'datetime']:
        res += list(combine1(LEAF[n]))
    for n in ('DC', 'Slots', 'NT'):
        res += list(combine1(OBJ[n]))[:None if tier == 'thorough' else 6]
    return res


TERM = {}
for _t in all_terms('thorough'):
    TERM.setdefault(_t.name, _t)


def usable(t):
    bad = [b for b in t.bad if b is not None or 'Optional' not in t.name]
    return any(attempt(lambda: jsons.load(b, t.tp))[0][0] == 'err' for b in bad)


def cases(tier):
    n = maxlen(tier)
    seen = set()
    for t in all_terms(tier):
        if t.name in seen or not usable(t):
            continue
        seen.add(t.name)
        simple = t.name in LEAF or t.name in OBJ
        for cname, *_ in CONTAINERS:
            if cname in HASHED and not t.hashable or cname != 'List' and not simple and tier != 'thorough':
                continue
            m = n if cname == 'List' or t.name in ('int', 'DC', 'datetime') else 3 if tier != 'thorough' else 5
            yield Case('v:%s:%s' % (cname, t.name), ('values', cname, t.name, m))
    for k in range(len(NEST)):
        yield Case('nest:' + NEST[k][0], ('nested', k, 3 if tier == 'thorough' or NEST[k][2] == 2 else 2))
    yield Case('failures', ('failures', None))
    for k in (1, 2, 3, 4, 6):
        yield Case('tasks:%d' % k, ('tasks', k))
    yield Case('suppressed', ('suppressed', None))
    for name, *_ in REJ:
        for cname in ('List', 'list', 'Sequence', 'Iterable', 'Deque', 'Dict', 'Tuple', 'dc', 'nt', 'pl', 'Optional') + (('Set', 'FrozenSet') if name == 'int' else ()):
            if tier == 'thorough' or name == 'int' or cname in ('List', 'Deque', 'dc'):
                yield Case('rejected:%s:%s' % (cname, name), ('rejected', name, cname))


def run(ctx, args):
    globals()[args[0]](ctx, *args[1:])
