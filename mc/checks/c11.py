"""C11 strict loading rejects unknown keys at every level and otherwise agrees with the lenient load."""
import itertools
import json
import threading
from typing import Dict, List, Optional, Tuple, Union

import jsons
import jsonvals
from core import Case
from universe import *  # noqa
from checks.c10 import SUBS, VALUES, mutants, put, extra_terms
from jsons.exceptions import DeserializationError, JsonsError, SignatureMismatchError

PROPERTY = 'C11'
EXTRA = ['zz', '', 'self', 'cls', '-cls', '-keys', '__class__', '__dict__', 'a_', 'A', 'f00', '_a', 'double', 'kind', '\u00e9', 'return']
CONTENT = [None, 1, 'x', [], {}, {'a': 1, 'b': 'x'}, False]
ASSUMPTIONS = ['Unions whose later member accepts what an earlier one only accepts leniently are compared per member only (they '
               'are tried from left to right in both modes)', 'classes with **kwargs are not part of the alphabet']
OPEN = ('Dyn', 'WithProp', 'WithClassVar')


def BOUNDS(tier):
    return {'positions': 'every object at any depth of every value of all classes, all containers of classes and object kinds '
                         '(depth 1; depth 2%s), lists, dicts and tuples of up to 40 objects' %
                         (' and 3' if tier == 'thorough' else ' over 4 classes'),
            'extra keys': '%r with contents %r' % (EXTRA, CONTENT),
            'agreement': 'all JSON values of the C10 bound and all single mutations of all values'}


def objects(v, j, path=()):
    """The paths of all objects in a value and its JSON form."""
    if isinstance(v, collections.abc.Mapping):
        for (k, x), (kj, y) in zip(v.items(), j.items()):
            yield from objects(x, y, path + (kj,))
    elif isinstance(v, tuple) and hasattr(v, '_fields'):
        if isinstance(j, dict):
            yield path, v
            for f in v._fields:
                yield from objects(getattr(v, f), j[f], path + (f,))
    elif isinstance(v, (list, tuple, deque)):
        for i, (x, y) in enumerate(zip(v, j)):
            yield from objects(x, y, path + (i,))
    elif isinstance(v, (set, frozenset)):
        pass
    elif isinstance(j, dict) and not isinstance(v, (complex, dtm.timezone, zoneinfo.ZoneInfo)):
        yield path, v
        for f, x in attrs_of(v).items():
            if f in j:
                yield from objects(x, j[f], path + (f,))


def at(j, path):
    for p in path:
        j = j[p]
    return j


def chain(err):
    seen = []
    while err is not None and len(seen) < 80:
        seen.append(err)
        err = err.__cause__ or err.__context__
    return seen


def refused(ctx, key, j, tp, union=False, **kw):
    ctx.step()
    ctx.trace()
    try:
        r = jsons.load(j, tp, strict=True, **kw)
    except JsonsError as err:
        if not union and not any(isinstance(e, SignatureMismatchError) for e in chain(err)):
            ctx.fail(key, 'the strict load of %r fails without SignatureMismatchError: %s: %s' % (j, type(err).__name__, err))
        ctx.outcome(type(err).__name__)
        return
    except Exception as err:
        return ctx.fail(key, 'raised %s: %s' % (type(err).__name__, err))
    ctx.fail(key, 'the strict load of %r accepts the unknown key: %r' % (j, r))


def agree(ctx, t, j, key, **kw):
    ctx.step(2)
    ctx.trace()
    try:
        s = jsons.load(j, t.tp, strict=True, **kw)
    except Exception:
        ctx.outcome('strict refuses')
        return
    try:
        n = jsons.load(j, t.tp, **kw)
    except Exception as err:
        return ctx.fail(key, 'strict load of %r gives %r, the lenient one raises %r' % (j, s, err))
    if not same(s, n):
        ctx.fail(key, 'strict load of %r gives %r, the lenient one %r' % (j, s, n))
    ctx.outcome('agree')


def closed(t):
    return not any(o in t.name for o in OPEN)


def cases(tier):
    cls = [o for o in OBJECTS if closed(o)]
    for t in cls:
        yield Case('inj:' + t.name, ('inj', t))
    for t in terms(1, cls):
        yield Case('inj:' + t.name, ('inj', t))
    reps = [OBJ[n] for n in ('DC', 'DCDef', 'Node', 'NT')]
    for t in terms(2, cls if tier == 'thorough' else reps):
        yield Case('inj:' + t.name, ('inj', t))
    if tier == 'thorough':
        for t in terms(3, reps[:1]):
            yield Case('inj:' + t.name, ('inj', t))
    for n in (1, 2, 4, 7, 10, 16, 25, 40):
        yield Case('len:%d' % n, ('len', n))
    yield Case('mixed', ('mixed', None))
    for t in [t for t in terms(0) + terms(1) if 'Union' not in t.name] + extra_terms():
        if 'Union' not in t.name:
            yield Case('agree:' + t.name, ('agree', t))
    for t in [t for t in terms(1) if t.obj or not t.name[0].islower()] + LEAVES:
        yield Case('py:' + t.name, ('py', t))


def run(ctx, args):
    kind, t = args
    if kind == 'inj':
        if not closed(t):
            return
        un = 'Optional' in t.name or 'Node' in t.name      # (a Union reports that no member matches)
        for i, (v, j) in enumerate(t.vals if ctx.thorough or t.depth < 3 else t.vals[2:3]):
            base = list(objects(v, j))
            if base:
                try:
                    jsons.load(j, t.tp, strict=True)
                except Exception as err:
                    ctx.fail('base|%s|%d' % (t.name, i), 'the strict load of %r fails: %r' % (j, err))
            for path, o in base:
                here = at(j, path)
                for nm, c in [(n, 1) for n in EXTRA] + [('zz', c) for c in CONTENT]:
                    if nm in here or (nm == '-keys' and isinstance(o, tuple)):
                        continue
                    ctx.state(t.name, i, path, nm, repr(c))
                    first = {nm: c, **here}
                    last = {**here, nm: c}
                    refused(ctx, 'inj|%s|%d|%s|%s|%r' % (t.name, i, path, nm, c), put(j, path, last), t.tp, un)
                    if nm == 'zz':
                        refused(ctx, 'injfirst|%s|%d|%s|%s|%r' % (t.name, i, path, nm, c), put(j, path, first), t.tp, un)
                        refused(ctx, 'injkt|%s|%d|%s|%s|%r' % (t.name, i, path, nm, c), put(j, path, last), t.tp, un,
                                key_transformer=lambda k: k)
                for kw in ({'tasks': 2, 'task_type': threading.Thread},):
                    refused(ctx, 'injopt|%s|%d|%s|%s' % (t.name, i, path, list(kw)), put(j, path, {**here, 'zz': 1}), t.tp, un, **kw)
    elif kind == 'len':
        n = t
        good = [{'a': i, 'b': 's%d' % i} for i in range(n)]
        for k in range(n):
            bad = [dict(g, zz=1) if i == k else g for i, g in enumerate(good)]
            for nm, src, tp in (('List', bad, List[DC]), ('Tuple', bad, Tuple[DC, ...]), ('TupleN', bad, Tuple[(DC,) * n]), ('Deque', bad, Deque[DC]),
                                ('Iterable', bad, Iterable[DC]), ('Set', bad, Set[Frozen]), ('FrozenSet', bad, FrozenSet[Frozen]),
                                ('Dict', {'k%d' % i: b for i, b in enumerate(bad)}, Dict[str, DC]), ('list', bad, list[DC]),
                                ('OptList', bad, List[Optional[DC]])):
                ctx.state(nm, n, k)
                refused(ctx, 'len|%s|%d|%d' % (nm, n, k), src, tp, union=nm == 'OptList')
                if nm in ('List', 'Deque', 'Iterable') and n <= 16:
                    for tasks in (2, 3):
                        refused(ctx, 'len|%s|%d|%d|%d' % (nm, n, k, tasks), src, tp, tasks=tasks, task_type=threading.Thread)
    elif kind == 'mixed':
        bad, good = {'a': 1, 'b': 'x', 'zz': 1}, {'a': 1, 'b': 'x'}
        H = obj_of('Dc', OBJ['DC'], List_(OBJ['DC']), Optional_(OBJ['DC']))
        forms = [(Union[DC, int], lambda x: x), (Union[int, DC], lambda x: x), (Optional[DC], lambda x: x), (Union[None, DC], lambda x: x),
                 (Union[DC, Slots], lambda x: x), (Dict[str, Optional[DC]], lambda x: {'k': x}), (List[Union[DC, int]], lambda x: [1, x]),
                 (Tuple[int, Union[str, DC]], None), (Dict[str, List[Optional[DC]]], lambda x: {'k': [None, x]}),
                 (H.tp, lambda x: {'f0': good, 'f1': [good, x], 'f2': None}), (H.tp, lambda x: {'f0': x, 'f1': [], 'f2': None}),
                 (H.tp, lambda x: {'f0': good, 'f1': [], 'f2': x}), (Dict[int, DC], lambda x: {'1': x}),
                 (Dict[Tuple[int, int], DC], lambda x: {'5': x, '-keys': {'5': [1, 2]}}),
                 (Dict[Frozen, int], lambda x: {'5': 1, '-keys': {'5': x}}), (Dict[NT, int], lambda x: {'5': 1, '-keys': {'5': x}}),
                 (Mapping[str, DC], lambda x: {'k': x}), (DefaultDict[str, DC], lambda x: {'k': x}), ('ucls.DC', lambda x: x),
                 (List[List[List[DC]]], lambda x: [[], [[good, x]]]), (Union[List[DC], Dict[str, DC]], lambda x: [x]),
                 (Union[List[DC], Dict[str, DC]], lambda x: {'k': x}), (NewType('N', DC), lambda x: x)]
        for i, (tp, mk) in enumerate(forms):
            if mk is None:
                continue
            ctx.state('mixed', i)
            try:
                ctx.expect(True, 'x', '')
                jsons.load(mk(good), tp, strict=True)
            except Exception as err:
                ctx.fail('mixed|good|%d' % i, 'the strict load of %r as %s fails: %r' % (mk(good), tp, err))
            refused(ctx, 'mixed|%d' % i, mk(bad), tp, union=True)
            try:
                txt = json.dumps(mk(bad))
                jsons.loads(txt, tp, strict=True)
                ctx.fail('mixed|text|%d' % i, 'strict loads accepts %s' % txt)
            except JsonsError:
                pass
            try:
                jsons.loadb(txt.encode(), tp, strict=True)
                ctx.fail('mixed|bytes|%d' % i, 'strict loadb accepts %s' % txt)
            except JsonsError:
                pass
        # a verbose source does not make it lenient
        for k in ('/', '/a'):
            m = {'classes': {'/': 'ucls.DC'}}
            refused(ctx, 'meta', dict(bad, **{'-meta': m}), None)
            refused(ctx, 'meta DC', dict(bad, **{'-meta': m}), DC)
            refused(ctx, 'meta list', [dict(bad, **{'-meta': m})], List[DC])
            refused(ctx, 'meta field', {'f0': dict(bad, **{'-meta': m}), 'f1': [], 'f2': None}, H.tp)
    elif kind == 'agree':
        simple = t.depth <= 1
        for i, j in enumerate(VALUES):
            if simple or ctx.thorough or i % 3 == 0:
                ctx.state(t.name, repr(j)[:60])
                agree(ctx, t, j, 'agree|%s|%r' % (t.name, j))
        for v, j in t.vals[:3]:
            for m in mutants(j, SUBS if simple or ctx.thorough else SUBS[::3]):
                agree(ctx, t, m, 'agree|%s|%s' % (t.name, repr(m)[:80]))
        for j, v in t.alt:
            agree(ctx, t, j, 'agree|%s|%s' % (t.name, repr(j)[:80]))
    elif kind == 'py':
        valid = (str, int, float, bool, list, tuple, set, dict, NoneType)
        for i, (v, j) in enumerate(t.vals):
            if v is None or 'Optional' in t.name:
                continue
            srcs = [v] if type(v) not in valid else []
            for p, x in pairs(v, j):
                if type(x) not in valid and x is not v:
                    srcs.append(put(j, p, x))
            for k, s in enumerate(srcs):
                ctx.step()
                ctx.trace()
                ctx.state('py', t.name, i, k)
                try:
                    r = jsons.load(s, t.tp, strict=True)
                except JsonsError as err:
                    ctx.outcome('py ' + type(err).__name__)
                    continue
                except Exception as err:
                    ctx.fail('py|%s|%d|%d' % (t.name, i, k), 'raised %r' % (err,))
                    continue
                ctx.fail('py|%s|%d|%d' % (t.name, i, k), 'the strict load of %r accepts the deserialized value' % (s,))


def pairs(v, j, path=()):
    """(path, python value) for every position of a representation."""
    yield path, v
    if isinstance(v, collections.abc.Mapping):
        for (k, x), (kj, y) in zip(v.items(), j.items()):
            yield from pairs(x, y, path + (kj,))
    elif isinstance(v, tuple) and hasattr(v, '_fields') and isinstance(j, dict):
        for f in v._fields:
            yield from pairs(getattr(v, f), j[f], path + (f,))
    elif isinstance(v, (list, tuple, deque)) and isinstance(j, list):
        for i, (x, y) in enumerate(zip(v, j)):
            yield from pairs(x, y, path + (i,))
    elif isinstance(j, dict) and not isinstance(v, (complex, dtm.timezone, zoneinfo.ZoneInfo)):
        for f, x in attrs_of(v).items():
            if f in j:
                yield from pairs(x, j[f], path + (f,))
