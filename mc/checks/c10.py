"""C10 a successful load returns a value that conforms to the requested type."""
import itertools
import json
from typing import Any, Dict, List, Optional, Set, Tuple, Union

import jsons
import jsonvals
from core import Case
from universe import *  # noqa

PROPERTY = 'C10'
ASSUMPTIONS = ['sources without a -meta section (its class takes precedence over an inferred type, as documented)',
               'the element kinds that jsons converts on purpose (e.g. a str where a list is asked for, a number from a str) are '
               'only required to give a conforming value']
VALUES = [v for v in jsonvals.values() if '-meta' not in json.dumps(v)]
SUBS = [None, True, 0, 1, 5, 1.5, '', 'abc', '5', '2020-01-02T03:04:05Z', 'RED', [], [1], ['abc'], [None], {}, {'a': 1},
        {'a': 1, 'b': 'x'}, {'zz': None}, [[1]], {'f0': 1}, {'f0': None}]


def BOUNDS(tier):
    return {'types': 'all leaves and classes, every container and object kind over them (once; %s), '
                     'heterogeneous tuples, unions, non-string dict keys' % ('twice over all leaves' if tier == 'thorough'
                                                                            else 'twice over 8 representatives'),
            'sources': 'all %d JSON values of the bound for depth 0 and for depth 1 over 13 representatives (thorough: over all); every representation of every value with every single '
                       'position (two positions for small ones) replaced by each of %d values or removed'
                       % (len(VALUES), len(SUBS)),
            'modes': 'lenient and strict'}


def positions(j, path=()):
    yield path
    if isinstance(j, list):
        for i, x in enumerate(j):
            yield from positions(x, path + (i,))
    elif isinstance(j, dict):
        for k, x in j.items():
            yield from positions(x, path + (k,))


GONE = object()


def put(j, path, v):
    if not path:
        return v
    k = path[0]
    if isinstance(j, list):
        if v is GONE and len(path) == 1:
            return j[:k] + j[k + 1:]
        return j[:k] + [put(j[k], path[1:], v)] + j[k + 1:]
    if v is GONE and len(path) == 1:
        return {a: b for a, b in j.items() if a != k}
    return {a: (put(b, path[1:], v) if a == k else b) for a, b in j.items()}


def mutants(j, subs):
    for p in positions(j):
        for s in subs:
            yield put(j, p, s)
        if p:
            yield put(j, p, GONE)


def loads(ctx, t, j, key):
    res = []
    for kw in ({}, {'strict': True}):
        ctx.step()
        ctx.trace()
        try:
            r = jsons.load(j, t.tp, **kw)
        except Exception as err:
            ctx.outcomes[type(err).__name__] += 1
            res.append(err)
            continue
        ctx.outcomes['ok'] += 1
        res.append(r)
        try:
            c = t.conf(r)
        except Exception as err:
            c = False
        if not c:
            ctx.fail('conf|%s|%s' % (t.name, key), 'load(%r, %s, %s) gives %r, which does not conform' % (j, t.name, kw, r))
    return res


def ok(r):
    return not isinstance(r, Exception)


UT = [('Union[int,str]', lambda: union_of(LEAF['int'], LEAF['str'])), ('Union[DC,NT]', lambda: union_of(OBJ['DC'], OBJ['NT'])),
      ('Union[datetime,Color]', lambda: union_of(LEAF['datetime'], LEAF['Color'])),
      ('Union[List[int],Dict]', lambda: union_of(List_(LEAF['int']), Dict_(LEAF['int']))),
      ('Union[List[DC],DC,None]', lambda: union_of(List_(OBJ['DC']), OBJ['DC'], LEAF['None'])),
      ('Union[float,UUID]', lambda: union_of(LEAF['float'], LEAF['UUID'])),
      ('Union[Set[int],complex]', lambda: union_of(Set_(LEAF['int']), LEAF['complex']))]


def keyed(kt, vt, keys):
    tp = Dict[kt.tp, vt.tp]
    vals = [({k: vt.vals[0][0] for k, _ in keys}, {j: vt.vals[0][1] for _, j in keys})]
    conf = lambda x: type(x) is dict and all(kt.conf(k) and vt.conf(v) for k, v in x.items())  # noqa
    return T('Dict[%s,%s]' % (kt.name, vt.name), tp, vals, conf, [], [], 1)


def extra_terms():
    L, O = LEAF, OBJ
    ts = [f() for _, f in UT]
    for c in (List_, Dict_, VTuple_, Optional_):
        ts += [c(f()) for _, f in UT]
    for a, b in itertools.product(('int', 'str', 'datetime', 'Color', 'float', 'bool', 'Decimal'), repeat=2):
        ts.append(Tuple_(L[a], L[b]))
        ts.append(obj_of('Dc', L[a], L[b]))
    ts += [Tuple_(L['int'], O['DC'], L['str']), Tuple_(O['NT'], List_(L['int'])), Tuple_(L['int']), Tuple_(O['Node'], O['Plain'])]
    ts += [keyed(L['int'], L['str'], [(1, '1'), (-7, '-7')]), keyed(L['float'], L['int'], [(1.5, '1.5')]),
           keyed(L['datetime'], L['int'], [L['datetime'].vals[0]]), keyed(L['UUID'], O['DC'], [L['UUID'].vals[0]]),
           keyed(L['Color'], L['int'], [(Color.RED, 'RED'), (Color.GREEN, 'GREEN')]), keyed(L['Num'], L['int'], [(Num.ONE, 'ONE')]),
           keyed(L['Decimal'], L['Decimal'], [L['Decimal'].vals[0]]), keyed(L['date'], L['date'], [L['date'].vals[0]]),
           keyed(L['bool'], L['int'], [(True, True)]), keyed(L['StrE'], L['int'], [(StrE.X, 'X')])]
    return ts


def cases(tier):
    reps = [LEAF[n] for n in ('int', 'str', 'datetime', 'Color', 'float', 'None', 'Label')] + [OBJ[n] for n in (
        'DC', 'NT', 'Plain', 'DCDef', 'Node', 'Slots')]
    ts = terms(0) + terms(1, LEAVES + OBJECTS if tier == 'thorough' else reps)
    for t in ts:
        yield Case('all:' + t.name, ('all', t))
    done = {t.name for t in ts}
    for t in terms(1):
        if t.name not in done:
            yield Case('mut:' + t.name, ('mut', t))
    for t in extra_terms():
        yield Case('all:' + t.name, ('all', t))
    reps = [LEAF[n] for n in ('int', 'str', 'datetime', 'Color', 'float')] + [OBJ['DC'], OBJ['NT'], OBJ['Plain']]
    if tier == 'thorough':
        reps = LEAVES + OBJECTS
    for t in terms(2, reps):
        yield Case('mut:' + t.name, ('mut', t))
    if tier == 'thorough':
        for t in terms(3, [LEAF['int'], OBJ['DC']]):
            yield Case('mut:' + t.name, ('mut', t))


def run(ctx, args):
    kind, t = args
    lax = 'Dyn' in t.name
    for i, (v, j) in enumerate(t.vals):
        r = loads(ctx, t, j, 'val%d' % i)
        ctx.state(t.name, i)
        for x, mode in zip(r, ('lenient', 'strict')):
            if mode == 'strict' and ('WithProp' in t.name or 'WithClassVar' in t.name or lax):
                continue
            ctx.expect(ok(x), 'accept|%s|%d|%s' % (t.name, i, mode), 'load(%r, %s) is rejected (%s): %r' % (j, t.name, mode, x))
            if ok(x) and 'Union' not in t.name and not same(x, v):     # (the members of a union may overlap)
                ctx.fail('value|%s|%d|%s' % (t.name, i, mode), 'load(%r, %s) gives %r, not %r (%s)' % (j, t.name, x, v, mode))
    for i, (j, v) in enumerate(t.alt):
        r = loads(ctx, t, j, 'alt%d' % i)
        for x, mode in zip(r, ('lenient', 'strict')):
            if ctx.expect(ok(x), 'alt|%s|%d|%s' % (t.name, i, mode), 'load(%r, %s) is rejected (%s): %r' % (j, t.name, mode, x)):
                if not same(x, v):
                    ctx.fail('altvalue|%s|%d|%s' % (t.name, i, mode), 'load(%r, %s) gives %r, not %r' % (j, t.name, x, v))
    for i, j in enumerate(t.bad):
        r = loads(ctx, t, j, 'bad%d' % i)
        for x, mode in zip(r, ('lenient', 'strict')):
            ctx.expect(not ok(x), 'bad|%s|%d|%s' % (t.name, i, mode), 'load(%r, %s) is accepted (%s): %r' % (j, t.name, mode, x))
    if kind == 'all':
        for j in VALUES:
            ctx.state(t.name, repr(j)[:60])
            loads(ctx, t, j, 'json|' + repr(j)[:80])
    subs = SUBS if kind == 'all' or ctx.thorough else SUBS[::2]
    for i, (v, j) in enumerate(t.vals[:4 if kind == 'all' or ctx.thorough else 2]):
        for m in mutants(j, subs):
            ctx.state(t.name, repr(m)[:120])
            loads(ctx, t, m, 'mut|' + repr(m)[:80])
        if kind == 'all' and 1 < len(list(positions(j))) <= (5 if ctx.thorough else 3):
            for m in mutants(j, SUBS if ctx.thorough else SUBS[::3]):
                for n in mutants(m, SUBS[1::3] if ctx.thorough else SUBS[1::5]):
                    loads(ctx, t, n, 'mut2|' + repr(n)[:80])
