"""C16 key transformers rename keys consistently and reversibly."""
import itertools
import json

import jsons
from core import Case
from lib import caught
from ref import jsame, refdump
from universe import *  # noqa
from ukeys import *  # noqa
import ukeys

PROPERTY = 'C16'
CAMEL, SNAKE, PASCAL, LISP = (jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE, jsons.KEY_TRANSFORMER_PASCALCASE,
                              jsons.KEY_TRANSFORMER_LISPCASE)
STYLES = {'camel': CAMEL, 'snake': SNAKE, 'pascal': PASCAL, 'lisp': LISP}
ASSUMPTIONS = ['case transformers: names are words of lower case letters joined by one underscore, adjacent words do not both have one letter, and digits only '
               'end the last word (otherwise the word boundaries are not visible in camelCase)',
               'an inverse transformer undoes the transformer on all names and keys that occur']


def BOUNDS(tier):
    return {'names': 'all names of up to %d words over %d words, in all 4 styles, by all 4 transformers and all pairs' % (5 if tier == 'thorough' else 4, len(words(tier))),
            'transformers': sorted(FUNCS) + sorted(STYLES), 'classes': len(ukeys.KINDS), 'fields': 'names of up to 3 words, private, with defaults, undeclared',
            'nesting': 'all chains of up to %d of %d positions' % (3 if tier == 'thorough' else 2, len(POSITIONS)), 'modes': 'typed, untyped, strict, text'}


def words(tier):
    w = [''.join(p) for n in (2, 3) for p in itertools.product('ab', repeat=n)]
    return w + ['foo', 'qux', 'json'] + (['zebra', 'x', 'i', 'keyvalue'] if tier == 'thorough' else ['x', 'keyvalue'])


def form(style, ws):
    if style == 'snake':
        return '_'.join(ws)
    if style == 'lisp':
        return '-'.join(ws)
    cap = [w[0].upper() + w[1:] for w in ws]
    if style == 'pascal':
        return ''.join(cap)
    return ws[0] + ''.join(cap[1:])


def ok(ws):
    return not any(len(a) == 1 and len(b) == 1 for a, b in zip(ws, ws[1:])) \
        and not any(len(w) == 1 for w in ws[1:-1])


def check_name(ctx, ws):
    forms = {s: form(s, ws) for s in STYLES}
    for s, x in forms.items():
        for t, f in STYLES.items():
            ctx.step()
            r = f(x)
            if r != forms[t]:
                ctx.fail('%s->%s|%s' % (s, t, x), '%scase(%r) is %r, expected %r' % (t, x, r, forms[t]))
                continue
            if f(r) != r:
                ctx.fail('%s twice|%s' % (t, x), '%scase is not idempotent: %r, then %r' % (t, r, f(r)))
    ctx.trace()


# ------------------------------------------------------------------ bijective functions

def rot(k):
    return ''.join(chr(ord(c) + 1) for c in k)


def unrot(k):
    return ''.join(chr(ord(c) - 1) for c in k)


FUNCS = {'reverse': (lambda k: k[::-1], lambda k: k[::-1]), 'prefix': (lambda k: 'x.' + k, lambda k: k[2:]), 'suffix': (lambda k: k + '~', lambda k: k[:-1]),
         'swapcase': (str.swapcase, str.swapcase), 'rot': (rot, unrot), 'identity': (lambda k: k, lambda k: k),
         'bytes': (lambda k: k.encode().hex(), lambda k: bytes.fromhex(k).decode())}
CASES = {t: (STYLES[t], SNAKE) for t in STYLES}


def funcs_for(names):
    """The transformers that can be undone on those names."""
    res = dict(FUNCS)
    for t, (f, g) in CASES.items():
        if all(k and g(f(k)) == k for k in names):
            res[t] = (f, g)
    return res


def keys_of(v, acc):
    """All attribute names and str keys in v, however deep."""
    if isinstance(v, collections.abc.Mapping):
        for k, x in v.items():
            if isinstance(k, str) and not isinstance(k, enum.Enum):
                acc.add(k)
            elif not isinstance(k, (int, float, NoneType)):
                acc.add(refdump(k))
            keys_of(x, acc)
    elif isinstance(v, tuple) and hasattr(v, '_fields'):
        acc.update(v._fields)
        for x in v:
            keys_of(x, acc)
    elif isinstance(v, (list, tuple, set, frozenset, deque)):
        for x in v:
            keys_of(x, acc)
    elif hasattr(type(v), '__dict__') and type(v).__module__ in ('ukeys', 'ucls'):
        if not isinstance(v, enum.Enum):
            import ref
            for k, (_, x) in ref.entries(v).items():
                acc.add(k)
                keys_of(x, acc)
    return acc


def check(ctx, key, v, tp, untyped=False, few=False):
    names = keys_of(v, set())
    for nm, (f, g) in funcs_for(names).items():
        if few and not ctx.thorough and nm not in ('reverse', 'camel', 'lisp'):
            continue
        k = '%s|%s' % (key, nm)
        if len({f(n) for n in names}) != len(names):
            continue
        want = refdump(v, key_transformer=f)
        for mode, kw in (('', {}), ('cls', {'cls': tp})):
            if mode and 'Decoy' in repr(tp):
                continue        # a lenient dump as another class is no error
            ctx.step()
            try:
                with caught() as w:
                    got = jsons.dump(v, key_transformer=f, **kw)
            except Exception as err:
                ctx.fail('%s|dump%s' % (k, mode), 'dump raises %s: %s' % (type(err).__name__, err))
                continue
            if w:
                ctx.fail('%s|dump%s' % (k, mode), 'dump warns: %s' % (w[0].message,))
            if not jsame(got, want):
                ctx.fail('%s|dump%s' % (k, mode), 'dump gives %r, expected %r' % (got, want))
        for mode, kw in (('lenient', {}), ('strict', {'strict': True})):
            for tr in ('memory', 'text'):
                ctx.trace()
                src = json.loads(json.dumps(want)) if tr == 'text' else want
                if tr == 'text' and not jsame(src, want):
                    continue
                if mode == 'strict' and not strictable(v):
                    continue
                try:
                    r = jsons.load(src, tp, key_transformer=g, **kw)
                except Exception as err:
                    ctx.fail('%s|load|%s|%s' % (k, mode, tr), 'load(%r, %s) raises %s: %s' % (src, tp, type(err).__name__, str(err)[:200]))
                    continue
                if not same(r, v):
                    ctx.fail('%s|load|%s|%s' % (k, mode, tr), 'load(%r, %s) gives %r, not %r' % (src, tp, snap(r), snap(v)))
        if untyped:
            r = jsons.load(want, key_transformer=g)
            ctx.expect(same(r, v), '%s|untyped' % k, 'untyped load(%r) gives %r, not %r' % (want, r, v))
        # load from any other style with the snake case transformer
    if 'camel' in funcs_for(names):
        for s, f in STYLES.items():
            src = refdump(v, key_transformer=f)
            r = jsons.load(src, tp, key_transformer=SNAKE)
            ctx.expect(same(r, v), '%s|from %s' % (key, s), 'load(%r) with snakecase gives %r' % (src, snap(r)))


def strictable(v):
    if isinstance(v, collections.abc.Mapping):
        return all(strictable(x) for x in v.values())
    if isinstance(v, (list, tuple, set, deque, frozenset)):
        return all(strictable(x) for x in v)
    if type(v).__name__ in ('WithProp', 'WithClassVar', 'Dyn'):
        return False
    if type(v).__module__ in ('ukeys', 'ucls') and not isinstance(v, enum.Enum):
        return not type(v).__name__.startswith('Extra') and all(strictable(x) for x in attrs_of(v).values())
    return True


# ------------------------------------------------------------------ values

def positions(v, tp):
    yield 'list', [v, v], List[tp]
    yield 'dict', {'some_key': v, 'other': v, 'x_yz': v}, Dict[str, tp]
    yield 'tuple', (v, 1), Tuple[tp, int]
    yield 'vtuple', (v, v), Tuple[tp, ...]
    yield 'opt', v, Optional[tp]
    yield 'union', v, Union[Decoy, tp]
    yield 'deque', deque([v]), Deque[tp]
    yield 'mapping', {'a_key': v}, Mapping[str, tp]
    if isinstance(tp, type):
        yield 'defaultdict', defaultdict(tp, {'dd_key': v}), DefaultDict[str, tp]
    yield 'colorkey', {Color.RED: v}, Dict[Color, tp]
    yield 'intkey', {5: v}, Dict[int, tp]
    yield 'ntfield', holder('Nt', tp)(v, 1), holder('Nt', tp)
    yield 'dcfield', holder('Dc', tp)(v, 1), holder('Dc', tp)
    yield 'plfield', holder('Pl', tp)(v, 1), holder('Pl', tp)
    yield 'slfield', holder('Sl', tp)(v, 1), holder('Sl', tp)
    yield 'newtype', v, typing.NewType('Renamed', tp)


POSITIONS = ['list', 'dict', 'tuple', 'vtuple', 'opt', 'union', 'deque', 'mapping', 'defaultdict', 'colorkey', 'intkey', 'ntfield', 'dcfield', 'plfield',
             'slfield', 'newtype']


def chains(v, tp, depth):
    yield '', v, tp
    if depth:
        for n, v1, tp1 in positions(v, tp):
            if n == 'newtype' and depth > 1 or n == 'defaultdict' and depth > 1:
                yield n, v1, tp1
                continue
            for n2, v2, tp2 in chains(v1, tp1, depth - 1):
                yield n + '/' + n2, v2, tp2


def cases(tier):
    ws = words(tier)
    yield Case('names:1', ('names', None, 1))
    for w in ws:
        yield Case('names:' + w, ('names', w, 5 if tier == 'thorough' else 4))
    yield Case('odd', ('odd',))
    for i, (n, _, _) in enumerate(KINDS):
        yield Case('class:' + n, ('class', i, 3 if tier == 'thorough' else 2))
    yield Case('dicts', ('dicts',))
    yield Case('hashed', ('hashed',))
    yield Case('terms', ('terms',))
    yield Case('fields', ('fields',))


def run(ctx, args):
    kind = args[0]
    if kind == 'names':
        _, first, n = args
        ws = words(ctx.tier)
        if first is None:
            for w in ws + ['foo2', 'x9']:
                check_name(ctx, (w,))
                ctx.state(w)
            return ctx.outcome('names')
        for k in range(1, n):
            rest = ws if k < 3 else ws[4:]
            if k > 3:
                rest = ws[8:]
            for r in itertools.product(rest, repeat=k):
                w = (first,) + r
                if ok(w):
                    ctx.state(w)
                    check_name(ctx, w)
        for r in ws:        # digits at the end
            check_name(ctx, (first, r + '7') if len(r) > 1 else (first, 'ab', 'cd42'))
    elif kind == 'odd':
        # any name at all: the transformers return a str, twice is the same as once
        alphabet = ['', 'a', 'B', '_', '-', '1', '\u00e9', ' ']
        for n in range(5 if ctx.thorough else 4):
            for p in itertools.product(alphabet[1:], repeat=n):
                s = ''.join(p)
                ctx.state('odd', s)
                for t, f in STYLES.items():
                    ctx.step()
                    try:
                        r = f(s)
                        r2 = f(r)
                    except Exception as err:
                        ctx.fail('odd|%s|%s' % (t, s), '%scase(%r) raises %r' % (t, s, err))
                        continue
                    ctx.expect(type(r) is str, 'odd|%s|%s' % (t, s), '%scase(%r) is %r' % (t, s, r))
                    if r.isascii() and t in ('snake', 'lisp') and ' ' not in s:
                        ctx.expect(r2 == r, 'odd|%s|%s' % (t, s), '%scase(%r) is %r, again %r' % (t, s, r, r2))
        ctx.trace()
    elif kind == 'class':
        _, i, depth = args
        n, cls, objs = KINDS[i]
        for j, o in enumerate(objs):
            for pos, v, tp in chains(o, cls, depth if j == 0 else 1):
                ctx.state('class', n, j, pos)
                check(ctx, '%s|%d|%s' % (n, j, pos), v, tp, few=n not in ('Two', 'TwoNt') and '/' in pos)
    elif kind == 'dicts':
        keys = ['foo_bar', 'foo', 'x_yz', 'Foo Bar', '', '_a', '-', 'a.b', '\u00e9\u4e2d', 'camelCase', '1', 'None']
        for n in range(4):
            for ks in itertools.combinations(keys, n):
                d = {k: i for i, k in enumerate(ks)}
                ctx.state('dict', ks)
                check(ctx, 'dict|%r' % (ks,), d, Dict[str, int], True)
                check(ctx, 'dict of list|%r' % (ks,), {k: [d, {}] for k in ks}, Dict[str, List[Dict[str, int]]], True)
                check(ctx, 'plain dict|%r' % (ks,), [d, {'k': d}], List[Any] if False else None, True)
                if n < 3:
                    check(ctx, 'values are no keys|%r' % (ks,), {k: k for k in ks}, Dict[str, str], True)
                    check(ctx, 'lists of keys|%r' % (ks,), list(ks), List[str], True)
        mixed = {'foo_bar': 1, 5: 2, None: 3, 1.5: 4, True: 5}
        for nm, (f, g) in FUNCS.items():
            got = jsons.dump(mixed, key_transformer=f)
            ctx.expect(jsame(got, {f('foo_bar'): 1, 5: 2, None: 3, 1.5: 4, True: 5}), 'mixed|' + nm, 'dump gives %r' % (got,))
            r = jsons.load(got, key_transformer=g)
            ctx.expect(same(r, mixed), 'mixed|%s|load' % nm, 'load gives %r' % (r,))
            order = {k: i for i, k in enumerate(keys)}
            ctx.expect(list(jsons.dump(order, key_transformer=f)) == [f(k) for k in order], 'order|' + nm, 'the order of the keys changed')
    elif kind == 'hashed':
        for cls, key in ((NTKey, NTKey('a', 1)), (FrozenKey, FrozenKey(1, 'x'))):
            for d in ({key: 1}, {cls(*[x for x in ('b', 2)]) if cls is NTKey else cls(5, 'z'): 2, key: 1}):
                for nm, (f, g) in {**FUNCS, **CASES}.items():
                    ctx.state('hashed', cls.__name__, nm)
                    for tp, v in ((Dict[cls, int], d), (List[Dict[cls, int]], [d, d]), (Dict[str, Dict[cls, int]], {'foo_bar': d})):
                        j = jsons.dump(v, key_transformer=f)
                        inner = j if tp is Dict[cls, int] else j[0] if isinstance(v, list) else j[f('foo_bar')]
                        names = {f(x) for x in cls.__annotations__}
                        ctx.step()
                        ctx.trace()
                        got = [set(x) for x in inner.get('-keys', {}).values()]
                        ctx.expect(got == [names] * len(d), 'hashed|%s|%s' % (cls.__name__, nm), 'stored keys are %r in %r' % (got, j))
                        for kw in ({}, {'strict': True}):
                            try:
                                r = jsons.load(j, tp, key_transformer=g, **kw)
                            except Exception as err:
                                ctx.fail('hashed|%s|%s|load' % (cls.__name__, nm), 'load(%r) raises %r' % (j, err))
                                continue
                            ctx.expect(same(r, v), 'hashed|%s|%s|load' % (cls.__name__, nm), 'load(%r) gives %r' % (j, r))
    elif kind == 'terms':
        for t in terms(0) + terms(1, [LEAF[n] for n in ('int', 'str', 'datetime', 'complex', 'timezone', 'Color', 'None')] + OBJECTS):
            ctx.state('term', t.name)
            for i, (v, j) in enumerate(t.vals[:4]):
                check(ctx, '%s|%d' % (t.name, i), v, t.tp, few=True)
    elif kind == 'fields':
        names = ['foo', 'foo_bar', 'foo_bar_baz', 'x', 'foo_x', 'x_foo', '_private', 'camelCase', 'UPPER', 'class_', 'foo2']
        for k in (1, 2, 3):
            for ns in itertools.permutations(names, k) if k < 3 else itertools.combinations(names, 3):
                for kd in ('Dc', 'Pl', 'Sl', 'Nt', 'At'):
                    if kd in ('Nt', 'At') and any(n.startswith('_') for n in ns):
                        continue
                    c = generated(kd, ns)
                    v = c(*range(len(ns)))
                    ctx.state('fields', kd, ns)
                    check(ctx, 'fields|%s|%s' % (kd, ','.join(ns)), v, c, few=k == 3)
    ctx.outcome(kind)
