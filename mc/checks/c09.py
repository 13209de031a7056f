"""C09 load either returns a value or raises a JsonsError, for any JSON input."""
import collections
import itertools
import json
from typing import Any, Dict, List, Literal, Optional, Set, Tuple, Type, Union

import jsons
import jsonvals
from core import Case
from lib import caught
from universe import *  # noqa
from jsons.exceptions import JsonsError, DeserializationError, DecodeError

PROPERTY = 'C09'
ASSUMPTIONS = ['-meta sections name no callables that are not classes (documented use: names written by a verbose dump)',
               'loads gets a str, loadb gets bytes (anything else is not text)']
VALUES = list(jsonvals.values())


class W:
    """Bare and unusual targets."""

    def __init__(self, name, tp):
        self.name, self.tp = name, tp


EXTRA = [('none', None), ('Any', Any), ('object', object), ('list', list), ('dict', dict), ('set', set), ('tuple', tuple),
         ('frozenset', frozenset), ('deque', collections.deque), ('List', List), ('Dict', Dict), ('Tuple', Tuple), ('Set', Set),
         ('Union[int,str]', Union[int, str]), ('Union[List[int],Dict[str,int],None]', Union[List[int], Dict[str, int], None]),
         ('Union[DC,NT,datetime]', Union[DC, NT, dtm.datetime]), ('Tuple[()]', Tuple[()]), ('Tuple[int,str]', Tuple[int, str]),
         ('Tuple[DC,...]', Tuple[DC, ...]), ('Dict[int,int]', Dict[int, int]), ('Dict[NT,int]', Dict[NT, int]),
         ('Dict[Tuple[int,int],str]', Dict[Tuple[int, int], str]), ('Dict[float,DC]', Dict[float, DC]),
         ('Dict[UUID,str]', Dict[uuid.UUID, str]), ('defaultdict', collections.defaultdict),
         ('OrderedDict', collections.OrderedDict), ('Mapping', typing.Mapping), ('str:DC', 'ucls.DC'), ('str:nope', 'nope.Nope'),
         ('str:int', 'int'), ('str:Nope', 'Nope'), ('str:', ''), ('str:.', '.'), ('str:a[b', 'a[b]'), ('str:[', '[]'),
         ('str:List', 'typing.List[int]'), ('str:List2', 'typing.List[nope]'), ('str:module', 'ucls'), ('str:mod.', 'ucls.'), ('List[Any]', List[Any]), ('Dict[str,Any]', Dict[str, Any]), ('Optional[List[DC]]', Optional[List[DC]]),
         ('List[Union[DC,int]]', List[Union[DC, int]]), ('NoneType', type(None)), ('MyStr', type('MyStr', (str,), {})),
         ('MyInt', type('MyInt', (int,), {})), ('MyList', type('MyList', (list,), {})), ('MyDict', type('MyDict', (dict,), {})),
         ('NoInit', type('NoInit', (), {})), ('Abstract', collections.abc.Sized)]
OPTS = [{}, {'strict': True}]
MORE = [{'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, {'warn_on_fail': True},
        {'key_transformer': jsons.KEY_TRANSFORMER_LISPCASE, 'strict': True}, {'attr_getters': {'a': lambda: 1}}]


def BOUNDS(tier):
    return {'JSON values': '%d: %d scalars, lists and dicts of width <= 4, nesting <= 3, all reserved keys with every kind of '
                           'content; towers of depth up to 20000' % (len(VALUES), len(jsonvals.S)),
            'types': 'all leaves and classes, every container and object kind over them%s, %d bare or unusual targets'
                     % (', depth 2 over 8 representatives' if tier == 'thorough' else '', len(EXTRA)),
            'options': '%s and for bare targets %d more' % (OPTS, len(MORE)),
            'texts': 'all texts of length <= %d over %r; every deletion, duplication and replacement of a character in valid '
                     'documents; all byte strings of length <= %d, all invalid UTF-8 prefixes inside documents'
                     % (4 if tier == 'thorough' else 3, ALPHA, 2)}


ALPHA = '{}[]",:01-.e tn\\u'


def parts(j, depth=0):
    """Everything a source error may point at."""
    yield j
    if depth > 6:
        return
    if isinstance(j, list):
        for x in j:
            yield from parts(x, depth + 1)
    elif isinstance(j, dict):
        for k, v in j.items():
            yield k
            yield from k        # a string is an iterable of its characters
            yield from parts(v, depth + 1)
    elif isinstance(j, str):
        yield from j


def rep(j):
    try:
        return repr(j)[:300]
    except RecursionError:
        return 'a deep tower'


def eq(a, b):
    return a is b or (type(a) is type(b) and a == b)


def one(ctx, t, j, kw, key, quick=False):
    ctx.step()
    ctx.trace()
    try:
        jsons.load(j, t.tp, **kw)
    except DeserializationError as err:
        name = type(err).__name__
        ctx.outcomes[name] += 1
        try:
            src, tgt = err.source, err.target
            str(err)
        except Exception as e:
            return ctx.fail(key, 'the error has no source/target/text: %r' % (e,))
        if not quick and type(err) is DeserializationError and 'key_transformer' not in kw and not isinstance(t.tp, str) \
                and '-keys' not in repr(j) and '-meta' not in repr(j):
            if not any(eq(src, x) for x in parts(j)):
                ctx.fail(key, 'the source %r of the error is no part of the input' % (src,))
            elif tgt is None and t.tp is not None:
                ctx.fail(key, 'the error has no target: %s' % (err,))
        return
    except JsonsError as err:
        ctx.outcomes[type(err).__name__] += 1
        return
    except BaseException as err:
        if isinstance(err, (KeyboardInterrupt, SystemExit)):
            raise
        return ctx.fail(key, 'load(%s, %s, %s) raised %s: %s' % (rep(j), t.name, kw, type(err).__name__, str(err)[:300]))
    ctx.outcomes['ok'] += 1


def canary(ctx, key):
    try:
        ok = jsons.load([{'a': '1', 'b': 'x'}], List[DC]) == [DC(1, 'x')] and jsons.dump(DC(1, 'x')) == {'a': 1, 'b': 'x'}
    except Exception as err:
        ok = repr(err)
    if ok is not True:
        ctx.fail('canary|' + key, 'after %s the library does not work any more: %s' % (key, ok))


def all_terms(tier):
    ts = terms(0) + terms(1)
    if tier == 'thorough':
        ts += terms(2, [LEAF[n] for n in ('int', 'str', 'datetime', 'Color', 'float')] + [OBJ['DC'], OBJ['NT'], OBJ['Plain']])
    return ts


def cases(tier):
    for name, tp in EXTRA:
        yield Case('extra:' + name, ('extra', W(name, tp)))
    for t in all_terms(tier):
        yield Case('term:' + t.name, ('term', t))
    for name, tp in EXTRA[:6] + [('List[int]', List[int]), ('Dict[str,int]', Dict[str, int]), ('Node', Node), ('DC', DC)]:
        yield Case('deep:' + name, ('deep', W(name, tp)))
    for a in ALPHA:
        yield Case('text:%r' % a, ('text', a, 3 if tier == 'thorough' else 2))
    yield Case('mutants', ('mutants',))
    for i in range(16):
        yield Case('bytes:%d' % i, ('bytes', i))


def run(ctx, args):
    with caught():
        globals()['do_' + args[0]](ctx, *args[1:])


def do_term(ctx, t):
    for j in VALUES:
        for kw in OPTS:
            one(ctx, t, j, kw, '%s|%s|%s' % (t.name, repr(j)[:120], sorted(kw)))
    # the documented bad values of the term too, they are close to valid ones
    for j in t.bad + [j for _, j in t.vals]:
        for kw in OPTS:
            one(ctx, t, j, kw, '%s|%s|%s' % (t.name, repr(j)[:120], sorted(kw)))
    ctx.state(t.name)
    canary(ctx, t.name)


def do_extra(ctx, t):
    for j in VALUES:
        for kw in OPTS + MORE:
            one(ctx, t, j, kw, '%s|%s|%s' % (t.name, repr(j)[:120], sorted(kw)))
    ctx.state(t.name)
    canary(ctx, t.name)


def do_deep(ctx, t):
    for n in (10, 100, 200, 400, 1500, 5000, 20000):
        for kind in ('list', 'a', 'next'):
            for leaf in (1, 'x', None) if t.tp is not Node or n < 300 else ('x',):
                j = jsonvals.deep(n, leaf, kind)
                for kw in OPTS:
                    one(ctx, t, j, kw, 'deep|%s|%s|%d|%r|%s' % (t.name, kind, n, leaf, sorted(kw)), quick=True)
                    if n <= 5000:
                        s = ('[' * n + json.dumps(leaf) + ']' * n) if kind == 'list' else \
                            ('{"a":' * n + json.dumps(leaf) + '}' * n)
                        text(ctx, s, t.tp, 'deeptext|%s|%s|%d|%r' % (t.name, kind, n, leaf), kw)
                canary(ctx, 'deep %d' % n)
    ctx.state(t.name)


def text(ctx, s, tp, key, kw={}):
    ctx.step()
    ctx.trace()
    try:
        j = json.loads(s)
        valid = True
    except json.JSONDecodeError:
        valid = False
    except (RecursionError, ValueError):
        valid = None
    try:
        r = jsons.loads(s, tp, **kw)
    except DecodeError as err:
        ctx.outcomes['DecodeError'] += 1
        if valid is not False:
            ctx.fail(key, 'DecodeError for a text the json module accepts: %r' % s[:200])
        elif err.source != s or err.target is not tp:
            ctx.fail(key, 'the DecodeError has the source %r and target %r' % (str(err.source)[:200], err.target))
        return
    except JsonsError as err:
        ctx.outcomes[type(err).__name__] += 1
        if valid is False:
            ctx.fail(key, 'malformed text %r raised %s, not DecodeError' % (s[:200], type(err).__name__))
        return
    except Exception as err:
        return ctx.fail(key, 'loads(%r) raised %s: %s' % (s[:200], type(err).__name__, str(err)[:200]))
    ctx.outcomes['ok'] += 1
    if valid is not True:
        ctx.fail(key, 'malformed text %r was loaded: %r' % (s[:200], r))


def do_text(ctx, a, n):
    for k in range(n + 1):
        for rest in itertools.product(ALPHA, repeat=k):
            s = a + ''.join(rest)
            text(ctx, s, None, 'text|%r' % s)
            if k < 2:
                text(ctx, s, List[int], 'text|%r|List' % s)
                text(ctx, s, DC, 'text|%r|DC' % s)
    ctx.state(a)
    canary(ctx, 'texts')


DOCS = ['{"a": 1, "b": "x"}', '[1, -2.5e3, null, true, "\\u00e9"]', '{"a": {"b": [{}]}}', '"2020-01-02T03:04:05Z"']


def do_mutants(ctx):
    text(ctx, '', None, 'text|')
    for d in DOCS:
        for i in range(len(d) + 1):
            for m in [d[:i] + d[i + 1:], d[:i] + d[i:i + 1] + d[i:], d[:i]] + [d[:i] + c + d[i + 1:] for c in ALPHA + '\x00\n\ufeff\ud800'] \
                    + [d[:i] + c + d[i:] for c in ALPHA + '\x00\ufeff']:
                for tp in (None, DC, List[int]):
                    text(ctx, m, tp, 'mutant|%r|%s' % (m, tp))
    for s in ('9' * 5000, '1e999', '-1e999', 'NaN', 'Infinity', '-Infinity', '"' + 'x' * 70000 + '"', ' ' * 5000, '[' * 200000,
              '{"a":' * 100000, '"\\ud800"', '"\\udc00\\ud800"', '\ufeff{}', '{"a":1,"a":2}', '0' * 10 + '1', '1 2', '{} {}', "{'a': 1}"):
        for tp in (None, int, float, str, DC, List[int], dtm.datetime, bool, Dict[str, str], decimal.Decimal, dtm.timedelta):
            text(ctx, s, tp, 'special|%r|%s' % (s[:40], tp))
    canary(ctx, 'mutants')


def do_bytes(ctx, i):
    todo = [bytes([a]) for a in range(i * 16, i * 16 + 16)] + \
           [bytes([a, b]) for a in range(i * 16, i * 16 + 16) for b in range(256)]
    docs = [bytes([a]) + d.encode() for a in range(i * 16, i * 16 + 16) for d in DOCS[:2]]
    docs += [d.encode()[:k] + bytes([a]) + d.encode()[k:] for a in range(i * 16, i * 16 + 16) for d in DOCS[:2] for k in range(1, len(d))]
    for b in todo + docs:
        for enc in ('utf-8', 'ascii', 'latin-1', 'utf-16') if len(b) > 2 or i < 2 else ('utf-8',):
            ctx.step()
            ctx.trace()
            kw = {} if enc == 'utf-8' else {'encoding': enc}
            try:
                s = b.decode(enc)
                try:
                    want = ('ok', json.loads(s))
                except json.JSONDecodeError:
                    want = 'DecodeError'
            except UnicodeDecodeError:
                want = 'JsonsError'
            try:
                got = ('ok', jsons.loadb(b, **kw))
            except DecodeError as err:
                got = 'DecodeError'
                if err.source not in (s, b):
                    ctx.fail('source|%r|%s' % (b, enc), 'the DecodeError has the source %r' % (err.source,))
            except JsonsError:
                got = 'JsonsError'
            except Exception as err:
                got = '%s: %s' % (type(err).__name__, err)
            ctx.outcomes[got if isinstance(got, str) else 'ok'] += 1
            if got != want and not (isinstance(want, tuple) and isinstance(got, tuple)):
                ctx.fail('bytes|%r|%s' % (b, enc), 'loadb(%r, encoding=%s): %r, expected %r' % (b, enc, got, want))
    ctx.state(i)
    canary(ctx, 'bytes')
