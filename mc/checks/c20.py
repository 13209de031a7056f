"""C20 decorated functions behave like mapping arguments and result by hand."""
import asyncio
import datetime as dtm
import itertools
import json
import re
import warnings
from dataclasses import dataclass
from typing import Dict, List, Optional, Tuple, Union

import jsons
from jsons.decorators import dumped, loaded
from core import Case
from universe import same

PROPERTY = 'C20'
ASSUMPTIONS = ['the first parameter of a method is called self or cls', 'defaults of parameters that are not passed are not arguments, they are not mapped']
KINDS = ('PO', 'PK', 'VP', 'KO', 'VK')


@dataclass
class B:
    x: int
    when: Optional[dtm.datetime] = None


@dataclass
class Sub(B):
    y: int = 0


@dataclass
class Snake:
    first_name: str


UTC = dtm.timezone.utc
WHEN = dtm.datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC)
# annotation -> (text, type, JSON values, values)
ANN = {
    'none': ('', None, ['2020-01-02T03:04:05Z', 5, {'x': 1}], [WHEN, Sub(1, WHEN, 2), (1, 2)]),
    'int': ('int', int, [5, '7', 'no'], [5, True]),
    'dt': ('dtm.datetime', dtm.datetime, ['2020-01-02T03:04:05Z', 'x'], [WHEN]),
    'B': ('B', B, [{'x': 1}, {'x': '3', 'when': '2020-01-02T03:04:05Z'}, {'y': 1}], [B(1), Sub(1, WHEN, 2)]),
    'list': ('List[B]', List[B], [[{'x': 1}, {'x': 2}], [], [{'y': 1}]], [[B(1), Sub(2)], []]),
    'opt': ('Optional[B]', Optional[B], [None, {'x': 1}], [None, Sub(3)]),
    'dict': ('Dict[str, dtm.datetime]', Dict[str, dtm.datetime], [{'k': '2020-01-02T03:04:05Z'}], [{'k': WHEN}]),
    'union': ('Union[B, int]', Union[B, int], [{'x': 1}, 4], [B(1), 4]),
    'snake': ('Snake', Snake, [{'firstName': 'a'}, {'first_name': 'b'}], [Snake('c')]),
    'text': ("'B'", B, [{'x': 1}], [Sub(1, None, 2)]),
    'textlist': ("List['B']", List[B], [[{'x': 1}]], [[Sub(1)]]),
}
NAMES = list(ANN)


def BOUNDS(tier):
    return {'signatures': 'all sequences of up to %d parameters of the five kinds, with and without defaults%s' % (
            (4, '') if tier == 'thorough' else (3, ' (a third of them for coroutines and postponed annotations)')),
            'annotations': '%d, on every parameter%s' % (len(ANN), ' (pairs)' if tier == 'thorough' else ''),
            'ways of passing': 'every parameter by position, by name or left out, 0-2 extra positional and named arguments, and calls that do not fit',
            'decorators': 'loaded/dumped with their 3 mappers, parameters x returnvalue, options, a fork; also stacked',
            'names': 'parameters called %s' % ', '.join(ODD), 'functions': 'functions, coroutines, methods, private methods, static and class methods, properties, with and without postponed annotations'}


def signatures(n):
    """All valid sequences of (kind, has a default)."""
    def rec(prefix):
        yield prefix
        if len(prefix) == n:
            return
        for k in KINDS:
            for default in ((False, True) if k in ('PO', 'PK', 'KO') else (False,)):
                last = prefix[-1] if prefix else None
                if last and KINDS.index(k) < KINDS.index(last[0]):
                    continue
                if last and k == last[0] and k in ('VP', 'VK'):
                    continue
                if k in ('PO', 'PK') and not default and any(d for kk, d in prefix if kk in ('PO', 'PK')):
                    continue
                yield from rec(prefix + ((k, default),))
    yield from rec(())


def text(sig, anns, ret, name='f', first=None, is_async=False):
    parts = [first] if first else []
    n_po = sum(1 for k, _ in sig if k == 'PO')
    star = False
    for i, ((k, default), a) in enumerate(zip(sig, anns)):
        if k == 'KO' and not star and not any(kk == 'VP' for kk, _ in sig):
            parts.append('*')
            star = True
        ann = ': ' + ANN[a][0] if ANN[a][0] else ''
        p = {'VP': '*', 'VK': '**'}.get(k, '') + 'p%d' % i + ann
        if default:
            p += ' = DEFAULT'
        parts.append(p)
        if k == 'PO' and i == n_po - 1:
            parts.append('/')
    rt = ' -> ' + ANN[ret][0] if ANN[ret][0] else ''
    body = 'RECORD.append((%s)); return RESULT[0]' % ''.join(
        ('self, ' if first else '') + ''.join('p%d, ' % i for i in range(len(sig))) or '(),')
    return '%sdef %s(%s)%s: %s\n' % ('async ' if is_async else '', name, ', '.join(parts), rt, body)


def compile_fn(src, postponed, extra=()):
    scope = dict(dtm=dtm, B=B, Sub=Sub, Snake=Snake, List=List, Dict=Dict, Optional=Optional, Union=Union, Tuple=Tuple, DEFAULT='a default', RECORD=[], RESULT=[None],
                 loaded=loaded, dumped=dumped, jsons=jsons)
    scope.update(extra)
    scope['__name__'] = __name__
    exec(compile(('from __future__ import annotations\n' if postponed else '') + src, 'decorated', 'exec'), scope)
    return scope


MAPPERS = {'load': (loaded, jsons.load), 'loads': (loaded, jsons.loads), 'loadb': (loaded, jsons.loadb), 'dump': (dumped, jsons.dump), 'dumps': (dumped, jsons.dumps),
           'dumpb': (dumped, jsons.dumpb)}


def encode(m, v):
    return v if m in ('load',) else json.dumps(v) if m == 'loads' else json.dumps(v).encode() if m == 'loadb' else v


def value(m, a, i):
    vs = ANN[a][2 if m.startswith('load') else 3]
    return encode(m, vs[i % len(vs)])


def ways(sig, m, anns, shift):
    """All ways of calling: (args, kwargs, [type of every argument], {name: type})."""
    def rec(i, args, ats, kwargs, kts, by_name):
        if i == len(sig):
            yield args, kwargs, ats, kts
            return
        k, default = sig[i]
        v, t = value(m, anns[i], shift + i), ANN[anns[i]][1]
        if k in ('PO', 'PK') and not by_name:
            yield from rec(i + 1, args + [v], ats + [t], kwargs, kts, False)
        if k in ('PK', 'KO'):
            yield from rec(i + 1, args, ats, {**kwargs, 'p%d' % i: v}, {**kts, 'p%d' % i: t}, by_name or k == 'PK')
        if default:
            yield from rec(i + 1, args, ats, kwargs, kts, by_name or k != 'KO')
        if k == 'VP':
            for n in range(3 if not by_name else 1):
                yield from rec(i + 1, args + [value(m, anns[i], shift + i + j) for j in range(n)], ats + [t] * n, kwargs, kts, True)
        if k == 'VK':
            for n in range(3):
                extra = {'x%d' % j: value(m, anns[i], shift + i + j) for j in range(n)}
                yield from rec(i + 1, args, ats, {**kwargs, **extra}, {**kts, **dict.fromkeys(extra, t)}, by_name)
    yield from rec(0, [], [], {}, {}, False)


def norm(fn):
    try:
        return ('ok', fn())
    except Exception as err:
        return ('err', type(err).__name__, str(err))


def call(fn, is_async):
    def run(*args, **kwargs):
        r = fn(*args, **kwargs)
        return drive(r) if is_async else r
    return run


def drive(coro):
    """Run a coroutine that does not suspend (much faster than an event loop)."""
    try:
        coro.send(None)
    except StopIteration as stop:
        return stop.value
    return asyncio.run(coro)


def by_hand(plain, mapper, parameters, returnvalue, opts, ret, is_async, args, kwargs, ats, kts):
    def go():
        if parameters:
            args_ = [mapper(a, cls=t, **opts) for a, t in zip(args, ats)]
            kwargs_ = {n: mapper(a, cls=kts[n], **opts) for n, a in kwargs.items()}
        else:
            args_, kwargs_ = args, kwargs
        r = call(plain, is_async)(*args_, **kwargs_)
        return mapper(r, cls=ret, **opts) if returnvalue else r
    return go


def eq(a, b):
    if a[0] != b[0]:
        return False
    return a == b if a[0] == 'err' else same(a[1], b[1])


def compare(ctx, key, got, want, rec_got, rec_want, what):
    ctx.step()
    ctx.trace()
    if not eq(got, want):
        ctx.fail(key, '%s gives %r, by hand %r' % (what, got, want))
    elif not same(rec_got, rec_want):
        ctx.fail(key + '|args', '%s passes %r, by hand %r' % (what, rec_got, rec_want))
    else:
        ctx.outcome(want[0] + (want[1] if want[0] == 'err' else ''))


def options(m, thorough):
    import jsons as j
    fork = FORKS[0]
    res = [{}, {'strict': True}, {'fork_inst': fork}]
    if m in ('load', 'loads', 'loadb'):
        res += [{'key_transformer': j.KEY_TRANSFORMER_SNAKECASE}, {'strict': True, 'fork_inst': fork, 'key_transformer': j.KEY_TRANSFORMER_SNAKECASE}]
    else:
        res += [{'key_transformer': j.KEY_TRANSFORMER_CAMELCASE}, {'strip_nulls': True}, {'strip_microseconds': True, 'strip_nulls': True, 'fork_inst': fork}]
    return res


FORKS = []


def setup():
    if not FORKS:
        f = jsons.fork()
        jsons.set_deserializer(lambda obj, cls, **kw: cls(int(obj) + 1000), int, fork_inst=f)
        jsons.set_serializer(lambda obj, cls=None, **kw: 'custom', B, fork_inst=f)
        jsons.set_serializer(lambda obj, cls=None, **kw: 1000 + obj, int, fork_inst=f)
        FORKS.append(f)


ODD = ('self', 'cls', 'args', 'kwargs', 'obj', 'fork_inst', 'func', 'strict', 'decorated', 'mapper', 'parameters', 'return_', 'arg', 'sig')


def renamed(naming, src):
    for i, n in enumerate(naming):
        src = re.sub(r'\bp%d\b' % i, n, src)
    return src


def functions(ctx, m, sigs, is_async, postponed, rots, naming=()):
    deco, mapper = MAPPERS[m]
    new = {'p%d' % i: n for i, n in enumerate(naming)}
    for sig in sigs:
        for rot in rots:
            anns = [NAMES[(rot + 3 * i) % len(NAMES)] for i in range(len(sig))]
            ret = NAMES[(rot + len(sig)) % len(NAMES)]
            scope = compile_fn(renamed(naming, text(sig, anns, ret, is_async=is_async)), postponed)
            plain, record, result = scope['f'], scope['RECORD'], scope['RESULT']
            for parameters, returnvalue in itertools.product((True, False), repeat=2):
                for opts in options(m, ctx.thorough) if (parameters or returnvalue) and rot % 3 == 0 else ({},):
                    f = deco(parameters=parameters, returnvalue=returnvalue, **({'loader': mapper} if deco is loaded else {'dumper': mapper}), **opts)(plain)
                    for n, (args, kwargs, ats, kts) in enumerate(ways(sig, m, anns, rot)):
                        kwargs, kts = ({new.get(k, k): v for k, v in x.items()} for x in (kwargs, kts))
                        result[0] = value(m, ret, n)
                        key = ','.join(naming) + '%s%s|%s|%s' % (m, '|async' if is_async else '', ' '.join(k for k, _ in sig), opts and sorted(opts))
                        what = renamed(naming, text(sig, anns, ret)).split(':  ')[0][:100] + ' called with %r %r (parameters=%s, returnvalue=%s)' % (args, kwargs, parameters, returnvalue)
                        del record[:]
                        got = norm(lambda: call(f, is_async)(*args, **kwargs))
                        rg = list(record)
                        del record[:]
                        want = norm(by_hand(plain, mapper, parameters, returnvalue, opts, ANN[ret][1], is_async, args, kwargs, ats, kts))
                        compare(ctx, key, got, want, rg, list(record), what)
                    # Calls that do not fit fail as those of the function itself, also if the arguments could be mapped.
                    for args, kwargs in (((), {}), ([value(m, 'int', 0)] * 5, {}), ((), {'nope': value(m, 'int', 0)})):
                        base = norm(lambda: call(plain, is_async)(*args, **kwargs))
                        if base[0] == 'err':
                            del record[:]
                            got = norm(lambda: call(f, is_async)(*args, **kwargs))
                            ctx.step()
                            if got[0] != 'err' or record:
                                ctx.fail('misfit|' + m, 'a call that does not fit %s is accepted: %r' % (sig, got))
                            elif got[1:] != base[1:] and got[1] == 'TypeError':
                                ctx.fail('misfit|' + m, 'a call that does not fit raises %r instead of %r' % (got, base))
            ctx.state(m, sig, rot)


def methods(ctx, m, sigs, is_async, postponed, rots):
    deco, mapper = MAPPERS[m]
    dn = 'loaded' if deco is loaded else 'dumped'
    arg = 'loader=jsons.%s' % m if deco is loaded else 'dumper=jsons.%s' % m
    for sig in sigs:
        for rot in rots:
            anns = [NAMES[(rot + 3 * i) % len(NAMES)] for i in range(len(sig))]
            ret = NAMES[(rot + len(sig)) % len(NAMES)]
            for kind in ('method', 'private', 'class', 'static', 'subclass', 'stacked'):
                first = {'class': 'cls', 'static': None}.get(kind, 'self')
                on_top = {'class': '@classmethod\n    ', 'static': '@staticmethod\n    '}.get(kind, '')
                for parameters, returnvalue in itertools.product((True, False), repeat=2):
                    d = '@%s(parameters=%s, returnvalue=%s, %s)\n    ' % (dn, parameters, returnvalue, arg)
                    if kind == 'stacked':
                        d = '@%s(parameters=%s, returnvalue=False, %s)\n    @%s(parameters=False, returnvalue=%s, %s)\n    ' % (dn, parameters, arg, dn, returnvalue, arg)
                    src = 'class K:\n    tag = 1\n    def __eq__(self, o): return type(self) is type(o)\n    %s%s' % (
                        on_top, text(sig, anns, ret, 'plain', first, is_async).replace('(self, ', '(self, ' if first == 'self' else '(%s, ' % first if first else '('))
                    name = '__f' if kind == 'private' else 'f'
                    src += '    %s%s%s' % (on_top, d, text(sig, anns, ret, name, first, is_async).replace('RECORD.append((self, ', 'RECORD.append((%s, ' % first))
                    src = src.replace('RECORD.append((self, ', 'RECORD.append((%s, ' % first)
                    if kind == 'private':
                        src += '    def call(self, *a, **k): return self.__f(*a, **k)\n'
                    scope = compile_fn(src, postponed)
                    K = scope['K']
                    if kind == 'subclass':
                        K = type('KK', (K,), {})
                    o = K()
                    for target in ([o] if kind not in ('class', 'static') else [o, K]):
                        f = target.call if kind == 'private' else target.f
                        plain = target.plain
                        for n, (args, kwargs, ats, kts) in enumerate(ways(sig, m, anns, rot)):
                            scope['RESULT'][0] = value(m, ret, n)
                            record = scope['RECORD']
                            del record[:]
                            got = norm(lambda: call(f, is_async)(*args, **kwargs))
                            rg = list(record)
                            del record[:]
                            want = norm(by_hand(plain, mapper, parameters, returnvalue, {}, ANN[ret][1], is_async, args, kwargs, ats, kts))
                            rw = list(record)
                            who = [r[0] for r in rg + rw] if first else []
                            ctx.step()
                            if any(w is not (o if first == 'self' else K) for w in who):
                                ctx.fail('self|%s|%s' % (m, kind), 'self or cls of a %s is %r' % (kind, who))
                            if first:
                                rg, rw = [r[1:] for r in rg], [r[1:] for r in rw]
                            compare(ctx, '%s|%s%s' % (m, kind, '|async' if is_async else ''), got, want, rg, rw,
                                    '%s %s called with %r %r (parameters=%s, returnvalue=%s)' % (kind, text(sig, anns, ret)[:80], args, kwargs, parameters, returnvalue))
            ctx.state(m, sig, rot, 'method')


def stacked(ctx, i, j):
    """A function between two decorators: everything is mapped by both, from the outside to the inside and back."""
    for (p1, r1), (p2, r2) in itertools.product(itertools.product((True, False), repeat=2), repeat=2):
        for is_async in (False, True):
            for a, ret in itertools.product(NAMES, repeat=2):
                sig = (('PK', False),)
                scope = compile_fn(text(sig, [a], ret, is_async=is_async), False)
                plain, record, result = scope['f'], scope['RECORD'], scope['RESULT']
                (d1, m1), (d2, m2) = MAPPERS[i], MAPPERS[j]
                inner = d2(parameters=p2, returnvalue=r2, **({'loader': m2} if d2 is loaded else {'dumper': m2}))(plain)
                outer = d1(parameters=p1, returnvalue=r1, **({'loader': m1} if d1 is loaded else {'dumper': m1}))(inner)
                for n in range(2):
                    v, r = value(i if p1 else j, a, n), value(j if r2 else i, ret, n)
                    result[0] = r

                    def hand():
                        x = m1(v, cls=ANN[a][1]) if p1 else v
                        x = m2(x, cls=ANN[a][1]) if p2 else x
                        y = call(plain, is_async)(x)
                        y = m2(y, cls=ANN[ret][1]) if r2 else y
                        return m1(y, cls=ANN[ret][1]) if r1 else y
                    for way in ('position', 'name'):
                        del record[:]
                        got = norm(lambda: call(outer, is_async)(v) if way == 'position' else call(outer, is_async)(p0=v))
                        rg = list(record)
                        del record[:]
                        want = norm(hand)
                        compare(ctx, 'stacked|%s on %s' % (i, j), got, want, rg, list(record), '%s on %s for %s -> %s called with %r' % (i, j, a, ret, v))
                ctx.state(i, j, a, ret, p1, r1, p2, r2)


def misuse(ctx, _):
    E = jsons.InvalidDecorationError
    for m, (deco, mapper) in MAPPERS.items():
        kw = {'loader': mapper} if deco is loaded else {'dumper': mapper}
        for what, x in (('class', B), ('static', staticmethod(lambda a: a)), ('class method', classmethod(lambda cls: 1))):
            ctx.step()
            got = norm(lambda: deco(**kw)(x))
            if got[:2] != ('err', 'InvalidDecorationError'):
                ctx.fail('misuse|' + what, 'decorating a %s with %s gives %r' % (what, m, got))
    for deco, key, bad in ((loaded, 'loader', (jsons.dump, jsons.dumps, json.loads, None, str, int)), (dumped, 'dumper', (jsons.load, jsons.loadb, json.dumps, None, str))):
        for b in bad:
            ctx.step()
            got = norm(lambda: deco(**{key: b}))
            if got[:2] != ('err', 'InvalidDecorationError'):
                ctx.fail('misuse|mapper', '%s(%s=%r) gives %r' % (deco.__name__, key, b, got))
    # What the function raises comes out unchanged; its state is that of the function.
    class Boom(Exception):
        pass
    for m, (deco, mapper) in MAPPERS.items():
        kw = {'loader': mapper} if deco is loaded else {'dumper': mapper}

        def f(a):
            raise boom

        async def g(a):
            raise boom
        boom = Boom('x')
        for fn, a in ((f, False), (g, True)):
            ctx.step()
            try:
                r = deco(**kw)(fn)(encode(m, 1))
                if a:
                    asyncio.run(r)
            except Boom as err:
                if err is not boom:
                    ctx.fail('raise', 'another exception came out')
            except Exception as err:
                ctx.fail('raise', '%s came out of a decorated function that raises' % type(err).__name__)
        # A coroutine function stays one: nothing happens before it is awaited.
        ran = []

        async def h(a):
            ran.append(a)
            await asyncio.sleep(0)
            return encode(m, 1)
        c = deco(**kw)(h)(encode(m, 1))
        if ran:
            ctx.fail('async', 'a decorated coroutine ran before it was awaited')
        asyncio.run(c)
        if len(ran) != 1:
            ctx.fail('async', 'a decorated coroutine ran %d times' % len(ran))
    # Several decorated functions and forks do not influence each other.
    f1 = loaded(fork_inst=FORKS[0], returnvalue=False)(lambda a: a)
    f2 = loaded(returnvalue=False)(lambda a: a)
    if [f1(1), f2(1), f1(1)] != [norm(lambda: jsons.load(1, fork_inst=FORKS[0]))[1], 1, norm(lambda: jsons.load(1, fork_inst=FORKS[0]))[1]]:
        ctx.fail('fork', 'the fork of one decorated function is used by another')
    ctx.state('misuse')


def cases(tier):
    th = tier == 'thorough'
    sigs = list(signatures(4 if th else 3))
    chunks = [sigs[i::12] for i in range(12)]
    small = [s for s in sigs if len(s) <= (3 if th else 2)]
    for m in MAPPERS:
        for is_async in (False, True):
            for postponed in (False, True):
                for c, chunk in enumerate(chunks):
                    if th or c % 3 == 0 or (not is_async and not postponed):
                        step = 1 if th else 4 if (is_async or postponed) else 2
                        yield Case('functions/%s/%s%s/%d' % (m, 'async' if is_async else 'sync', '-postponed' if postponed else '', c),
                                   (functions, m, chunk, is_async, postponed, list(range(c % step, len(NAMES), step))))
                if th or m in ('load', 'dump', 'loads') and is_async == postponed:
                    yield Case('methods/%s/%s%s' % (m, 'async' if is_async else 'sync', '-postponed' if postponed else ''),
                               (methods, m, small, is_async, postponed, list(range(0, len(NAMES), 2 if th else 5))))
    done = set()
    for m in MAPPERS:
        for i, n in enumerate(ODD):
            names = [n] + [x for x in ODD[:3] if x != n]
            # the odd name first, second or as the third one
            for k in range(3):
                naming = tuple(names[-k:] + names[:-k]) if k else tuple(names)
                if (m, naming) not in done and (th or m in ('load', 'dump') or i < 2):
                    done.add((m, naming))
                    yield Case('named/%s/%s' % (m, ','.join(naming)), (functions, m, [s for s in small if s], k == 2, False, [i % 5, i % 5 + 5] if th else [i % 5 + 1], naming))
    for i, j in itertools.product(MAPPERS, repeat=2):
        if (i[:4] == j[:4]) <= (i == j == 'dump' or i == j == 'load'):
            yield Case('stacked/%s-%s' % (i, j), (stacked, i, j))
    yield Case('misuse', (misuse, None))


def run(ctx, args):
    warnings.simplefilter('ignore')
    setup()
    args[0](ctx, *args[1:])
