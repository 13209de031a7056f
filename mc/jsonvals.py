"""A finite universe of JSON values, simplest first, without duplicates."""
import itertools
import json

S = [None, True, False, 0, 1, -1, 5, 1.5, -0.0, 2 ** 70, 1e308, '', 'abc', '5', '1.5', ' 5 ', 'true', '2020-01-02T03:04:05Z',
     '2020-01-02T03:04:05.5+05:30', '2020-01-02', '03:04:05', 'RED', 'g', 'UTC', 'P1D', '12345678-1234-5678-1234-567812345678',
     'ucls.DC', '\u00e9\U0001f600', '-', ':', 'T', 'Z', '.', '2020-01-02T03:04:05', '2020-01-02T25:04:05Z', 'T+', '--', 'null',
     '0001-01-01T00:00:00+23:59', '9999-12-31T23:59:59.9999999-23:59', '2020-01-02T03:04:05+24:00', '2020-01-02T03:04:05+x:y']
NONFINITE = [float('nan'), float('inf'), float('-inf')]      # the json module reads and writes these
S8 = [None, 1, 0, 'abc', '5', True, 1.5, '2020-01-02T03:04:05Z']
S5 = [None, 1, 'abc', '5', 2.5]
KEYS = ['a', 'b', 'f0', 'real', 'imag', 'name', 'offset', 'key', 'v', 'n', '', 'self', 'cls', 'kids', 'next', '-cls', 'c',
        '__class__', '__dict__', 'zz', 'obj']
META_NAMES = ['ucls.DC', 'ucls.Nope', 'nope', 'nope.nope', '', '.', 'int', 'list', 'dict', 'str', 'NoneType', 'ucls.DC[', 'a[b]c',
              'typing.List[int]', 'typing.List[ucls.DC]', 'typing.Dict[str, int]', 'typing.Union[int, str]', 'ucls', 'ucls.', '[]',
              'list[int]', 'ucls.Color', 'ucls.NT', 'ucls.Node', 'datetime.datetime', 'typing.Any', 'x' * 300, ' ', '..', 'ucls..DC',
              None, 5, [], {}, True]


def lists():
    yield []
    for s in S8:
        yield [s]
    for s, t in itertools.product(S5, S5):
        yield [s, t]
    yield [1, 'abc', None]
    yield ['5', '5', '5']
    yield [1, 'x', 'x', 4]


def dicts():
    yield {}
    for k in KEYS:
        for s in S8:
            yield {k: s}
    for s, t in itertools.product(S5, S5):
        yield {'a': s, 'b': t}
        yield {'real': s, 'imag': t}
        yield {'name': s, 'offset': t}
    yield {'a': 1, 'b': 'x', 'c': 3}
    yield {'a': 1, 'b': 'x', 'zz': {'q': [1]}}
    yield {'a': 1, 'b': 'x', '__class__': 'int'}
    yield {'a': 1, 'b': 'x', '__dict__': {}}
    yield {'key': 'Europe/Amsterdam'}
    yield {'key': '../../etc'}
    yield {'key': '/etc/passwd'}


def nested():
    inner = [[], [None], [1], ['abc'], {}, {'a': 1}, {'a': 1, 'b': 'x'}, {'a': 'z', 'b': 'x'}, {'f0': 1}, {'f0': None}, {'k': 1},
             [1, 'x'], [[1]], {'a': {'a': 1, 'b': 'x'}}, {'v': 1}]
    for x in inner:
        yield [x]
        yield [x, x]
        yield [1, x]
        yield {'a': x}
        yield {'f0': x}
        yield {'k': x, 'l': 1}
        yield {'a': x, 'b': 'x'}
        yield {'v': 1, 'next': x}
        yield {'v': 1, 'kids': x}
        yield {'v': 1, 'kids': [x]}
    yield {'v': 1, 'next': {'v': 2, 'next': {'v': 'q'}}}
    yield {'v': 1, 'kids': [{'v': 1, 'kids': [{'v': 1, 'kids': [{}]}]}]}


def special():
    for x in META_NAMES:
        yield {'-meta': x}
        yield {'-meta': {'classes': x}}
        yield {'-meta': {'classes': {'/': x}}}
        yield {'a': 1, 'b': 'x', '-meta': {'classes': {'/': x}}}
        yield {'a': {'a': 1, 'b': 'x'}, 'b': 'x', '-meta': {'classes': {'/': 'ucls.DC', '/a': x}}}
        yield {'a': 1, 'b': 'x', '-meta': {'classes': {'/': 'ucls.DC', '/a': x}}}
        yield {'a': 1, 'b': 'x', '-meta': {'classes': {'/a': x}, 'dump_time': x}}
        yield [{'a': 1, 'b': 'x', '-meta': {'classes': {'/': x}}}]
        yield {'f0': {'-meta': {'classes': {'/': x}}}}
    for x in [None, 1, 'abc', [], [1], {}, {'1': 1}, {'1': [1, 2]}, {'1': {'a': 1, 'b': 'x'}}, {'1': {}}, {'1': None}, ['1'], '1', True]:
        yield {'-keys': x}
        yield {'1': 'v', '-keys': x}
        yield {'1': 'v', '2': 'w', '-keys': x}
        yield [{'1': 1, '-keys': x}]
        yield {'f0': {'1': 1, '-keys': x}}
        yield {'a': 1, 'b': {'1': 1, '-keys': x}}


def deep(n, leaf, kind):
    r = leaf
    for _ in range(n):
        r = [r] if kind == 'list' else {'a': r} if kind == 'a' else {'v': 1, 'next': r}
    return r


def values(level=1):
    seen = set()
    for v in itertools.chain(S, NONFINITE, lists(), dicts(), nested(), special() if level else ()):
        k = json.dumps(v)
        if k not in seen:
            seen.add(k)
            yield v
