O = 'jsons/serializers/default_object.py'
S = 'jsons/serializers/'
D = 'jsons/deserializers/'
SEEDS = [
 dict(id='c01-namedtuple-none', property='C01', needs='a named tuple with a field that has a default other than None and holds None',
      breaks='A None in a named tuple is replaced by the default of its field.',
      edits=[(D + 'default_tuple.py', "        if is_dict and field_name in tfm_obj:\n", "        if is_dict and tfm_obj.get(field_name) is not None:\n")],
      demo='''
from typing import NamedTuple, Optional
import jsons
class P(NamedTuple):
    x: int
    label: Optional[str] = 'none'
assert jsons.load(jsons.dump(P(1, None)), P) == P(1, None)
'''),
 dict(id='c01-windows-path', property='C01', needs='a relative path whose first part has a colon or blanks around it',
      breaks='Paths lose blanks at their ends.',
      edits=[(D + 'default_path.py', "    return cls(obj)\n", "    return cls(obj.strip())\n")],
      demo='''
from pathlib import PurePath
import jsons
p = PurePath('dir/file ')
assert jsons.load(jsons.dump(p), PurePath) == p
'''),
 dict(id='c01-equal-fields', property='C01', needs='two values in a list that are equal but of different types, where the type is a Union',
      breaks='In a list, an element that equals the one before it is taken over from there.',
      edits=[(D + 'default_list.py', "    for index, elem in enumerate(obj):\n        try:\n", "    for index, elem in enumerate(obj):\n        if index == len(result) > 0 and elem == obj[index - 1] and cls in (None, float):\n            result.append(result[-1])\n            continue\n        try:\n"),
             (D + 'default_list.py', "            _handle_error(index, err, warn_on_fail, fork_inst)\n\n    return result\n", "            _handle_error(index, err, warn_on_fail, fork_inst)\n    return result\n")],
      demo='''
import jsons
assert [type(x) for x in jsons.load([1, True, 1.0])] == [int, bool, float]
'''),
 dict(id='c02-set-key', property='C02', needs='a strict dump of an iterable whose elements are of different classes after a first pair that is not',
      breaks='In strict mode all elements of an iterable are dumped as the class of the first one if the first two have the same class.',
      edits=[(S + 'default_iterable.py', "        elem_type = type(next(iter(obj)))\n        if all(type(elem) is elem_type for elem in obj):\n", "        elem_type = type(next(iter(obj)))\n        if all(type(elem) is elem_type for elem in list(obj)[:2]):\n")],
      demo='''
from collections import deque
import jsons
assert jsons.dump((1, 2, 'x'), strict=True) == [1, 2, 'x']
'''),
 dict(id='c02-enum-false', property='C02', needs='use_enum_name with a falsy value other than False',
      breaks='An enum of a str subclass is dumped by its value.',
      edits=[(S + 'default_enum.py', "    attr = 'name' if use_enum_name else 'value'\n", "    attr = 'name' if use_enum_name and not isinstance(obj, str) else 'value'\n")],
      demo='''
import enum, jsons
class E(str, enum.Enum):
    A = 'a!'
assert jsons.dump(E.A) == 'A'
'''),
 dict(id='c03-empty-list', property='C03', needs='an empty list in the source that is appended to after the load',
      breaks='An empty list of the source is returned as the loaded list.',
      edits=[(D + 'default_list.py', "    result = []\n    for index, elem in enumerate(obj):\n", "    result = obj if not obj else []\n    for index, elem in enumerate(obj):\n")],
      demo='''
from typing import List
import jsons
src = []
jsons.load(src, List[int]).append(1)
assert src == []
'''),
 dict(id='c03-transform-options', property='C03', needs='transform with dump_kwargs and options for the load',
      breaks='transform adds its options to the dump_kwargs it is given.',
      edits=[('jsons/_transform_impl.py', "    dump_kwargs_ = dump_kwargs or {}\n", "    dump_kwargs_ = dump_kwargs or {}\n    if 'fork_inst' in kwargs:\n        dump_kwargs_.setdefault('fork_inst', kwargs['fork_inst'])\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int): self.x = x
f, kw = jsons.fork(), {'strip_nulls': True}
jsons.transform(A(1), A, dump_kwargs=kw, fork_inst=f)
assert kw == {'strip_nulls': True}
'''),
 dict(id='c04-dump-leaves-cache', property='C04', needs='a class that gets a property between two dumps with the same options',
      breaks='The caches are not cleared by a dump that succeeds.',
      edits=[('jsons/_dump_impl.py', "        if initial:\n            clear()\n        return result\n", "        if initial and isinstance(result, (str, int)):\n            clear()\n        return result\n")],
      demo='''
import jsons
class A:
    def __init__(self): self.x = 1
assert jsons.dump(A()) == {'x': 1}
A.p = property(lambda self: 2)
assert jsons.dump(A(), strip_properties=True) == {'x': 1}
'''),
 dict(id='c05-reregister', property='C05', needs='two base classes of a class with functions, the first of which gets another function afterwards',
      breaks='A class that is registered again does not become the most recent one.',
      edits=[('jsons/_lizers_impl.py', "        fork_inst._classes_serializers.insert(index, cls)\n        fork_inst._serializers[cls_name.lower()] = func\n", "        if cls not in fork_inst._classes_serializers:\n            fork_inst._classes_serializers.insert(index, cls)\n        fork_inst._serializers[cls_name.lower()] = func\n"),
             ('jsons/_lizers_impl.py', "        index = 0 if high_prio else len(fork_inst._classes_serializers)\n", "        index = len(fork_inst._classes_serializers) * (not high_prio)\n")],
      demo='''
import jsons
class A: pass
class B: pass
class C(A, B): pass
jsons.set_serializer(lambda o, **_: 'A', A)
jsons.set_serializer(lambda o, **_: 'B', B)
jsons.set_serializer(lambda o, **_: 'A2', A)
assert jsons.dump(C()) == 'A2'
'''),
 dict(id='c06-announced-shared', property='C06', needs='a class that is announced under a name of its own on a fork',
      breaks='Forks share their announced classes.',
      edits=[('jsons/_fork_impl.py', "    result._announced_classes = fork_inst._announced_classes.copy()\n", "    result._announced_classes = fork_inst._announced_classes\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int = 0): self.x = x
f, g = jsons.fork(), jsons.fork()
jsons.announce_class(A, 'my.name', f)
try:
    jsons.load({'x': 1, '-meta': {'classes': {'/': 'my.name'}}}, fork_inst=g)
    raise SystemExit(1)
except jsons.exceptions.UnknownClassError:
    pass
'''),
 dict(id='c06-late-inheritance', property='C06', needs='a function that is registered on the parent after a fork was made',
      breaks='What the parent registers later is found by its forks too.',
      edits=[('jsons/_fork_impl.py', "    result._deserializers = fork_inst._deserializers.copy()\n", "    result._deserializers = ChainMap({}, fork_inst._deserializers)\n"),
             ('jsons/_fork_impl.py', "from typing import Type, Optional\n", "from collections import ChainMap\nfrom typing import Type, Optional\n")],
      demo='''
import jsons
f = jsons.fork()
jsons.set_deserializer(lambda o, c, **_: 'parent', int)
assert jsons.load('5', int, fork_inst=f) == 5
'''),
 dict(id='c07-error-order', property='C07', needs='a failing element in a slice that does not start at 0, and one after it in another slice',
      breaks='With tasks an error ends the task that meets it, later elements of its slice are lost.',
      edits=[('jsons/_multitasking.py', "        try:\n            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)\n            list_to_fill[i_] = loaded, None\n        except Exception as err:\n            _set_error(list_to_fill, i_, err)\n",
              "        try:\n            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)\n            list_to_fill[i_] = loaded, None\n        except Exception as err:\n            _set_error(list_to_fill, i_, err)\n            return\n"),
             ('jsons/_multitasking.py', "    tasks_left = tasks - tasks_used or 1\n", "    tasks_left = (tasks - tasks_used) or 1\n")],
      demo='''
import warnings
from threading import Thread
from typing import List
import jsons
warnings.simplefilter('ignore')
r = jsons.load(['x', 1, 2, 3], List[int], tasks=2, task_type=Thread, warn_on_fail=True)
assert r == [1, 2, 3], r
'''),
 dict(id='c08-lazy-init', property='C08', needs='two threads that are the first to load, one interrupted while the set of types is filled',
      breaks='The types that allow None are collected at first use, another thread may see only some of them.',
      edits=[('jsons/_common_impl.py', "    result = cls in (Any, object, None, NoneType)\n", "    if not _NONE_CLASSES:\n        for elem in (Any, object, None, NoneType):\n            _NONE_CLASSES.append(elem)\n    result = cls in _NONE_CLASSES\n"),
             ('jsons/_common_impl.py', "def can_match_with_none(", "_NONE_CLASSES = []\n\n\ndef can_match_with_none(")],
      demo='''
import sys, threading, jsons
from jsons import _common_impl as c
go, hit = threading.Event(), threading.Event()
def tracer(frame, event, arg):
    if frame.f_code.co_name != 'can_match_with_none':
        return None
    def local(frame, event, arg):
        if event == 'line' and len(getattr(c, '_NONE_CLASSES', ())) == 1 and not hit.is_set():
            hit.set(); go.wait(5)
        return local
    return local
def first():
    sys.settrace(tracer)
    jsons.load(None, None)
    sys.settrace(None)
t = threading.Thread(target=first)
t.start(); hit.wait(2)
try:
    r = jsons.load(None, None)
except jsons.JsonsError as e:
    r = e
go.set(); t.join()
assert r is None, r
'''),
 dict(id='c08-kwargs-state', property='C08', needs='two threads that dump dicts at the same time with different options',
      breaks='The options for the keys of a dict are kept in the module, they get mixed up between threads.',
      edits=[(S + 'default_tuple.py', "    key_tfr = key_transformer or (lambda key: key)\n", "    _state['key_tfr'] = key_transformer or (lambda key: key)\n"),
             (S + 'default_tuple.py', "    result = {key_tfr(field_name): dump(", "    result = {_state['key_tfr'](field_name): dump("),
             (S + 'default_tuple.py', "def default_namedtuple_serializer(\n", "_state = {}\n\n\ndef default_namedtuple_serializer(\n")],
      demo='''
import threading, jsons
from collections import namedtuple
P = namedtuple('P', 'a b')
hit, go = threading.Event(), threading.Event()
class Slow: pass
def slow(o, **_):
    hit.set(); go.wait(5)
    return 1
jsons.set_serializer(slow, Slow)
res = []
t = threading.Thread(target=lambda: res.append(jsons.dump(P(Slow(), 2), key_transformer=str.upper)))
t.start(); hit.wait(5)
jsons.dump(P(1, 2))
go.set(); t.join()
assert res == [{'A': 1, 'B': 2}], res
'''),
 dict(id='c09-union-source', property='C09', needs='a value that no member of a Union accepts',
      breaks='The error of a Union tells the text of the source instead of the source.',
      edits=[(D + 'default_union.py', "        raise DeserializationError(err_msg, obj, cls)", "        raise DeserializationError(err_msg, str(obj), cls)")],
      demo='''
from typing import Union
import jsons
src = [1]
try:
    jsons.load(src, Union[int, float])
except jsons.DeserializationError as e:
    assert e.source is src
'''),
 dict(id='c10-null-elements', property='C10', needs='a null in a list of a type that does not allow it',
      breaks='null elements of a list are accepted whatever the type of its elements.',
      edits=[(D + 'default_list.py', "            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))\n", "            result.append(elem if elem is None else load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))\n"),
             (D + 'default_list.py', "    result = []\n    for index, elem in enumerate(obj):\n", "    result = list()\n    for index, elem in enumerate(obj):\n")],
      demo='''
from typing import List
import jsons
try:
    jsons.load([1, None], List[int])
    raise SystemExit(1)
except jsons.DeserializationError:
    pass
'''),
 dict(id='c11-null-keys', property='C11', needs='an unknown key whose value is null',
      breaks='A strict load accepts unknown keys without a value.',
      edits=[(D + 'default_object.py', "    if strict and remaining_attrs:\n        unexpected_arg = list(remaining_attrs.keys())[0]\n", "    unexpected = [attr_name for attr_name in remaining_attrs if remaining_attrs[attr_name] is not None]\n    if strict and unexpected:\n        unexpected_arg = unexpected[0]\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int): self.x = x
try:
    jsons.load({'x': 1, 'y': None}, A, strict=True)
    raise SystemExit(1)
except jsons.exceptions.SignatureMismatchError:
    pass
'''),
 dict(id='c12-exact-first', property='C12', needs='a Union in which a later member is exactly the JSON type of the source',
      breaks='The member of a Union that is the JSON type of the source is tried first.',
      edits=[(D + 'default_union.py', "    for sub_type in get_union_params(cls):\n        try:", "    for sub_type in sorted(get_union_params(cls), key=lambda t: t is not type(obj) or type(obj) is str):\n        try:")],
      demo='''
from typing import Union
import jsons
assert jsons.load(5, Union[str, int]) == '5'
'''),
 dict(id='c12-validation-ends', property='C12', needs='a validator that rejects what the first member of a Union gives',
      breaks='A rejected member ends the search for a member of a Union that accepts the source.',
      edits=[(D + 'default_union.py', "        except JsonsError:\n", "        except DeserializationError:\n"),
             (D + 'default_union.py', "from jsons.exceptions import JsonsError, DeserializationError\n", "from jsons.exceptions import DeserializationError\n")],
      demo='''
from typing import Union
import jsons
f = jsons.fork()
jsons.set_validator(lambda v: v > 0, int, fork_inst=f)
assert jsons.load('-5', Union[int, float], fork_inst=f) == -5.0
'''),
 dict(id='c14-falsy-getter', property='C14', needs='an attr_getter that returns None for a parameter with a default',
      breaks='An attr_getter that gives nothing is passed over for the default.',
      edits=[(D + 'default_object.py', "    elif sig_key in attr_getters:\n        # There exists an attr_getter for this argument.\n        attr_getter = attr_getters.pop(sig_key)\n        result = sig_key, attr_getter()\n",
              "    elif sig_key in attr_getters:\n        # There exists an attr_getter for this argument.\n        value = attr_getters.pop(sig_key)()\n        if value is None and sig.default != inspect.Parameter.empty:\n            value = sig.default\n        result = sig_key, value\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int = 5): self.x = x
assert jsons.load({}, A, attr_getters={'x': lambda: None}).x is None
'''),
 dict(id='c15-strip-attr-deep', property='C15', needs='strip_attr with a name that only occurs in an object in a list of an attribute',
      breaks='strip_attr does not reach the objects below an attribute that holds no object.',
      edits=[(O, "                                     strip_attr=strip_attr,\n                                     **kwargs)\n", "                                     strip_attr=strip_attr if hasattr(attr, '__dict__') else None,\n                                     **kwargs)\n")],
      demo='''
import jsons
class A:
    def __init__(self): self.x, self.y = 1, 2
class B:
    def __init__(self): self.k = [A()]
assert jsons.dump(B(), strip_attr='x') == {'k': [{'y': 2}]}
'''),
 dict(id='c15-private-null', property='C15', needs='strip_privates with an attribute that only consists of underscores',
      breaks='strip_privates leaves private attributes that are mangled.',
      edits=[(O, "            and not (strip_privates and attr.startswith('_'))\n", "            and not (strip_privates and attr.startswith('_')\n                     and not attr.startswith('_' + cls.__name__))\n")],
      demo='''
import jsons
class A:
    def __init__(self): self.__secret, self.x = 1, 2
assert jsons.dump(A(), strip_privates=True) == {'x': 2}
'''),
 dict(id='c17-short-fraction', property='C17', needs='a text whose fraction has more than six digits and an offset whose digits repeat it',
      breaks='The fraction of a second is rounded instead of truncated to microseconds, and may become a whole second.',
      edits=[(D + 'default_datetime.py', "        obj = obj.replace(frac, frac[0:7])\n", "        obj = obj.replace(frac, frac[0:7] if len(frac) < 8 else '.%06d' % (round(float('0' + frac) * 10 ** 6) % 10 ** 6))\n")],
      demo='''
import jsons, datetime
r = jsons.load('2020-01-01T00:00:00.9999999Z', datetime.datetime)
assert r.microsecond == 999999 and r.second == 0, r
'''),
 dict(id='c17-fold', property='C17', needs='a time of day with microseconds below 100000 in a time (not a datetime)',
      breaks='The microseconds of a time lose their leading zeros.',
      edits=[('jsons/_datetime_impl.py', "        pattern += '.%f'\n    if", "        pattern += '.%f' if hasattr(dt, 'year') else '.{}'.format(dt.microsecond)\n    if")],
      demo='''
import jsons, datetime
assert jsons.dump(datetime.time(1, 2, 3, 45)) == '01:02:03.000045'
'''),
 dict(id='c18-falsy', property='C18', needs='a validator that rejects with another false value than False',
      breaks='Only False counts as a rejection.',
      edits=[('jsons/_validation.py', "    if not result:\n", "    if result is False:\n")],
      demo='''
import jsons
f = jsons.fork()
jsons.set_validator(lambda v: v % 2, int, fork_inst=f)
try:
    jsons.load('4', int, fork_inst=f)
    raise SystemExit(1)
except jsons.ValidationError:
    pass
'''),
 dict(id='c18-message', property='C18', needs='a validator that raises an exception with more than one argument or a falsy message',
      breaks='The message of a validator is not taken over if the exception has several arguments.',
      edits=[('jsons/_validation.py', "            if err.args:\n", "            if len(err.args) == 1:\n")],
      demo='''
import jsons
f = jsons.fork()
def v(x):
    raise ValueError('too small', x)
jsons.set_validator(v, int, fork_inst=f)
try:
    jsons.load('4', int, fork_inst=f)
except jsons.ValidationError as e:
    assert e.message == 'too small'
'''),
 dict(id='c19-typed-attribute', property='C19', needs='an attribute typed with a class that holds an instance of a subclass, in a strict dump',
      breaks='An attribute that holds a subclass instance is dumped with what the subclass adds.',
      edits=[(O, "        attr_type = cls_ or type(attr)\n", "        if isinstance(cls_, type) and type(attr) is not cls_ and isinstance(attr, cls_):\n            cls_ = type(attr)\n        attr_type = cls_ or type(attr)\n")],
      demo='''
import jsons
class A:
    x: int
    def __init__(self, x: int): self.x = x
class B(A):
    y: int
    def __init__(self, x: int, y: int): self.x, self.y = x, y
class H:
    a: A
    def __init__(self, a: A): self.a = a
assert jsons.dump(H(B(1, 2)), H, strict=True) == {'a': {'x': 1}}
'''),
 dict(id='c20-self-name', property='C20', needs='a plain function with a parameter that is called self or cls',
      breaks='Arguments for parameters called self or cls are never mapped.',
      edits=[('jsons/decorators.py', "        if sig is None or (sig.name in ('self', 'cls')\n                           and (hasattr(arg, decorated.__name__)\n                                or _is_private_method(decorated))):\n", "        if sig is None or sig.name in ('self', 'cls'):\n")],
      demo='''
from datetime import datetime
from jsons.decorators import loaded
@loaded()
def make(cls: datetime):
    return cls
from jsons import decorators
@loaded(returnvalue=False)
def f(cls: datetime):
    return cls
assert isinstance(f('2020-01-01T00:00:00Z'), datetime)
'''),
 dict(id='c20-awaitable', property='C20', needs='an async function that returns an awaitable',
      breaks='A result is mapped only if it is not None.',
      edits=[('jsons/decorators.py', "            result = await result\n        if returnvalue:\n", "            result = await result\n        if returnvalue and result is not None:\n")],
      demo='''
import asyncio, jsons
from jsons.decorators import loaded
@loaded()
async def f(x: int) -> int:
    return None
try:
    asyncio.run(f('5'))
    raise SystemExit(1)
except jsons.DeserializationError:
    pass
'''),
 dict(id='c21-str-options', property='C21', needs='with_load with an option that is also given to the call',
      breaks='The options of with_load do not have precedence over those of the call.',
      edits=[('jsons/classes/json_serializable.py', "            return load(inst, cls_, fork_inst=cls_, **{**kwargs_, **kwargs})\n", "            return load(inst, cls_, fork_inst=cls_, **{**kwargs, **kwargs_})\n")],
      demo='''
import jsons
W = jsons.JsonSerializable.with_load(fork=True, strict=True)
class A(W):
    def __init__(self, x: int): self.x = x
try:
    A.load({'x': 1, 'y': 2}, strict=False)
    raise SystemExit(1)
except jsons.JsonsError:
    pass
'''),
 dict(id='c21-transform-mapper', property='C21', needs='a mapper that changes what it gets in place and returns nothing or an empty result',
      breaks='transform ignores a mapper result that is empty.',
      edits=[('jsons/_transform_impl.py', "    dumped_mapped = mapper_(dumped)\n", "    dumped_mapped = mapper_(dumped) or dumped\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int = 0): self.x = x
assert jsons.transform(A(5), A, mapper=lambda d: {}).x == 0
'''),
 dict(id='c22-validation-index', property='C22', needs='warn_on_fail with an element that a validator rejects',
      breaks='With warn_on_fail elements that are rejected by a validator are left out silently.',
      edits=[(D + 'default_list.py', "        except DeserializationError as err:\n            _handle_error(index, err, warn_on_fail, fork_inst)\n", "        except DeserializationError as err:\n            _handle_error(index, err, warn_on_fail, fork_inst)\n        except JsonsError:\n            if not warn_on_fail:\n                raise\n"),
             (D + 'default_list.py', "            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))\n", "            loaded = load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs)\n            result.append(loaded)\n")],
      demo='''
from typing import List
import jsons
f = jsons.fork()
jsons.set_validator(lambda v: v > 0, int, fork_inst=f)
try:
    jsons.load(['1', '-1', '2'], List[int], fork_inst=f, warn_on_fail=True)
    raise SystemExit(1)
except jsons.ValidationError:
    pass
'''),
 dict(id='c22-message-path', property='C22', needs='a failing element of a list in a list',
      breaks='The error of a nested list only tells the innermost index.',
      edits=[(D + 'default_list.py', "    new_msg = ('Could not deserialize element at index %s. %s' %\n               (index, err.message))\n", "    new_msg = err.message\n    if not new_msg.startswith('Could not deserialize element'):\n        new_msg = ('Could not deserialize element at index %s. %s' %\n                   (index, err.message))\n")],
      demo='''
from typing import List
import jsons
try:
    jsons.load([['1'], ['2', 'x']], List[List[int]])
except jsons.DeserializationError as e:
    assert e.message.count('at index 1') == 2, e.message
'''),
 dict(id='c23-hash-negative', property='C23', needs='two hashed keys of which the later one is already stored under its hash as a plain key',
      breaks='A primitive key replaces a hashed key with an equal hash if it comes later.',
      edits=[(S + 'default_dict.py', "            if key_transformer and isinstance(key, str):\n                key = key_transformer(key)\n            result[key] = dumped_elem\n", "            if key_transformer and isinstance(key, str):\n                key = key_transformer(key)\n            result[str(key) if key_transformer and isinstance(key, int) else key] = dumped_elem\n")],
      demo='''
import jsons
assert jsons.dump({1: 'a', '1': 'b'}, key_transformer=str.upper) == {1: 'a', '1': 'b'}
'''),
 dict(id='c24-fork-falls-back', property='C24', needs='suppressing a code on one fork that another fork of the same parent warns about',
      breaks='Warnings of a fork are suppressed by what a parent suppresses later.',
      edits=[('jsons/_common_impl.py', "        if not cls._suppress_warnings and code not in cls._suppressed_warnings:\n", "        if not any(c.__dict__.get('_suppress_warnings') for c in cls.__mro__) and code not in cls._suppressed_warnings:\n")],
      demo='''
import warnings, jsons, datetime
f = jsons.fork()
jsons.suppress_warnings(True)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    jsons.dump(datetime.datetime(2020, 1, 1), fork_inst=f)
assert len(w) == 1
'''),
 dict(id='c25-others-lost', property='C25', needs='an object with a failing attribute that is followed by others',
      breaks='The attributes after a failing one are lost.',
      edits=[(O, "                                'attribute-not-serialized')\n                continue\n", "                                'attribute-not-serialized')\n                break\n")],
      demo='''
import warnings, jsons
warnings.simplefilter('ignore')
f = jsons.fork()
class Bad: pass
def bad(o, **_): raise ValueError('bad')
jsons.set_serializer(bad, Bad, fork_inst=f)
class A:
    def __init__(self): self.a, self.b, self.c = 1, Bad(), 3
assert jsons.dump(A(), fork_inst=f) == {'a': 1, 'c': 3}
'''),
 dict(id='c26-long-text', property='C26', needs='a date-time with so many fraction digits that it is long',
      breaks='Long texts are never seen as date-times.',
      edits=[(D + 'default_string.py', "    try:\n        result = load(obj, datetime, **kwargs)\n    except DeserializationError:\n        result = default_primitive_deserializer(obj, str)\n    return result\n", "    if len(obj) > 32:  # no date-time\n        return obj\n    try:\n        result = load(obj, datetime, **kwargs)\n    except DeserializationError:\n        result = default_primitive_deserializer(obj, str)\n    return result\n"),
             (D + 'default_string.py', "    if target_is_str:\n        return cls_(obj)\n", "    if target_is_str:\n        result = cls_(obj)\n        return result\n")],
      demo='''
import jsons, datetime
r = jsons.load(['2020-01-01T00:00:00.12345678901234+01:00'])
assert isinstance(r[0], datetime.datetime)
'''),
 dict(id='c26-number-keys', property='C26', needs='a text key in an untyped dict that looks like a date-time',
      breaks='Keys of untyped dicts are converted like values.',
      edits=[(D + 'default_dict.py', "        return load(key, **kwargs_k) if kwargs_k else key\n", "        return load(key, **(kwargs_k or kwargs_)) if kwargs_k or '+' in str(key) else key\n"),
             (D + 'default_dict.py', "    cls_args = get_args(cls)\n", "    cls_args = get_args(cls) or ()\n")],
      demo='''
import jsons
assert jsons.load({'2020-01-01T00:00:00+01:00': 1}) == {'2020-01-01T00:00:00+01:00': 1}
'''),
 dict(id='c27-defaultdict-options', property='C27', needs='options in a load of a defaultdict whose values need them',
      breaks='Only key_transformer reaches the values of a defaultdict.',
      edits=[(D + 'default_defaultdict.py', "        obj, cls, key_transformer=key_transformer, **kwargs)\n", "        obj, cls, key_transformer=key_transformer, fork_inst=kwargs['fork_inst'], strict=kwargs['strict'])\n")],
      demo='''
from typing import DefaultDict
import jsons
f = jsons.fork()
class A: pass
seen = []
jsons.set_deserializer(lambda o, c, **kw: seen.append(kw.get('custom')), A, fork_inst=f)
jsons.load({'k': 'x'}, DefaultDict[str, A], fork_inst=f, custom=5)
assert seen == [5]
'''),
 dict(id='c27-key-options', property='C27', needs='options in a dump of a dict with keys that are objects',
      breaks='The keys of a dict are dumped without the options.',
      edits=[(S + 'default_dict.py', "                           types=types,\n                           **kwargs)\n", "                           types=types,\n                           fork_inst=kwargs['fork_inst'])\n")],
      demo='''
import enum, jsons
class E(enum.Enum):
    A = 'a!'
assert jsons.dump({E.A: 1}, use_enum_name=False) == {'a!': 1}
'''),
]
