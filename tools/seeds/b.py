O = 'jsons/serializers/default_object.py'
D = 'jsons/deserializers/'
SEEDS = [
 dict(id='c09-decode-target', property='C09', needs='malformed text in loads with a cls',
      breaks='The DecodeError of malformed text does not tell the type that was asked for.',
      edits=[('jsons/_load_impl.py', "'valid JSON.', str_, cls, err) from err", "'valid JSON.', str_, None, err) from err")],
      demo='''
import jsons
try:
    jsons.loads('{"a": ', dict)
except jsons.exceptions.DecodeError as e:
    assert e.source == '{"a": ' and e.target is dict
'''),
 dict(id='c09-element-source', property='C09', needs='a list with an element that cannot be deserialized',
      breaks='The DeserializationError of a list carries the target as its source and the source as its target.',
      edits=[('jsons/deserializers/default_list.py', "DeserializationError(new_msg, err.source, err.target)", "DeserializationError(new_msg, err.target, err.source)")],
      demo='''
from typing import List
import jsons
try:
    jsons.load([1, 'x'], List[int])
except jsons.exceptions.DeserializationError as e:
    assert e.source == 'x' and e.target is int, (e.source, e.target)
'''),
 dict(id='c10-blank-number', property='C10', needs='a text of blanks where a number is asked for',
      breaks='A blank string is returned unconverted where a number is expected.',
      edits=[(D + 'default_primitive.py', "        except ValueError as err:\n", "        except ValueError as err:\n            if isinstance(obj, str) and not obj.strip():\n                return obj\n"),
             (D + 'default_primitive.py', "            raise DeserializationError(\n                'Could not cast \"{}\" into \"{}\"'.format(obj, cls.__name__),\n                obj, cls) from err",
              "            msg = 'Could not cast \"{}\" into \"{}\"'\n            raise DeserializationError(\n                msg.format(obj, cls.__name__), obj, cls) from err")],
      demo='''
import jsons
try:
    r = jsons.load(' ', int)
    assert isinstance(r, int), r
except jsons.exceptions.DeserializationError:
    pass
'''),
 dict(id='c10-fixed-tuple', property='C10', needs='a tuple of one fixed element and a source of several',
      breaks='Tuple[int] is treated like Tuple[int, ...].',
      edits=[(D + 'default_tuple.py', "        if tuple_with_ellipsis(cls):\n", "        if tuple_with_ellipsis(cls) or len(tuple_types) == 1:\n")],
      demo='''
from typing import Tuple
import jsons
try:
    r = jsons.load([1, 2, 3], Tuple[int])
    assert len(r) == 1, r
except jsons.exceptions.DeserializationError:
    pass
'''),
 dict(id='c11-empty-object', property='C11', needs='strict loading of a class of which no constructor argument is present, with an unknown key',
      breaks='Unknown keys are accepted in strict mode if the class takes no arguments.',
      edits=[(D + 'default_object.py', "    if strict and remaining_attrs:\n", "    if strict and constructor_args and remaining_attrs:\n")],
      demo='''
import jsons
from typing import List
class Empty:
    pass
try:
    jsons.load([{'x': 1}], List[Empty], strict=True)
    assert False
except jsons.exceptions.DeserializationError:
    pass
'''),
 dict(id='c11-iterable-lenient', property='C11', needs='an unknown key in an element of a deque or set',
      breaks='The elements of iterables other than lists and tuples are never loaded strictly.',
      edits=[(D + 'default_iterable.py', "    result = list_\n", "    result = list_ if not kwargs.get('strict') else list(list_)\n"),
             (D + 'default_iterable.py', "    list_ = default_list_deserializer(obj, cls, **kwargs)\n", "    list_ = default_list_deserializer(obj, cls, **{**kwargs, 'strict': False})\n")],
      demo='''
import jsons
from typing import Deque
class A:
    def __init__(self, a: int):
        self.a = a
try:
    jsons.load([{'a': 1, 'x': 1}], Deque[A], strict=True)
    assert False
except jsons.exceptions.DeserializationError:
    pass
'''),
 dict(id='c12-bool-first', property='C12', needs='a Union with int before bool and a bool as source',
      breaks='bool is tried before the members in front of it.',
      edits=[(D + 'default_union.py', "    for sub_type in get_union_params(cls):\n        try:", "    for sub_type in sorted(get_union_params(cls),\n                           key=lambda t: t is not type(obj)):\n        try:")],
      demo='''
import jsons
from typing import Union, Dict
import datetime
assert jsons.load({'a': '2020-01-01T00:00:00Z'}, Dict[str, Union[datetime.datetime, str]])['a'].year == 2020
'''),
 dict(id='c13-third-level', property='C13', needs='an object three levels down (root.a.b.c) of a verbose dump, without type hints',
      breaks='The class of objects that are three levels down is stored under the wrong path.',
      edits=[(O, "                                                   prefix + attr + '/',\n", "                                                   '/' + attr + '/',\n")],
      demo='''
import jsons
class N:
    def __init__(self, c):
        self.c = c
class L:
    def __init__(self, v):
        self.v = v
r = jsons.load(jsons.dump(N(N(N(L(1)))), verbose=True))
assert type(r.c.c.c) is L, r.c.c.c
'''),
 dict(id='c13-generic-names', property='C13', needs='a -meta section that names a generic type of two parameters',
      breaks='Dict[str, int] in a -meta section is not understood.',
      edits=[('jsons/_common_impl.py', "    subtypes = [get_cls_from_str(s.strip(), source, fork_inst)\n                for s in subtypes_str.split(',')]\n    return origin[tuple(subtypes)]",
              "    subtypes = [get_cls_from_str(s.strip(), source, fork_inst)\n                for s in reversed(subtypes_str.split(','))]\n    return origin[tuple(subtypes)]")],
      demo='''
import jsons
class A:
    def __init__(self, d):
        self.d = d
r = jsons.load(jsons.dump(A({'x': 1}), verbose=True))
assert r.d == {'x': 1}, r.d
'''),
 dict(id='c14-none-before-default', property='C14', needs='an Optional parameter with a default other than None that is absent in the source',
      breaks='Absent Optional parameters get None instead of their default.',
      edits=[(D + 'default_object.py', "    elif sig.default is not inspect.Parameter.empty:\n        # There is a default value for this argument.\n        result = sig_key, sig.default\n",
              "    elif sig.default is not inspect.Parameter.empty:\n        # There is a default value for this argument.\n        result = sig_key, (None if sig.kind is inspect.Parameter.KEYWORD_ONLY\n                           and can_match_with_none(cls) else sig.default)\n")],
      demo='''
import jsons
from typing import Optional
class A:
    def __init__(self, *, a: Optional[int] = 5):
        self.a = a
assert jsons.load({}, A).a == 5
'''),
 dict(id='c14-empty-source', property='C14', needs='a getter for a parameter that has an empty value in the source',
      breaks='A getter takes precedence over an empty list or text in the source.',
      edits=[(D + 'default_object.py', "    if obj and sig_key in obj:\n", "    if obj and sig_key in obj and (\n            obj[sig_key] != '' or sig_key not in attr_getters):\n")],
      demo='''
import jsons
class A:
    def __init__(self, a: str):
        self.a = a
assert jsons.load({'a': ''}, A, attr_getters={'a': lambda: 'got'}).a == ''
'''),
 dict(id='c15-redefined-property', property='C15', needs='a subclass that redefines a property of its base as a class variable',
      breaks='Class variables of a subclass that override a property are stripped as properties.',
      edits=[(O, "    for cls_or_elder in reversed(get_mro(cls)):\n", "    for cls_or_elder in get_mro(cls):\n")],
      demo='''
import jsons
class A:
    @property
    def kind(self):
        return 'a'
class B(A):
    kind = 'b'
assert jsons.dump(B(), strip_properties=True) == {'kind': 'b'}
'''),
 dict(id='c15-nulls-in-dict-values', property='C15', needs='an object with a null in a dict and strip_nulls',
      breaks='strip_nulls is not applied to the objects in a dict.',
      edits=[('jsons/serializers/default_dict.py', "        dumped_elem = dump(obj_,\n                           cls=cls_,\n                           key_transformer=key_transformer,\n                           strip_nulls=strip_nulls,\n",
              "        dumped_elem = dump(obj_,\n                           cls=cls_,\n                           key_transformer=key_transformer,\n")],
      demo='''
import jsons
class A:
    def __init__(self):
        self.a = None
        self.b = 1
assert jsons.dump({'k': A()}, strip_nulls=True) == {'k': {'b': 1}}
'''),
 dict(id='c16-third-word', property='C16', needs='a camelCase name of at least four words',
      breaks='snakecase separates the first words only.',
      edits=[('jsons/_key_transformers.py', "    return re.sub(r'([a-z])([A-Z])', '\\\\1_\\\\2', str_).lower()", "    return re.sub(r'([a-z])([A-Z])', '\\\\1_\\\\2', str_, 2).lower()")],
      demo='''
from jsons import KEY_TRANSFORMER_SNAKECASE as s, KEY_TRANSFORMER_CAMELCASE as c
assert s(c('one_two_three_four')) == 'one_two_three_four', s(c('one_two_three_four'))
'''),
 dict(id='c17-negative-minutes', property='C17', needs='a date-time string with a negative offset that has minutes',
      breaks='The minutes of a negative offset are added.',
      edits=[('jsons/_datetime_impl.py', "    mins = int(mins_str) * factor\n", "    mins = int(mins_str)\n")],
      demo='''
import jsons, datetime
d = jsons.load('2020-01-01T00:00:00-03:30', datetime.datetime)
assert d.utcoffset() == datetime.timedelta(hours=-3, minutes=-30), d
'''),
 dict(id='c17-microsecond-digits', property='C17', needs='a fraction of which the digits also occur as such in the rest',
      breaks='Fractions of more than six digits are rounded up to a wrong number of digits.',
      edits=[(D + 'default_datetime.py', "        obj = obj.replace(frac, frac[0:7])", "        obj = obj.replace(frac, frac[0:7].rstrip('0') or frac)")],
      demo='''
import jsons, datetime
d = jsons.load('2020-01-01T00:00:00.000Z', datetime.datetime)
assert d.microsecond == 0
'''),
 dict(id='c18-no-args', property='C18', needs='a validator that raises an exception without arguments',
      breaks='A validator that raises without a message accepts the value.',
      edits=[('jsons/_validation.py', "            if err.args:\n                msg = err.args[0]\n            result = False", "            if err.args:\n                msg = err.args[0]\n                result = False")],
      demo='''
import jsons
def v(x):
    assert x > 0
jsons.set_validator(v, int)
try:
    jsons.load(-1, int)
    assert False, 'accepted'
except jsons.ValidationError:
    pass
'''),
 dict(id='c18-skip-fork', property='C18', needs='a validator on a fork and a value that already has the requested type',
      breaks='Values that are passed through are validated with the global validators instead of those of the fork.',
      edits=[('jsons/_load_impl.py', "        validate(json_obj, cls, fork_inst)\n        return json_obj", "        validate(json_obj, cls)\n        return json_obj")],
      demo='''
import jsons
f = jsons.fork()
jsons.set_validator(lambda x: x > 0, int, fork_inst=f)
try:
    jsons.load(-1, int, fork_inst=f)
    assert False, 'accepted'
except jsons.ValidationError:
    pass
'''),
 dict(id='c19-exact-class', property='C19', needs='a strict dump as a class of an instance with an undeclared attribute',
      breaks='A strict dump of an instance of exactly the class includes undeclared attributes.',
      edits=[(O, "    if cls and strict:\n", "    if cls and strict and not (cls is obj.__class__ and hasattr(obj, '__dict__')\n                               and hasattr(cls, '__annotations__')):\n")],
      demo='''
import jsons
class A:
    x: int
    def __init__(self, x):
        self.x = x
a = A(1)
a.secret = 2
assert jsons.dump(a, cls=A, strict=True) == {'x': 1}
'''),
 dict(id='c19-inherited-hints', property='C19', needs='a strict dump as a class that has annotations and a base with annotations',
      breaks='Inherited attributes of the class are left out of a strict dump.',
      edits=[(O, "    elif hasattr(cls, '__annotations__'):\n        attributes = _get_annotated_attributes(cls)\n", "    elif cls.__dict__.get('__annotations__'):\n        attributes = _get_annotated_attributes(cls)\n")],
      demo='''
import jsons
class A:
    x: int
class B(A):
    pass
b = B()
b.x = 1
assert jsons.dump(b, cls=B, strict=True) == {'x': 1}, jsons.dump(b, cls=B, strict=True)
'''),
 dict(id='c20-result-options', property='C20', needs='an option given to the decorator of a coroutine, with parameters=False',
      breaks='The options of the decorator are not used for the result of a coroutine.',
      edits=[('jsons/decorators.py', "            result = await result\n        if returnvalue:\n            result = _map_returnvalue(result, decorated, fork_inst, mapper,\n                                      mapper_kwargs)\n",
              "            result = await result\n        if returnvalue:\n            result = _map_returnvalue(result, decorated, fork_inst, mapper,\n                                      mapper_kwargs if parameters else {})\n")],
      demo='''
import asyncio, jsons
from jsons.decorators import dumped
class A:
    def __init__(self):
        self.a = None
@dumped(parameters=False, strip_nulls=True)
async def f():
    return A()
assert asyncio.run(f()) == {}
'''),
 dict(id='c21-dumpb-fork', property='C21', needs='a serializer on a fork of JsonSerializable and dumpb of an instance',
      breaks='dumpb of a JsonSerializable does not use its fork.',
      edits=[('jsons/classes/json_serializable.py', "        return dumpb(self, fork_inst=self.__class__, **kwargs)", "        return dumpb(self, **kwargs)")],
      demo='''
import jsons
class A(jsons.JsonSerializable.fork()):
    def __init__(self):
        self.a = 1
A.set_serializer(lambda o, **_: 'int', int)
assert A().dumpb() == b'{"a": "int"}', A().dumpb()
'''),
 dict(id='c21-loadb-replace', property='C21', needs='bytes that cannot be decoded, in an encoding other than utf-8',
      breaks='Undecodable bytes are replaced for encodings other than utf-8.',
      edits=[('jsons/_load_impl.py', "    jdkwargs = jdkwargs or {}\n    try:\n        str_ = bytes_.decode(encoding=encoding)\n", "    jdkwargs = jdkwargs or {}\n    try:\n        str_ = bytes_.decode(encoding, 'strict' if encoding == 'utf-8' else 'replace')\n"),
             ('jsons/_load_impl.py', "    return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)", "    return loads(str_, cls, jdkwargs, *args, **kwargs)")],
      demo='''
import jsons
try:
    r = jsons.loadb(b'"\\xe9"', str, encoding='ascii')
    assert False, r
except jsons.exceptions.DeserializationError:
    pass
'''),
 dict(id='c22-skipped-index', property='C22', needs='two failing elements of a list with warn_on_fail',
      breaks='The index in the warnings does not count the elements that were skipped.',
      edits=[(D + 'default_list.py', "            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))\n        except DeserializationError as err:\n            _handle_error(index, err, warn_on_fail, fork_inst)",
              "            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))\n        except DeserializationError as err:\n            _handle_error(len(result), err, warn_on_fail, fork_inst)"),
             (D + 'default_list.py', "    for index, elem in enumerate(obj):\n        try:", "    for elem in obj:\n        try:")],
      demo='''
import warnings, jsons
from typing import List
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    assert jsons.load(['x', 1, 'y'], List[int], warn_on_fail=True) == [1]
assert 'index 0' in str(ws[0].message) and 'index 2' in str(ws[1].message), ws[1].message
'''),
 dict(id='c23-falsy-key', property='C23', needs='a dict with a key that is dumped as an empty list or object',
      breaks='Keys that are dumped as something empty are lost.',
      edits=[(D + 'default_dict.py', "            loaded_key = load(original_key, cls=key_type, **kwargs)\n", "            loaded_key = load(original_key or key, cls=key_type, **kwargs)\n")],
      demo='''
import jsons
from typing import Dict, Tuple
d = {(): 'a', (1, 2): 'b'}
assert jsons.load(jsons.dump(d), Dict[Tuple[int, ...], str]) == d
'''),
 dict(id='c24-unsuppress-all', property='C24', needs='a suppressed code and then suppress_warnings(False)',
      breaks='suppress_warnings(False) also cancels the suppression of single codes.',
      edits=[('jsons/_extra_impl.py', "    fork_inst._suppress_warnings = do_suppress\n", "    fork_inst._suppress_warnings = do_suppress\n    if not do_suppress:\n        fork_inst._suppressed_warnings = set()\n"),
             ('jsons/_extra_impl.py', "    fork_inst._suppressed_warnings |= {code}\n", "    fork_inst._suppressed_warnings = fork_inst._suppressed_warnings | {code}\n")],
      demo='''
import warnings, datetime, jsons
jsons.suppress_warning('datetime-without-tz')
jsons.suppress_warnings(False)
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    jsons.dump(datetime.datetime(2020, 1, 1))
assert not ws
'''),
 dict(id='c24-static-code', property='C24', needs='a fork on which the warning of failed attributes is suppressed (or not), unlike the global state',
      breaks='The warning about a failed attribute follows the global settings instead of those of the fork.',
      edits=[(O, "                fork_inst._warn('Failed to dump attribute", "                StateHolder._warn('Failed to dump attribute")],
      demo='''
import warnings, jsons
class Bad:
    pass
def ser(o, **_):
    raise ValueError('x')
f = jsons.fork()
jsons.set_serializer(ser, Bad, fork_inst=f)
jsons.suppress_warning('attribute-not-serialized', f)
class A:
    def __init__(self):
        self.b = Bad()
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    jsons.dump(A(), fork_inst=f)
assert not ws
'''),
 dict(id='c25-only-some-errors', property='C25', needs='a serializer that fails with an ArithmeticError, OSError or an exception class of its own, called for a value of an attribute directly',
      breaks='Only some exceptions of an attribute are tolerated in lenient mode.',
      edits=[(O, "        except Exception as err:\n            reason", "        except (SerializationError, AttributeError, TypeError, ValueError,\n                LookupError, RuntimeError) as err:\n            reason")],
      demo='''
import jsons
class Bad:
    pass
def ser(o, **_):
    raise OSError('x')
jsons.set_serializer(ser, Bad)
class A:
    def __init__(self):
        self.a = 1
        self.b = Bad()
assert jsons.dump(A()) == {'a': 1}
'''),
 dict(id='c26-comma-fraction', property='C26', needs='a string like a date-time with a comma before the fraction',
      breaks='ISO 8601 strings with a decimal comma are converted to date-times.',
      edits=[(D + 'default_datetime.py', "    if '.' in obj:\n", "    obj = obj.replace(',', '.')\n    if '.' in obj:\n"),
             (D + 'default_datetime.py', "        regex_pattern = re.compile(r'(\\.[0-9]+)')\n", "        regex_pattern = re.compile(r'([.][0-9]+)')\n")],
      demo='''
import jsons
assert jsons.load(['2020-01-01T00:00:00,5Z']) == ['2020-01-01T00:00:00,5Z']
'''),
 dict(id='c27-untyped-tuple', property='C27', needs='a custom option or fork and a plain tuple as type',
      breaks='Options do not reach the elements of a tuple without element types.',
      edits=[(D + 'default_tuple.py', "        list_ = [load(value, **kwargs) for i, value in enumerate(obj)]", "        list_ = [load(value, fork_inst=kwargs['fork_inst']) for value in obj]")],
      demo='''
import jsons
got = []
f = jsons.fork()
jsons.set_deserializer(lambda o, cls, **k: got.append(k.get('opt')), dict, fork_inst=f)
jsons.load([{}], tuple, opt=1, fork_inst=f)
assert got == [1], got
'''),
 dict(id='c28-strict-subclasses', property='C28', needs='a strict load of a source with an IntEnum member, a named tuple or another subclass of a JSON type',
      breaks='In strict mode instances of subclasses of the JSON types are accepted.',
      edits=[('jsons/_load_impl.py', "    if type(json_obj) not in VALID_TYPES:\n", "    if not isinstance(json_obj, VALID_TYPES):\n")],
      demo='''
import jsons
from enum import IntEnum
from typing import List
class E(IntEnum):
    A = 1
try:
    r = jsons.load([E.A], List[E], strict=True)
    assert False, r
except jsons.exceptions.DeserializationError:
    pass
'''),
]
