O = 'jsons/serializers/default_object.py'
S = 'jsons/serializers/'
D = 'jsons/deserializers/'
SEEDS = [
 dict(id='c13-explicit-cls', property='C13', needs='a verbose dump of a subclass that is loaded with an explicit base class',
      breaks='The -meta section of the source wins over the class that is asked for.',
      edits=[('jsons/_common_impl.py', "    if inferred_cls:\n", "    if inferred_cls or cls_from_meta:\n")],
      demo='''
import sys
import types
import jsons
m = types.ModuleType('shapes')
sys.modules['shapes'] = m
exec("""
class Base:
    def __init__(self, x: int):
        self.x = x
class Sub(Base):
    def __init__(self, x: int, y: int):
        super().__init__(x)
        self.y = y
""", m.__dict__)
j = jsons.dump(m.Sub(1, 2), verbose=True)
assert type(jsons.load(j)) is m.Sub
assert type(jsons.load([j], __import__('typing').List[m.Base])[0]) is m.Sub
assert type(jsons.load(j, m.Base)) is m.Base
'''),
 dict(id='c13-announced-module', property='C13', needs='an announced class name whose module cannot be imported, nested or at the root',
      breaks='An announced class is only found if its module can be imported.',
      edits=[('jsons/_common_impl.py', "    except (ImportError, AttributeError, ValueError):\n", "    except (AttributeError, ValueError):\n")],
      demo='''
import jsons
class A:
    def __init__(self, x: int):
        self.x = x
jsons.announce_class(A, cls_name='old.package.A')
a = jsons.load({'x': 1, '-meta': {'classes': {'/': 'old.package.A'}}})
assert type(a) is A and a.x == 1
'''),
 dict(id='c27-any-options', property='C27', needs='an option given to a strict dump of an object with an attribute of type Any that holds a value the option matters to',
      breaks='Options do not reach what is dumped as Any.',
      edits=[(S + 'default_any.py', "    return dump(obj, **kwargs)\n", "    return dump(obj, fork_inst=kwargs.get('fork_inst', StateHolder),\n                strict=kwargs.get('strict', False))\n"),
             (S + 'default_any.py', "from jsons._dump_impl import dump\n", "from jsons._common_impl import StateHolder\nfrom jsons._dump_impl import dump\n")],
      demo='''
from enum import Enum
from typing import Any, List
import jsons
class E(Enum):
    A = 1
assert jsons.dump([E.A], List[Any], use_enum_name=False) == [1]
'''),
 dict(id='c07-task-options', property='C07', needs='a dump of a tuple, set or deque with tasks > 1 and a callable option (key transformer, fork)',
      breaks='The tasks of a parallel dump do not get the options that are callables.',
      edits=[(S + 'default_iterable.py', "    kwargs_ = {**kwargs}\n    kwargs_['tasks'] = 1\n", "    kwargs_ = {key: kwargs[key] for key in kwargs if not callable(kwargs[key])}\n    kwargs_['tasks'] = 1\n")],
      demo='''
import jsons
class A:
    def __init__(self):
        self.some_name = 1
kw = dict(key_transformer=jsons.KEY_TRANSFORMER_CAMELCASE)
v = (A(), A(), A())
assert jsons.dump(v, tasks=2, **kw) == jsons.dump(v, **kw) == [{'someName': 1}] * 3
'''),
]
