SEEDS = [
 dict(id='c01-timedelta-micro', property='C01', needs='a timedelta with a fraction below one millisecond, in any position',
      breaks='Loading rounds a timedelta to milliseconds, so load(dump(x)) differs from x.',
      edits=[('jsons/deserializers/default_timedelta.py', 'return timedelta(seconds=obj)', 'return timedelta(milliseconds=round(obj * 1000))')],
      demo='''
from datetime import timedelta
from typing import List
import jsons
v = [timedelta(seconds=1), timedelta(microseconds=1500), timedelta(days=-3, microseconds=1)]
assert jsons.load(jsons.dump(v), List[timedelta]) == v
'''),
 dict(id='c01-defaultdict-factory', property='C01', needs='a DefaultDict whose value type is a container, and an empty dict of it',
      breaks='An empty DefaultDict[K, V] is loaded without its default factory.',
      edits=[('jsons/deserializers/default_defaultdict.py', '    return defaultdict(default_factory, loaded)',
              '    return defaultdict(default_factory if loaded else None, loaded)')],
      demo='''
from collections import defaultdict
from typing import DefaultDict, List
import jsons
d = defaultdict(int)
r = jsons.load(jsons.dump(d), DefaultDict[str, int])
assert r.default_factory is int, r
r['x'] += 1
'''),
 dict(id='c03-attr-getters-popped', property='C03', needs='attr_getters that are used for a second load',
      breaks='The getters that were used are removed from the dict of the caller.',
      edits=[('jsons/deserializers/default_object.py', "    attr_getters = dict(**(attr_getters or {}))\n", "    attr_getters = attr_getters or {}\n")],
      demo='''
import jsons
class A:
    def __init__(self, a: int):
        self.a = a
g = {'a': lambda: 5}
assert jsons.load({}, A, attr_getters=g).a == 5
assert list(g) == ['a'], g
'''),
 dict(id='c05-sequence-prio', property='C05', needs='a low priority registration for a sequence of classes where another ancestor is registered',
      breaks='high_prio is not passed on when a sequence of classes is registered.',
      edits=[('jsons/_lizers_impl.py', "            set_serializer(func, cls_, high_prio, fork_inst)", "            set_serializer(func, cls_, fork_inst=fork_inst)")],
      demo='''
import jsons
class A: pass
class B(A): pass
class C(B): pass
jsons.set_serializer(lambda o, **_: 'B', B)
jsons.set_serializer(lambda o, **_: 'A', (A,), high_prio=False)
assert jsons.dump(C()) == 'B'
'''),
 dict(id='c06-grandfork-warnings', property='C06', needs='a fork of a fork on which warnings were suppressed',
      breaks='A fork starts with the warning setting of the root instead of that of its parent.',
      edits=[('jsons/_fork_impl.py', "    result._suppress_warnings = fork_inst._suppress_warnings\n", "    result._suppress_warnings = StateHolder._suppress_warnings\n")],
      demo='''
import datetime, warnings
import jsons
f = jsons.fork()
jsons.suppress_warnings(True, f)
g = jsons.fork(f)
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    jsons.dump(datetime.datetime(2020, 1, 2), fork_inst=g)
assert not ws
'''),
 dict(id='c06-validator-list', property='C06', needs='a validator registered on a fork for a sequence of classes',
      breaks='A validator that is set on a fork for several classes at once ends up in the default state instead.',
      edits=[('jsons/_validation.py', "            set_validator(func, cls=cls_, fork_inst=fork_inst)\n", "            set_validator(func, cls_)\n")],
      demo='''
import jsons
f = jsons.fork()
jsons.set_validator(lambda x: x > 0, [int, float], fork_inst=f)
assert jsons.load(-1, int) == -1
'''),
 dict(id='c07-rest-lost', property='C07', needs='a length that is no multiple of the number of tasks and more than one rest element',
      breaks='Only one of the elements that are left over after dividing the list is given to a task.',
      edits=[('jsons/_multitasking.py', "            end += rest_size\n", "            end += min(rest_size, 1)\n")],
      demo='''
from threading import Thread
from typing import List
import jsons
assert jsons.load(['1'] * 5, List[int], tasks=3, task_type=Thread) == [1] * 5
'''),
 dict(id='c08-shared-scratch', property='C08', needs='two threads that dump complex numbers, one interrupted between writing and reading the scratch dict',
      breaks='Parts of complex numbers that are dumped by different threads at the same time get mixed up.',
      edits=[('jsons/serializers/default_complex.py', """    return {'real': obj.real, 'imag': obj.imag}
""", """    _parts['real'] = obj.real
    _parts['imag'] = obj.imag
    return dict(_parts)


_parts = {}
""")],
      demo='''
import threading, jsons
# stop thread 1 right after it stored its real part
hit, go = threading.Event(), threading.Event()
class Slow(complex):
    @property
    def imag(self):
        hit.set(); go.wait(5)
        return 2.0
d = jsons.default_complex_serializer
res = []
t = threading.Thread(target=lambda: res.append(d(Slow(1, 2))))
t.start(); hit.wait(5)
other = jsons.dump(7 + 8j)
go.set(); t.join()
assert other == {'real': 7.0, 'imag': 8.0} and res == [{'real': 1.0, 'imag': 2.0}], (other, res)
'''),

 dict(id='c02-decimal-normalized', property='C02', needs='a Decimal with trailing zeros',
      breaks='The dump of a Decimal is not its string form: trailing zeros are lost.',
      edits=[('jsons/serializers/default_decimal.py', 'return str(obj)', 'return str(obj.normalize())')],
      demo="""
from decimal import Decimal
import jsons
assert jsons.dump([Decimal('1.10')]) == ['1.10']
"""),
 dict(id='c02-set-elements', property='C02', needs='a set with elements of different types that have the same representation',
      breaks='A set is dumped without the elements whose representation equals that of an earlier one.',
      edits=[('jsons/serializers/default_iterable.py', """        result = [dump(elem, cls=subclasses[i], **kwargs_)
                  for i, elem in enumerate(obj)]
""", """        unique = isinstance(obj, (set, frozenset))
        result = []
        for i, elem in enumerate(obj):
            dumped = dump(elem, cls=subclasses[i], **kwargs_)
            if not unique or dumped not in result:
                result.append(dumped)
""")],
      demo="""
import datetime, jsons
d = datetime.date(2020, 1, 2)
assert sorted(jsons.dump({d, '2020-01-02'})) == ['2020-01-02', '2020-01-02']
"""),
 dict(id='c04-decimal-cache', property='C04', needs='dumping two equal Decimals with another exponent, one after the other',
      breaks='The text of a Decimal is remembered by the value, equal Decimals may have different texts.',
      edits=[('jsons/serializers/default_decimal.py', "    return str(obj)\n", "    return _to_text(obj)\n"),
             ('jsons/serializers/default_decimal.py', "from decimal import Decimal\n", "from decimal import Decimal\nfrom functools import lru_cache\n\n_to_text = lru_cache(maxsize=256)(str)\n")],
      demo="""
import jsons
from decimal import Decimal
assert jsons.dump([Decimal('1.0')]) == ['1.0']
assert jsons.dump([Decimal('1.00')]) == ['1.00']
"""),
 dict(id='c04-failed-getter', property='C04', needs='a load that fails and a later load of the same class that relies on the failed attribute being required',
      breaks='The default of a missing attribute is remembered per class from an earlier call.',
      edits=[('jsons/deserializers/default_object.py', "        attr_getter = attr_getters.pop(sig_key)\n        result = sig_key, attr_getter()\n", "        attr_getter = attr_getters.pop(sig_key)\n        result = sig_key, attr_getter()\n        _known_getters[(orig_cls, sig_key)] = attr_getter\n"),
             ('jsons/deserializers/default_object.py', """    elif can_match_with_none(cls):
        # It is fine that there is no value.
        result = sig_key, None
""", """    elif can_match_with_none(cls) or (orig_cls, sig_key) in _known_getters:
        # It is fine that there is no value.
        getter = _known_getters.get((orig_cls, sig_key))
        result = sig_key, getter and getter()
"""),
             ('jsons/deserializers/default_object.py', "def _get_value_for_attr(", "_known_getters = {}\n\n\ndef _get_value_for_attr(")],
      demo="""
import jsons
class A:
    def __init__(self, a: int):
        self.a = a
jsons.load({}, A, attr_getters={'a': lambda: 5})
try:
    jsons.load({}, A)
    raise SystemExit(1)
except jsons.UnfulfilledArgumentError:
    pass
"""),
 dict(id='c07-work-queue', property='C07', needs='two threads that both take the next index between the increment and the read',
      breaks='Elements are handed out through an unsynchronised counter; an index can be skipped.',
      edits=[('jsons/_multitasking.py', "            args=(func, list_to_fill, obj, start, end, tasks_left, args, kwargs))\n", "            args=(func, list_to_fill, obj, progress, len(obj), tasks_left, args,\n                  kwargs))\n"),
             ('jsons/_multitasking.py', "    tasks_instances = []\n    tasks_used", "    tasks_instances = []\n    progress = {'taken': 0}\n    tasks_used"),
             ('jsons/_multitasking.py', "        start: int,\n        end: int,\n", "        progress: dict,\n        end: int,\n"),
             ('jsons/_multitasking.py', "    for i_ in range(start, end):\n", "    while progress['taken'] < end:\n        progress['taken'] += 1\n        i_ = progress['taken'] - 1\n")],
      demo="""
import sys, threading
import jsons
from typing import List
sys.setswitchinterval(1e-6)
# hold one thread at the moment it took an index until another one has taken the next
import jsons._multitasking as mt
from threading import Thread
turn = threading.Semaphore(0)
state = {'held': False}
def tracer(frame, event, arg):
    if frame.f_code.co_name != '_fill':
        return None
    seen = []
    def local(frame, event, arg):
        if event == 'line' and 'progress' in frame.f_locals:
            n = frame.f_locals['progress']['taken']
            if n == 1 and not state['held']:
                state['held'] = True
                turn.acquire(timeout=2)      # let the other thread run to its end
        return local
    return local
class T(Thread):
    def start(self):
        Thread.start(self)
    def run(self):
        sys.settrace(tracer)
        Thread.run(self)
        turn.release()
assert jsons.load(['1', '2', '3', '4'], List[int], tasks=2, task_type=T) == [1, 2, 3, 4]
"""),
]
