"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=', '.join(files[:3]))],
                               state=[dict(name=n, meaning=m) for n, m in state])))


prop('C01', 'Typed round trip: loading a dump gives back an equal value of equal types',
     'For every value x of a supported type T (primitives, datetime family, Decimal, UUID, paths, complex, enums, '
     'NewType, Optional/Union, list/set/frozenset/tuple/deque/dict/defaultdict containers, named tuples, dataclasses, '
     'attrs, slotted and plain annotated classes, in any nesting), load(dump(x), T) equals x with exactly the same types '
     'at every level. The same holds through dumps/loads and dumpb/loadb, when dumping with cls=T, and in strict mode. '
     'Values, lengths, nesting depth and neighbouring fields never influence whether an element survives.',
     ['inputs', 'configurations'],
     'all values of all type terms up to the stated nesting depth and container length x {memory, text, bytes} x {dump '
     'without cls, with cls} x {lenient, strict}',
     'The tests round-trip a few dozen hand-written values; the product of nested types, boundary values and modes is '
     'never enumerated.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/serializers', 'jsons/deserializers', 'jsons/_common_impl.py'],
     'recursive dispatch of dump/load over default (de)serializers driven by the type term')

prop('C02', 'A dump is plain JSON data with the documented representation',
     'Whatever value is dumped, the result consists solely of dict, list, str, int, float, bool and None (so json.dumps '
     'accepts it) and is the documented representation of that value: date-times as RFC3339 strings, timedelta as '
     'seconds, Decimal/UUID/paths as strings, enums by name (by value with use_enum_name=False), complex/timezone/ZoneInfo '
     'and objects as dicts, sequences and sets as lists. A dump contains every element of a container exactly once and in '
     'iteration order, with or without cls and in strict mode.',
     ['inputs', 'configurations'],
     'all values of all type terms in the bound x {no cls, cls} x {lenient, strict} x use_enum_name',
     'Tests compare single representative values; a wrong representation of a rare value or nested position is not hit.',
     ['jsons/serializers', 'jsons/_dump_impl.py', 'jsons/_datetime_impl.py'],
     'serializers compose by recursion; each one owns the representation of its type')

prop('C03', 'Arguments are never modified by dump, load, transform or the decorators',
     'No call of dump, load, transform (or their text and bytes variants, or a decorated function) modifies the object, '
     'the JSON source, the keyword arguments or the class it is given, whether the call succeeds or fails. In particular '
     'loading the same source twice gives equal results, and a loaded object shares no mutable container with the source '
     'when it is loaded as a typed container or object.',
     ['inputs', 'configurations', 'histories'],
     'all values, sources (valid and malformed) and option combinations in the bound',
     'Tests hardly ever look at their input after the call, nor reuse it.',
     ['jsons/deserializers/default_dict.py', 'jsons/deserializers/default_object.py', 'jsons/serializers/default_object.py',
      'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
     'copies made by (de)serializers before transforming keys, unpacking hashed keys, adding meta info',
     [('-keys section', 'stored original keys of a dict with hashed keys')])

prop('C04', 'The result of a call does not depend on which calls came before',
     'Between two registrations, the outcome of a dump or load (value or error) is a function of its arguments alone: it '
     'is the same as in a fresh process after any sequence of earlier calls. This includes earlier calls that failed, '
     'were interrupted in a serializer, used equal-but-different types, another fork, other options, or so many types '
     'that internal caches overflow. A class whose annotations or constructor changed counts as another argument. (The one documented exception: a class name in a -meta section that cannot be '
     'imported is found only once that class was announced or dumped.)',
     ['histories', 'inputs'],
     'all sequences of operations up to the stated depth over an alphabet of calls that touch the same internal caches',
     'Every unit test starts from whatever state the previous ones left and asserts one call; sequences are not explored.',
     ['jsons/_cache.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_compatibility_impl.py',
      'jsons/serializers/default_object.py', 'jsons/_extra_impl.py'],
     'process-wide lru cache keyed by arguments, cleared at the end of initial calls and on errors',
     [('lru cache', 'memoised lookups of (de)serializers, validators, signatures, attributes'),
      ('announced classes', 'types seen by earlier dumps')])

prop('C05', 'A registered (de)serializer applies at once and to exactly the right types',
     'After set_serializer or set_deserializer returns, every later dump/load uses that function for that class '
     '(get_serializer/get_deserializer report it as well), at any nesting depth and in any history of calls and other '
     'registrations. The most recent function registered for exactly the class wins; otherwise the most recently '
     'high-priority-registered ancestor, then low-priority ones in order of registration. Types to which the registered '
     'class is no ancestor are not affected.',
     ['histories', 'configurations'],
     'all sequences of registrations (high/low priority, single/sequence of classes) and calls up to the depth over a '
     'class hierarchy, for the global state, forks and JsonSerializable',
     'Tests register one function and call once; override order, priorities and call/registration interleaving are not '
     'enumerated.',
     ['jsons/_lizers_impl.py', 'jsons/_common_impl.py', 'jsons/_cache.py', 'jsons/classes/json_serializable.py'],
     'dispatch by fully qualified class name, then by ordered list of ancestors, behind a cache',
     [('_serializers/_deserializers', 'functions by class name'), ('_classes_*', 'ordered classes for ancestor lookup')])

prop('C06', 'Forks are isolated from their parent and from each other',
     'A fork starts with the configuration its parent has at that moment (serializers, deserializers, validators, '
     'announced classes, warning settings); afterwards no registration on one of them has any effect on calls that use '
     'another. This holds for any tree of forks, and for forks made through JsonSerializable, including classes that '
     'inherit from a fork (warnings are suppressed on a fork itself, not on a mere subclass of it).',
     ['histories', 'configurations'],
     'all sequences of fork / register / suppress / call operations up to the depth over a growing tree of forks',
     'Tests cover one fork with one serializer.',
     ['jsons/_fork_impl.py', 'jsons/_common_impl.py', 'jsons/classes/json_serializable.py', 'jsons/_validation.py',
      'jsons/_extra_impl.py'],
     'a fork is a subclass of the state holder with its own copies of the registries',
     [('StateHolder attributes', 'registries, warning flags, announced classes of one fork')])

prop('C07', 'Parallel (tasks) loading and dumping equals sequential, in every schedule',
     'Loading a list (or another iterable type) or dumping an iterable with tasks=n gives exactly the outcome of doing it '
     'sequentially - the same elements in the same order, the same error for the first failing index, the same skipped '
     'elements and warnings with warn_on_fail - for every number of tasks, length, placement of failing elements, task '
     'type (Thread, Process) and every interleaving of the tasks.',
     ['schedules', 'inputs', 'configurations'],
     'lengths x tasks x failure subsets x task types x all interleavings up to the preemption bound',
     'The tests run a handful of lists on whatever schedule the OS picks and never with a failing element.',
     ['jsons/_multitasking.py', 'jsons/deserializers/default_list.py', 'jsons/serializers/default_iterable.py',
      'jsons/exceptions.py'],
     'the list is divided in slices, each filled by a task into a shared result list',
     [('list_to_fill', 'shared result list')])

prop('C08', 'Concurrent calls from several threads behave as some sequential order',
     'dump, load and registrations issued concurrently by several threads each return what they would return in some '
     'sequential order of the calls that is consistent with real time: loads and dumps never fail or mix up results '
     'because of another thread, and a registration that has returned is visible to every call that starts later. (A '
     'registration that runs at the same time as a dump or load may take effect between two of its nested values.)',
     ['schedules', 'histories'],
     'all interleavings up to the preemption bound of two or three threads running calls that share caches and registries',
     'The test suite is single-threaded.',
     ['jsons/_cache.py', 'jsons/_lizers_impl.py', 'jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/_validation.py'],
     'process-wide registries and caches without locks; relies on atomicity of single dict/list operations',
     [('lru cache', 'shared, cleared by any thread'), ('_classes_* lists and name dicts', 'updated by registrations')])

prop('C09', 'load either returns a value or raises a JsonsError, for any JSON input',
     'For every JSON value, text or byte string and every supported type, load/loads/loadb terminates and either returns '
     'or raises an exception that is a JsonsError (DecodeError for malformed text; DeserializationError carrying the '
     'source and target for a mismatch). It never raises anything else, and a failed call leaves the library usable.',
     ['inputs', 'configurations'],
     'all JSON values up to the stated size (including reserved -meta/-keys sections) x all type terms x strict x text/bytes',
     'Error tests exist for a few type/value pairs; the cross product of types and mismatching JSON is not covered.',
     ['jsons/_load_impl.py', 'jsons/exceptions.py', 'jsons/deserializers', 'jsons/_common_impl.py'],
     'exceptions of deserializers are wrapped; decoding errors are mapped')

prop('C10', 'A successful load returns a value that conforms to the requested type',
     'Whenever load(j, T) returns normally, for any JSON value j, the result conforms to T at every level: it is an '
     'instance of T, its elements, keys, values and annotated constructor fields conform to their types, and None only '
     'occurs where the type allows it. JSON values that match T in kind are accepted; values that cannot be converted are '
     'rejected. (Sources with a -meta section are excluded: the classes it names take precedence.)',
     ['inputs', 'configurations'],
     'all JSON values up to the stated size x all type terms x {lenient, strict}',
     'Tests check the type of a handful of results; nothing looks for silent acceptance of mismatching input.',
     ['jsons/deserializers', 'jsons/_load_impl.py', 'jsons/_common_impl.py'],
     'type-directed recursion with casts for primitives and None checks')

prop('C11', 'Strict loading rejects unknown keys at every level and otherwise agrees',
     'With strict=True a load fails with a SignatureMismatchError (possibly wrapped) as soon as any object anywhere in '
     'the source has a key that its class does not accept, however deep it is nested in objects, lists, tuples, dicts, '
     'Optionals or Unions (in a Union that key makes the member fail, and if no other member accepts the source the load '
     'fails with the error that no member matches); already deserialized values are rejected too. When a strict load '
     'succeeds, the lenient load of the same source gives an equal result (except in a Union of which an earlier member '
     'accepts the source only leniently). Classes with **kwargs in their constructor are excluded.',
     ['inputs', 'configurations'],
     'all type terms with objects x every position of an extra key x strict/lenient',
     'One or two tests use strict on a flat object.',
     ['jsons/deserializers/default_object.py', 'jsons/_load_impl.py', 'jsons/deserializers/default_list.py',
      'jsons/deserializers/default_tuple.py', 'jsons/deserializers/default_dict.py'],
     'the strict flag travels through the keyword arguments of every nested load')

prop('C12', 'A Union is tried from left to right and the first match wins',
     'Loading into Union[A, B, ...] (also Optional, nested in containers or fields) gives exactly the result of loading '
     'into the first member that accepts the source, and fails only if every member rejects it. None is accepted exactly '
     'if the Union contains None. Dumping a value (not None) with a Union as cls gives the dump with one of its members: '
     'that of exactly the class of the value if there is one, else the first that the value is an instance of, else the '
     'first that accepts it. Different orders of the same members are honoured within one process.',
     ['inputs', 'configurations', 'programs'],
     'all ordered selections of up to three members from the alphabet x all sources x positions',
     'Tests cover a few fixed unions.',
     ['jsons/deserializers/default_union.py', 'jsons/serializers/default_union.py', 'jsons/_compatibility_impl.py',
      'jsons/_common_impl.py'],
     'try members in order, swallowing jsons errors')

prop('C13', 'A verbose dump describes itself: it can be loaded without knowing the types',
     'An object dumped with verbose class information is restored by load without cls to an equal object of the original '
     'classes, at any depth, through text as well; the class information also takes precedence over element and field '
     'types that are less specific (an explicit cls of the whole takes precedence over its own -meta section). Verbosity '
     'only adds -meta sections: stripping them gives the plain dump, and all verbosity levels load with an explicit cls. '
     '(Untyped dicts and lists are restored as far as JSON values and objects in them go.)',
     ['inputs', 'configurations'],
     'object graphs of importable and announced classes up to the depth x verbosity levels x {memory, text}',
     'Tests cover three small object graphs.',
     ['jsons/serializers/default_object.py', 'jsons/_common_impl.py', 'jsons/_load_impl.py',
      'jsons/deserializers/default_object.py', 'jsons/classes/verbosity.py', 'jsons/_extra_impl.py'],
     'class names are collected in a -meta section and take precedence over inferred types on load')

prop('C14', 'Constructor arguments are resolved from source, getter, default, then None',
     'When an object is loaded, each constructor parameter gets the loaded source value if the key is present (whatever '
     'the value), else the result of its attr_getter, else its default, else None if the type allows None, else the load '
     'fails with an UnfulfilledArgumentError naming the parameter. Remaining keys become attributes in lenient mode '
     '(except names like __class__ that are internal to Python). The order of keys in the source is irrelevant.',
     ['inputs', 'programs', 'configurations'],
     'all constructor signatures up to three parameters over the parameter kinds x all subsets and orders of keys x getters',
     'Tests instantiate some of the combinations with one value each.',
     ['jsons/deserializers/default_object.py', 'jsons/deserializers/default_tuple.py'],
     'signature inspection and precedence rules')

prop('C15', 'Strip options remove exactly what they name, at every depth',
     'Dumping with any combination of strip_nulls, strip_privates, strip_properties, strip_class_variables and strip_attr '
     'gives the plain dump minus exactly the entries of that kind - on every object at every depth, in lists, tuples, '
     'dicts and attributes - and nothing else; strip_nulls removes null entries of objects and dicts but no list elements '
     '(named tuples keep all their fields).',
     ['inputs', 'configurations'],
     'all option subsets x object shapes mixing every attribute kind x nesting positions',
     'Each option has a test on a flat object; combinations and nested positions do not.',
     ['jsons/serializers/default_object.py', 'jsons/serializers/default_dict.py', 'jsons/serializers/default_list.py',
      'jsons/serializers/default_iterable.py'],
     'attribute filtering, with options passed on through keyword arguments')

prop('C16', 'Key transformers rename keys consistently and reversibly',
     'Dumping with a key transformer applies exactly that function to every attribute name and string key at every depth '
     'and changes nothing else; loading with the inverse transformer restores an equal object. For names of lower-case '
     'words (of at least two letters) the case transformers camelcase/snakecase/pascalcase/lispcase are idempotent, agree '
     'on the words of a name, and give the same result from any other style; they accept any string.',
     ['inputs', 'configurations'],
     'all names of up to four words over the alphabet x transformers x object shapes and positions',
     'Tests transform a few fixed names.',
     ['jsons/_key_transformers.py', 'jsons/serializers/default_object.py', 'jsons/deserializers/default_object.py',
      'jsons/serializers/default_dict.py', 'jsons/deserializers/default_dict.py', 'jsons/deserializers/default_tuple.py'],
     'regex/word based renaming, passed on through keyword arguments')

prop('C17', 'Dates, times and offsets keep the exact instant and use RFC3339',
     'Every datetime dumps to an RFC3339 string with a four-digit year and the correct offset (Z for UTC; the local '
     'offset at that moment if there is no tzinfo) that denotes the same instant to the microsecond, and loading that '
     'string gives the same instant and offset. Dates, times (without tzinfo) and timedeltas (below 2**33 seconds) keep '
     'their exact value. Every RFC3339 '
     'date-time (any offset in whole minutes, any number of fraction digits) is loaded to the instant it denotes, '
     'independently of the TZ of the process.',
     ['inputs', 'configurations'],
     'all whole-minute offsets, all fraction lengths, boundary years/months/times, zones with DST, process time zones',
     'Tests use a few offsets, all in the test machine\'s time zone.',
     ['jsons/_datetime_impl.py', 'jsons/serializers/default_datetime.py', 'jsons/deserializers/default_datetime.py',
      'jsons/serializers/default_date.py', 'jsons/serializers/default_time.py', 'jsons/deserializers/default_time.py',
      'jsons/serializers/default_timedelta.py'],
     'hand-written offset arithmetic and strptime patterns')

prop('C18', 'A validator guards its type at every position a value can be loaded',
     'A value of a type with a registered validator only appears in the result of a load if the validator accepted it: a '
     'rejecting (false or raising) validator makes the load fail with a ValidationError (with the message of the raised '
     'exception), wherever the value sits and whether it was converted or passed through (within a Union a rejection means '
     'that the member does not match). Values accepted by the '
     'validators load exactly as without them, and validators of unrelated types are never consulted.',
     ['inputs', 'histories', 'configurations'],
     'validated types x positions (root, field, list, dict key/value, tuple, Optional, Union) x verdicts x strict x forks',
     'Tests validate flat objects.',
     ['jsons/_validation.py', 'jsons/_load_impl.py', 'jsons/deserializers/default_union.py'],
     'validate is called by load on every result and on skipped values',
     [('_validators', 'validator functions by class name')])

prop('C19', 'A strict dump as a class contains exactly what that class declares',
     'dump(obj, cls=C, strict=True) of an instance of C or a subclass contains exactly the attributes declared by C: its '
     'own slots if it has them, else its annotations (including inherited ones), attrs attributes and constructor hints, '
     'and in any case its inherited slots, properties and class variables, subject to the strip options. Annotated '
     'attributes (without a class-level default) are dumped as their declared type; nothing that a subclass or the '
     'instance adds is contained - also for elements of containers of C and for attributes typed with C.',
     ['inputs', 'programs', 'configurations'],
     'class hierarchies of declaration styles x subclass instances x positions x strip options',
     'A few tests cover slots and one base class.',
     ['jsons/serializers/default_object.py', 'jsons/serializers/default_list.py', 'jsons/serializers/default_iterable.py'],
     'attributes are collected from the class instead of the object')

prop('C20', 'Decorated functions behave like mapping arguments and result by hand',
     'Calling a function decorated with loaded or dumped equals calling the function with every argument (positional, '
     'keyword, *args, **kwargs) mapped by the loader/dumper with its annotation and then mapping the result by the return '
     'annotation, for sync and async functions and methods (self/cls untouched). parameters=False or returnvalue=False '
     'leaves that side untouched, and the extra options and fork given to the decorator are used for every mapping. '
     'Decorators can be stacked; decorating a class or a static- or classmethod object, or with a mapper that is none of '
     'the load/dump functions, raises an InvalidDecorationError.',
     ['inputs', 'programs', 'configurations'],
     'signatures x ways of passing x decorator options x sync/async/method kinds',
     'Tests decorate a handful of functions with positional arguments.',
     ['jsons/decorators.py'], 'signature driven mapping of arguments and return value')

prop('C21', 'All entry points agree with dump and load',
     'dumps/dumpb equal json-encoding the result of dump with the same options, loads/loadb equal load of the decoded '
     'JSON, JsonSerializable\'s json/dump/dumps/dumpb/str and from_json/load/loads/loadb equal the functions with that '
     'class and its fork, with_dump adds its options to dump and json, with_load to load and from_json (and they win over the same options of '
     'a call), and transform '
     'equals dump, mapper, load. Encoding and jdkwargs are honoured, and an error of one is an error of the other.',
     ['inputs', 'configurations'],
     'values and sources of the bound x entry points x options x encodings',
     'Every entry point has a few tests, not their equivalence on the same inputs.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/_transform_impl.py', 'jsons/classes/json_serializable.py'],
     'thin wrappers around dump/load that must pass on every argument')

prop('C22', 'Failing list elements are reported by index, or skipped with a warning',
     'If elements of a list cannot be deserialized, load raises a DeserializationError that names the index of the first '
     'failing element (the path of indices for nested lists; a ValidationError is raised as it is, also with warn_on_fail); with '
     'warn_on_fail=True exactly the failing elements of the outermost list are left out, the others keep their order and '
     'value, and one warning per failing element names its index.',
     ['inputs', 'configurations'],
     'all subsets of failing positions for lists up to the length bound, nested, of several element types and list-like types',
     'One test with a single failing element.',
     ['jsons/deserializers/default_list.py', 'jsons/deserializers/default_iterable.py', 'jsons/_common_impl.py'],
     'per-element try/except around load')

prop('C23', 'Dicts with keys of any hashable type survive a round trip',
     'A dict whose keys are of any supported hashable type - JSON primitives, types with a string representation, or '
     'tuples/named tuples/dataclasses that need a stored-keys section - is restored exactly by loading with Dict[K, V], in '
     'memory and through text (text has no keys of type bool, None or timedelta, and no different keys with the same '
     'text), even if keys have equal hashes, are mixed with primitive keys, or the dicts are nested in each other, in '
     'lists or in objects.',
     ['inputs', 'configurations'],
     'all subsets of key alphabets up to the size bound x value types x positions x transports x options',
     'Two tests with one entry each.',
     ['jsons/serializers/default_dict.py', 'jsons/deserializers/default_dict.py', 'jsons/deserializers/default_object.py'],
     'non-JSON keys are replaced by their hash and stored in -keys',
     [('-keys section', 'maps hash to the dumped key')])

prop('C24', 'Warnings are given exactly when not suppressed for that code and fork',
     'A condition that warns (naive datetime, skipped element, ignored attribute, hashed keys without hint) warns exactly '
     'if neither suppress_warnings nor suppress_warning of that very code is in effect for the fork in use; suppressing '
     'never changes the result of the call, and un-suppressing restores the warnings. Forks take over the settings that '
     'their parent has when they are made.',
     ['histories', 'configurations'],
     'all sequences of suppress/unsuppress/fork/trigger operations up to the depth',
     'Tests cover one toggle of one warning.',
     ['jsons/_common_impl.py', 'jsons/_extra_impl.py', 'jsons/_fork_impl.py', 'jsons/_datetime_impl.py',
      'jsons/deserializers/default_list.py', 'jsons/serializers/default_object.py'],
     'a warn function that consults the flags of the fork',
     [('_suppress_warnings/_suppressed_warnings', 'flag and set of codes per fork')])

prop('C25', 'One failing attribute costs only that attribute, or the whole strict dump',
     'In lenient mode an attribute whose value cannot be serialized is left out with a warning naming it and its class, and '
     'every other attribute of that object and of all surrounding objects is dumped as usual; in strict mode the dump '
     'raises a SerializationError with the reason (containers are no objects: the failure of an element is that of the '
     'attribute that holds the container; and a property that cannot even be read makes the dump fail). dump never raises '
     'anything but a JsonsError.',
     ['inputs', 'configurations'],
     'all subsets of failing attributes of objects up to the size bound x nesting positions x exception kinds x strict',
     'No test has an object with a failing attribute and siblings.',
     ['jsons/serializers/default_object.py', 'jsons/_dump_impl.py', 'jsons/exceptions.py'],
     'per-attribute try/except that warns or raises')

prop('C26', 'Untyped loading preserves structure and only converts RFC3339 date-times',
     'load without a type returns the same structure of dicts, lists and primitives as the source, with every string that '
     'is a complete RFC3339 date-time replaced by that datetime and every other value unchanged in type and value, at any '
     'depth; keys are never changed. (Strings that only differ from RFC3339 in missing leading zeros or the case of the '
     'letters may be converted as well; the reserved keys -meta and -keys are excluded.) dump of the result gives the '
     'source back up to date-time normalisation.',
     ['inputs'],
     'all JSON values up to the size bound over an alphabet of strings at edit distance one from RFC3339 date-times',
     'Tests load a few dicts.',
     ['jsons/deserializers/default_string.py', 'jsons/deserializers/default_dict.py', 'jsons/deserializers/default_list.py',
      'jsons/_load_impl.py', 'jsons/deserializers/default_datetime.py'],
     'types are inferred from the JSON value; strings are tried as datetime first')

prop('C27', 'Options given to dump or load reach every nested (de)serializer',
     'Any keyword argument given to dump or load, the built-in options (strict, key_transformer, use_enum_name, '
     'strip_microseconds, fork_inst, ...) and custom ones alike, is received with the same value by every (de)serializer '
     'that is called for a nested value, through every kind of container, object, named tuple, Union and Optional, and '
     'does not leak into other calls. (Excluded are the options of the outermost list or object only: tasks, task_type, '
     'warn_on_fail, attr_getters.)',
     ['inputs', 'configurations'],
     'all chains of containers up to the depth x options x dump/load',
     'Tests check single options on flat values.',
     ['jsons/serializers', 'jsons/deserializers', 'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
     'keyword arguments are handed down by every recursive call')

prop('C28', 'Already deserialized values in a source are accepted unchanged in lenient mode',
     'In lenient mode a source may contain values that already have exactly the requested type, at any position: they '
     'are taken over as they are (after validation), and the rest is loaded as usual, so that load gives the same result '
     'as for the fully serialized source. In strict mode a source with values that are no JSON (objects, date-times, '
     'enum members, ...) is rejected with a DeserializationError. (A Union or Optional is not the class of any value; '
     'Any accepts everything.)',
     ['inputs', 'configurations'],
     'all type terms in the bound x every subset of positions that is left deserialized x strict/lenient',
     'Tests load one partially deserialized object.',
     ['jsons/_load_impl.py', 'jsons/deserializers'],
     'load returns its input if its type is exactly the requested class')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
