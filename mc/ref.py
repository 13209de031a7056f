"""Reference representation of values: what the documentation says a dump is, written without jsons."""
import collections
import datetime as dtm
import decimal
import enum
import pathlib
import typing
import uuid
import zoneinfo

from universe import attrs_of, NoneType

LOCAL = dtm.timezone.utc      # the checks run with TZ=UTC unless stated


def fmt_offset(off):
    s = int(off.total_seconds())
    sign = '+' if s >= 0 else '-'
    s = abs(s)
    return '%s%02d:%02d' % (sign, s // 3600, s % 3600 // 60)


def ref_datetime(d, strip_microseconds=False, local=dtm.timedelta(0)):
    r = '%04d-%02d-%02dT%02d:%02d:%02d' % (d.year, d.month, d.day, d.hour, d.minute, d.second)
    if d.microsecond and not strip_microseconds:
        r += '.%06d' % d.microsecond
    if d.tzinfo is None:
        return r + fmt_offset(local)
    return r + ('Z' if d.utcoffset() == dtm.timedelta(0) else fmt_offset(d.utcoffset()))


def entries(o, cls=None):
    """{name: (kind, value)} with kind in attr/prop/classvar; the order is not defined."""
    res = {}
    tp = type(o)
    for k, v in attrs_of(o).items():
        if not k.startswith('__'):
            res[k] = ('attr', v)
    for c in reversed(tp.__mro__):
        if c is object:
            continue
        for k, v in c.__dict__.items():
            if k.startswith('__') or k.startswith('_abc_'):
                continue
            if isinstance(v, property):
                res[k] = ('prop', getattr(o, k))
            elif k in res and res[k][0] == 'attr':
                continue
            elif isinstance(v, (type, staticmethod, classmethod)) or callable(v):
                continue
            elif type(v).__name__ in ('member_descriptor', 'getset_descriptor', 'wrapper_descriptor'):
                continue
            else:
                res[k] = ('classvar', getattr(o, k))
    import jsons
    if isinstance(o, jsons.JsonSerializable):
        own = set(attrs_of(o))
        for k in dir(jsons.JsonSerializable):
            if k in res and k not in own:
                del res[k]
    return res


def refdump(v, **o):
    """The documented dump of v under the options o (strip_*, key_transformer, use_enum_name, strip_microseconds)."""
    t = type(v)
    kt = o.get('key_transformer') or (lambda k: k)
    if isinstance(v, enum.Enum):
        return v.name if o.get('use_enum_name', True) else v.value
    if t in (int, float, str, bool, NoneType):
        return v
    if t is dtm.datetime:
        return ref_datetime(v, o.get('strip_microseconds', False))
    if t is dtm.date:
        return '%04d-%02d-%02d' % (v.year, v.month, v.day)
    if t is dtm.time:
        return '%02d:%02d:%02d' % (v.hour, v.minute, v.second) + ('.%06d' % v.microsecond if v.microsecond else '')
    if t is dtm.timedelta:
        return v.total_seconds()
    if t is dtm.timezone:
        return {'name': v.tzname(None), 'offset': v.utcoffset(None).total_seconds()}
    if t is zoneinfo.ZoneInfo:
        return {'key': v.key}
    if t in (decimal.Decimal, uuid.UUID):
        return str(v)
    if isinstance(v, pathlib.PurePath):
        return v.as_posix()
    if t is complex:
        return {'real': v.real, 'imag': v.imag}
    if isinstance(v, tuple) and hasattr(t, '_fields'):
        return {kt(f): refdump(getattr(v, f), **o) for f in t._fields}
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return [refdump(x, **o) for x in v]
    if isinstance(v, collections.abc.Mapping):
        res = {}
        for k, x in v.items():
            d = refdump(x, **o)
            if d is None and o.get('strip_nulls'):
                continue
            k = k if type(k) in (int, float, bool, NoneType) else refdump(k, **o)
            res[kt(k) if isinstance(k, str) else k] = d
        return res
    res = {}
    strip = o.get('strip_attr') or ()
    strip = (strip,) if isinstance(strip, str) else tuple(strip)
    public = hasattr(t, '__attrs_attrs__') and not o.get('strip_privates')
    for k, (kind, x) in entries(v).items():
        if o.get('strip_privates') and k.startswith('_'):
            continue
        if o.get('strip_properties') and kind == 'prop':
            continue
        if o.get('strip_class_variables') and kind == 'classvar':
            continue
        if k in strip:
            continue
        d = refdump(x, **o)
        if d is None and o.get('strip_nulls'):
            continue
        if public:
            k = k.lstrip('_')
        res[kt(k)] = d
    return res


def jsame(a, b, order=False):
    """Equal JSON with exactly equal types (True is not 1, 1 is not 1.0)."""
    if type(a) is not type(b):
        return False
    if type(a) is list:
        return len(a) == len(b) and all(jsame(x, y, order) for x, y in zip(a, b))
    if type(a) is dict:
        if len(a) != len(b):
            return False
        if order and [(type(k), k) for k in a] != [(type(k), k) for k in b]:
            return False
        kb = {(type(k), k): v for k, v in b.items()}
        return all((type(k), k) in kb and jsame(v, kb[(type(k), k)], order) for k, v in a.items())
    if type(a) is float:
        return repr(a) == repr(b)
    return a == b


def samelist_unordered(a, b):
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if jsame(x, y):
                del rest[i]
                break
        else:
            return False
    return not rest
