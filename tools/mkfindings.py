"""Writes the fixed: lines of KNOWN_FINDINGS.jsonl from the fix commits in /repo; findings are kept from FINDINGS below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
 'Union member order': None,
}
MAP = [
 ('try the members of a Union in the order', 'C12', 'Union[int, str] and Union[str, int] shared one cache entry, so the order of whichever was seen first was used for both'),
 ('do not remove the stored keys', 'C03', 'load of a dict with a -keys section removed that section from the source'),
 ('keep every entry of a dict that has hashed keys', 'C23', 'keys with equal hashes overwrote each other; strip_nulls and key_transformer broke the -keys section'),
 ('dump the minutes of a negative offset', 'C17', 'offsets such as -03:30 were dumped as -04:30'),
 ('dump years before 1000', 'C17', 'years below 1000 were dumped without zero padding and could not be loaded'),
 ('dump a datetime without tzinfo with the local offset', 'C17', 'a naive datetime was dumped with the present offset of the zone instead of the one at that moment'),
 ('load a time with microseconds', 'C17', 'a time with microseconds was dumped in a form that could not be loaded'),
 ('load objects with a -meta section', 'C13', 'a -meta section without classes or with malformed content raised AttributeError/TypeError'),
 ('raise a DeserializationError if bytes', 'C09', 'undecodable bytes, too deep or too long numbers raised raw exceptions from loads/loadb'),
 ('give a fork its own validators', 'C06', 'validators and announced classes were shared between forks'),
 ('let (de)serializers, validators and announcements', 'C05', 'a registration made during or after a call was ignored as long as the cache held the old function'),
 ('dump attributes that share a name', 'C01', 'attributes named like a JsonSerializable attribute were left out of the dump'),
 ('use an attr_getter only for', 'C14', 'an attr_getter overwrote an attribute that had a value in the source'),
 ('only ignore the attribute that failed', 'C25', 'a failing attribute dropped all attributes after it'),
 ('pass the key_transformer to the elements of a tuple', 'C16', 'key_transformer was not applied inside tuples; a tuple of the wrong length was accepted'),
 ('let the decorators map keyword arguments', 'C20', 'keyword arguments, *args and **kwargs were not mapped or mapped with the wrong annotation'),
 ('let JsonSerializable.with_dump use', 'C21', 'with_dump ignored the serializers of its own fork'),
 ('do not cast elements to the type of the first', 'C02', 'a strict dump of a heterogeneous list cast every element to the type of the first one'),
 ('report the failures of tasks', 'C07', 'failures in tasks were lost: elements came back as None/0, an empty list failed, options were not passed on'),
 ('load a NewType of a primitive', 'C01', 'a NewType of a primitive could not be loaded when the value had to be converted'),
 ('load named tuples with missing keys', 'C14', 'a named tuple with a missing key failed with KeyError, defaults were deserialized, allowed None was refused'),
 ('dump a timezone when its type is known', 'C01', 'dumping a timezone with cls failed'),
]
FINDINGS = json.load(open(os.path.join(here, 'tools', 'findings.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
extra = json.load(open(os.path.join(here, 'tools', 'fixed_extra.json')))
for l in reversed(log):
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    hit = [m for m in MAP + [tuple(e) for e in extra] if m[0] in s]
    assert len(hit) == 1, (s, hit)
    out.append('fixed: property=%s %s %s' % (hit[0][1], h, hit[0][2]))
for f in FINDINGS:
    out.append(json.dumps(dict(kind='finding', **f)))
open(os.path.join(here, 'KNOWN_FINDINGS.jsonl'), 'w').write('\n'.join(out) + '\n')
print(len(out))
