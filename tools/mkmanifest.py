"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('explicit enumeration of all type terms, values, lengths and modes in the bound, executed on the real code', 'round trip compared with a type-strict structural equality'),
 'C02': ('explicit enumeration of all type terms and values in the bound against a reference representation relation', 'every dump compared with the documented representation computed independently of jsons'),
 'C03': ('enumeration of all calls in the bound with type-exact snapshots of every argument before and after', 'snapshot comparison; argument kinds outside the alphabet are not covered'),
 'C04': ('fork-tree depth-first search over all operation histories up to the depth, each call compared with a fresh process', 'differential oracle: outcome in a fresh process'),
 'C05': ('fork-tree depth-first search over all registration/call histories against an executable registry model', 'a boring dictionary/list model of the registry is the oracle, compared after every step'),
 'C06': ('fork-tree depth-first search over all histories of fork, register, suppress and call operations against a copy-on-fork model', 'model of isolated registries is the oracle'),
 'C07': ('stateless model checking of the real code under a controlled scheduler, all interleavings up to the preemption bound, plus enumeration of sizes, tasks and failures', 'sequential execution is the oracle; line-level scheduling points'),
 'C08': ('stateless model checking of the real code under a controlled scheduler, all interleavings up to the preemption bound', 'linearizability: outcome vector must be one of the real-time consistent sequential ones; line-level scheduling points'),
 'C09': ('enumeration of all JSON values up to the size bound against all type terms', 'outcome must be a value or a JsonsError'),
 'C10': ('enumeration of all JSON values up to the size bound against all type terms with an independent conformance relation', 'result must conform; matching and unconvertible values are classified by the reference relation'),
 'C11': ('enumeration of every position of an extra key in every type term, strict against lenient', 'reference: position of the injected key'),
 'C12': ('enumeration of all ordered unions of up to three members, sources and positions', 'differential oracle: first member that loads on its own'),
 'C13': ('enumeration of object graphs, verbosity levels and transports', 'round trip without type and equality after removing meta sections'),
 'C14': ('enumeration of all constructor signatures up to three parameters, key subsets, orders and getters against a reference resolution', 'reference resolution of parameters'),
 'C15': ('enumeration of all option subsets over object shapes and positions against a reference filter', 'reference dump filtered by entry kind'),
 'C16': ('enumeration of all names up to the bound and object shapes under every transformer against a reference renaming', 'reference renaming and word model'),
 'C17': ('enumeration of all offsets, fraction lengths, boundary instants and zones in the bound against integer arithmetic on instants', 'independent RFC3339 parser/formatter'),
 'C18': ('enumeration of validated types, positions, verdicts, registration histories and forks', 'reference: the loaded result contains a rejected value'),
 'C19': ('enumeration of class hierarchies, declaration styles and positions against the declared attributes', 'reference: attributes by declaration'),
 'C20': ('enumeration of all signatures up to three parameters, call forms and decorator options', 'reference: mapping by hand with dump/load'),
 'C21': ('enumeration of entry points, values and options against dump/load', 'differential oracle'),
 'C22': ('enumeration of all failure subsets and lengths in the bound against a reference path', 'reference: first failing index path'),
 'C23': ('enumeration of all subsets of the key alphabet, positions, transports and options', 'round trip with type-strict equality'),
 'C24': ('fork-tree depth-first search over all suppress/unsuppress/fork/trigger histories against a flag model', 'flag model per fork'),
 'C25': ('enumeration of all subsets of failing attributes, positions and exception kinds (fault enumeration)', 'reference: dump without the failing attributes'),
 'C26': ('enumeration of all JSON values up to the bound over date-time like strings against an independent RFC3339 recogniser', 'independent recogniser'),
 'C27': ('enumeration of all chains of containers up to the depth with probes that record the options they get', 'recorded options must equal the given ones'),
 'C28': ('enumeration of every subset of positions left deserialized over all type terms', 'differential oracle: the fully serialized source'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
NA = {}
skip = set(sys.argv[1:])
for p in props:
    if os.path.exists(os.path.join(here, 'mc', 'checks', p.lower() + '.py')) and p not in skip:
        t, n = TECH[p]
        checks.append(dict(property=p, quick_cmd='bin/check %s' % p,
                           thorough_cmd='VERIF_TIER=thorough bin/check %s' % p,
                           evidence_file='evidence/%s.json' % p, technique='model checking: ' + t,
                           level='model_checking',
                           level_note='Exhaustive within the bounds stated in the evidence file and DESIGN.md, on the real '
                                      'code; ' + n + '. Trusts CPython and the harness; values outside the alphabet '
                                      'are not covered.'))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'The check is not built yet.')))
m = dict(version=1, setup_cmd='bash bin/setup', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: everything is observed through the public API, sys.settrace and injected '
               'task types.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
