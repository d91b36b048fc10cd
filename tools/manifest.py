#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('The properties are invariants of an executable TLA+ specification (TLC, exhaustive for the explored machines); '
        'the implementation is bound to it by replaying covering walks of the explored state graphs and random call '
        'sequences into the real library and validating every recorded call against the specification. Assumes the class '
        'of machines of DESIGN.md, guards constant within a call, one platform.')
OTHER = {
    'C14': 'Interleaved and moved instances, each validated against the specification; a rejection counts if the same calls on a machine alone in its process are accepted.',
    'C18': 'The same machine in every notation, driven by the same calls and validated against the same specification.',
    'C25': 'TLC enumerates programs (machines, mutations, uses) with the verdict of a WellFormed predicate; each is compiled and the outcome compared. Assumes clang++/g++ as judges of what compiles.',
}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       technique='TLA+ specification checked with TLC, bound by trace validation of the real library'
                       if p != 'C25' else 'TLA+ specification of well-formedness, bound by compiling TLC-enumerated programs',
                       level='model_checking', level_note=OTHER.get(p, '') + (' ' if p in OTHER else '') + (NOTE if p != 'C25' else '')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[],
         notes='No hooks: the checks use the public API of the headers in /repo/include only. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
