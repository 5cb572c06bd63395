#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a specification."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.main import specs  # noqa
from sa.specs.stacks import DEEP  # noqa

NOT = {
    'C36': 'Serializability quantifies over thread schedules of code using '
           'the library; the lock discipline it rests on is decided '
           'statically as C27, but which callers hold the lock is decided '
           'outside of this code base.',
    'C37': 'Equality of a tree after a full round trip depends on run time '
           'values (json, imported classes, __init__ of foreign classes); '
           'the static part, agreement of each writer with its reader, is '
           'claimed as C28 and C29.',
    'C38': 'Termination of ancestor walks depends on the parent graph built '
           'at run time (a tree with a cycle can be built by the public '
           'operations); no static argument over this code bounds it.',
    'C39': 'Isolation of copies is a may-alias question over object graphs '
           'built by copy, pickle and foreign children at run time; what '
           'copy itself has to do is decided as C11.',
}
METHOD = 'path-sensitive abstract interpretation of the syntax tree ' \
    '(every returning and raising path, typestate of location, storage and ' \
    'calls to the layers below), judged by a per-property specification'
NOTE = 'Decides the property on every abstract path of the functions it is ' \
    'anchored in, for all keys, values, exceptions and layers below, from ' \
    'the current source. Constructs the analysis does not understand are ' \
    'reported as undecided in the evidence and never as a violation. Trusts ' \
    'the documented behaviour of plumber, odict, zope.interface and the ' \
    'standard library.'


def main():
    have = specs()
    ids = [json.loads(l)['id'] for l in open(os.path.join(
        HERE, 'properties.jsonl'))]
    d = {'version': 1, 'setup_cmd': 'true', 'checks': [],
         'not_applicable': []}
    for i in ids:
        if i in have:
            doc = (have[i].__doc__ or '').strip()
            d['checks'].append({
                'property': i,
                'quick_cmd': 'python3 -m sa.main ' + i,
                'thorough_cmd': 'python3 -m sa.main %s%s' % (
                    '--thorough ' if i in DEEP else '', i),
                'technique': METHOD,
                'level': 'other',
                'level_note': (doc + ' ' if doc else '') + NOTE,
            })
        else:
            d['not_applicable'].append({
                'property': i,
                'reason': NOT.get(i, 'The check for this property is still '
                                     'being built.')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


main()
