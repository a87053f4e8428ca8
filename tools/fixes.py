#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix commits."""
import json
import os
import subprocess
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
PID = {
    'a class name in isobjof': 'C28',
    'random strings may': 'C26',
    'fetching linked': 'C25',
    'key path input of items': 'C18', 'key paths accept': 'C18',
    'string annotations may': 'C24', 'annotations of the form': 'C24',
    'optional forward': 'C24', 'class and enum names in': 'C24',
    'types used by several': 'C24', 'deriving types': 'C24',
    'adding a list': 'C12', 'tracked dict': 'C12', 'tracked list': 'C12',
    'hasprefix': 'C05', 'an empty list is a suffix': 'C05',
    'oneisvalid': 'C05', 'hexcolor': 'C06', 'email': 'C06', 'url': 'C06',
    'prepend': 'C08', 'validating a value': 'C04', 'assigning values': 'C04',
    'write rules of a linked': 'C01', 'a repeated object': 'C01',
    'fields of nested objects': 'C10', 'a required list of local': 'C10',
    'modified objects inside embedded': 'C10', 'the class setting': 'C10',
    'removing from a tracked list': 'C14', 'marking visited': 'C10',
    'assigning an equal value': 'C11', 'assigning and linking compare': 'C11', 'removing a link marks': 'C11',
    'persisted_modified_fields': 'C11', 'complete keeps': 'C11',
    'reset marks': 'C13', 'pick and omit': 'C02', 'new objects record': 'C13',
    'previous values are copies': 'C13', 'an assigned list of ref': 'C14',
    'a link removed from': 'C13', 'the previous primary key': 'C13',
    'lists of reference keys': 'C14',
    'callable checkers of canc': 'C16', 'different objects without': 'C16',
    'canr also hides': 'C16', 'asop accepts': 'C16', 'save() saves': 'C20',
    'enum fields with': 'C23', 'defining a json enum': 'C23',
    'datetime output is': 'C19', 'the UTC offset': 'C19',
    'before and after': 'C19', 'tsupdated defaults': 'C19',
    'union fields read': 'C17', 'output contains a copy': 'C17',
    'output of any fields': 'C17',
    'key path input': 'C01', 'the reference key of a writeonly': 'C02',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s',
                      '--reverse'], capture_output=True, text=True)
k = json.load(open(F))
k['fixed'] = []
for line in log.stdout.splitlines():
    h, m = line.split(' ', 1)
    if m.startswith('fix: '):
        m = m[5:]
        p = next(v for x, v in PID.items() if m.startswith(x))
        k['fixed'].append(f'fixed: property={p} {h} {m}')
json.dump(k, open(F, 'w'), indent=1)
