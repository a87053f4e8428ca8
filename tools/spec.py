#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json. Run by hand after an edit."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec_data import PROPS, NOT_APPLICABLE   # noqa: E402

TECH = ('bounded symbolic execution of the real sources (AST-instrumented at '
        'import) with z3; counterexamples replayed on the unmodified code')


def main():
    out, checks = [], []
    for p in PROPS:
        pid = p['id']
        if not os.path.isfile(f'{HERE}/props/{pid.lower()}.py') and \
                pid not in NOT_APPLICABLE:
            print('skipped (no harness yet)', pid)
            continue
        assert len(p['title']) <= 80, p['title']
        out.append(dict(
            id=pid, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['forall']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[
                dict(name=n, where=w) for n, w in p['mechanism']],
                observe_at=p['observe'], hook_needed=None)))
        if pid in NOT_APPLICABLE:
            continue
        checks.append(dict(
            property=pid,
            quick_cmd=f'python3-vt check.py {pid} --tier quick',
            thorough_cmd=f'python3-vt check.py {pid} --tier thorough',
            technique=TECH, level='other',
            level_note=(
                'Decided for every value within the bounds, by SMT queries '
                'over the current sources: ' + p['bounds'] +
                ' Trusted: the instrumentation and its models of str, int, '
                'float, re and containers (compared with CPython by '
                'props/selftest.py), z3.')))
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    man = dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[dict(property=k, reason=v)
                               for k, v in NOT_APPLICABLE.items()],
               notes='No hooks: the encoding is made by instrumenting the '
                     'sources at import. See DESIGN.md.')
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for o in out:
        jsonschema.validate(o, sch)
    print(len(out), 'properties,', len(checks), 'checks')


main()
