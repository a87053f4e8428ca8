#!/usr/bin/env python3
"""mkbug.py FILE...: plant the bugs described in FILE (a python file with a
list BUGS of dict(id, property, edits=[(path, old, new)], demo, needs, what)),
verify each (demo passes before, tests pass and demo fails after) and run the
property's check against it. The result lies in /verif/seeded/<id>/.
mkbug.py --check [ID...]: only rerun the checks on existing planted bugs."""
import json
import os
import runpy
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDED = f'{VERIF}/seeded'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
cd /repo || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def clean():
    sh(f'git -C {REPO} checkout -- .')
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip()


def demo(bid):
    # run from elsewhere, as the final check does
    sh(f'rm -rf /tmp/demo-{bid} && cp -a {SEEDED}/{bid} /tmp/demo-{bid}')
    r = sh(f'bash /tmp/demo-{bid}/demo.sh', timeout=300)
    sh(f'rm -rf /tmp/demo-{bid}')
    return r


def check(bid, pid):
    r = sh(f'python3-vt check.py {pid} --tier quick', cwd=VERIF)
    got = r.returncode == 1 and f'VIOLATION property={pid} ' in r.stdout
    info = [x for x in r.stdout.splitlines() if x.startswith('  ')][:1]
    print(f'{bid}: {pid} exit {r.returncode}',
          'CAUGHT' if got else 'MISSED', *info, flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-600:], r.stderr[-600:])
    return got


def make(b):
    bid, d = b['id'], f"{SEEDED}/{b['id']}"
    clean()
    os.makedirs(d, exist_ok=True)
    for path, old, new in b['edits']:
        p = f'{REPO}/{path}'
        s = open(p).read()
        assert s.count(old) == 1, (bid, path, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh(f'git -C {REPO} diff').stdout
    clean()
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(DEMO)
    open(f'{d}/demo.py', 'w').write(
        "import sys\nsys.path.insert(0, '/repo')\n" + b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'],
                   what_it_breaks=b['what']),
              open(f'{d}/meta.json', 'w'), indent=1)
    r = demo(bid)
    ok = r.returncode == 0
    if not ok:
        print(bid, 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout, r.stderr)
        return
    sh(f'git -C {REPO} apply {d}/patch.diff', check=True)
    try:
        sh('bash /opt/vp/build.sh', check=True)
        sh('bash /opt/vp/test.sh /tmp/mkbug.json')
        res = json.load(open('/tmp/mkbug.json'))
        lost = STABLE - set(res['passed'])
        if lost:
            print(bid, 'TESTS NOTICE', sorted(lost)[:5])
            sh(f'rm -rf {d}')
            return
        r = demo(bid)
        if r.returncode == 0:
            print(bid, 'DEMO PASSES WITH THE BUG')
            sh(f'rm -rf {d}')
            return
        check(bid, b['property'])
    finally:
        clean()


def main():
    args = sys.argv[1:]
    if args[0] == '--check':
        for bid in args[1:] or sorted(os.listdir(SEEDED)):
            d = f'{SEEDED}/{bid}'
            pid = json.load(open(f'{d}/meta.json'))['property']
            clean()
            r = sh(f'git -C {REPO} apply {d}/patch.diff')
            if r.returncode:
                print(bid, 'DOES NOT APPLY')
                continue
            try:
                check(bid, pid)
            finally:
                clean()
        return
    for f in args:
        for b in runpy.run_path(f)['BUGS']:
            make(b)


main()
