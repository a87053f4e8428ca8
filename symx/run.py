"""Driver: instruments /repo, explores every harness, replays, reports."""
from __future__ import annotations
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
VENV_PY = '/opt/venv/bin/python'


def setup(here):
    sys.path.append(VENV_SITE)
    from . import instr
    instr.install(REPO, here)
    sys.setrecursionlimit(3000)


G = {}


def run_job(job):
    """Explore one (harness, config). Runs in a worker process."""
    hname, ci, tier, deadline, max_paths = job
    from .core import E, Control
    from .provider import SymSX
    mod = G['mod']
    h = mod.H.get(hname)
    cfg = h[tier][ci]
    E.reset_stats()
    E.functions = set()
    fails = []
    t0 = time.time()
    sx = SymSX(tier)

    def body():
        if cfg is None:
            h['fn'](sx)
        else:
            h['fn'](sx, cfg)

    def on_fail(f):
        tb = ''
        if len(f) > 2:
            tb = ''.join(traceback.format_exception(f[2]))[-1800:]
        fails.append(dict(msg=f[0], values=f[1], tb=tb))
        return len(fails) < 4
    err = None
    done = False
    try:
        done = E.explore(body, max_paths=max_paths, deadline=deadline,
                         on_fail=on_fail)
    except Control as e:
        err = f'{type(e).__name__}: {e}'
    except Exception:
        err = traceback.format_exc()[-1500:]
    finally:
        E.active = False
    return dict(harness=hname, config=ci, stats=E.stats, solver_s=E.solver_s,
                reach=dict(E.reach), functions=sorted(E.functions),
                trunc=dict(E.trunc_sites), samples=E.samples[:2],
                fails=fails, err=err, done=done, wall=time.time() - t0)


def _worker_init(here, modname):
    pass


def replay(here, case_file, timeout=120):
    env = dict(os.environ, PYTHONHASHSEED='0')
    try:
        p = subprocess.run([VENV_PY, '-W', 'ignore', os.path.join(here, 'replay.py'),
                            case_file], capture_output=True, text=True,
                           timeout=timeout, env=env, cwd=here)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, (p.stdout + p.stderr)[-3000:]


def main(here):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--config', type=int)
    ap.add_argument('--jobs', type=int, default=int(
        os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1)
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    t0 = time.time()
    pid = args.property
    modname = pid.lower()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    setup(here)
    try:
        mod = importlib.import_module('props.' + modname)
    except Exception:
        traceback.print_exc()
        return load_failure(here, pid, args, seed, t0)
    G['mod'] = mod
    budget = args.budget or (600 if args.tier == 'quick' else 5400)
    deadline = t0 + budget
    jobs = []
    for h in mod.H:
        if args.only and h['name'] != args.only:
            continue
        for ci in range(len(h[args.tier])):
            if args.config is not None and ci != args.config:
                continue
            jobs.append((h['name'], ci, args.tier, deadline, 10**9))
    results = []
    if args.jobs == 1 or len(jobs) == 1:
        results = [run_job(j) for j in jobs]
    else:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(args.jobs, len(jobs)), maxtasksperchild=16) as pool:
            for r in pool.imap_unordered(run_job, jobs):
                results.append(r)
    results.sort(key=lambda r: (r['harness'], r['config']))
    return report(here, mod, pid, args, seed, results, t0)


def load_failure(here, pid, args, seed, t0):
    """The harness module does not load. When the plain interpreter cannot
    load it either, the library refuses definitions that are valid."""
    path = os.path.join(here, 'replays', f'{pid}-load.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(dict(property=pid, module=pid.lower(), load=True), f)
        f.write('\n')
    rc, out = replay(here, path)
    if rc != 3:
        print(f'ERROR property={pid}: harness module cannot be loaded')
        print(out)
        return 2
    ev = dict(property=pid, tier=args.tier, seed=seed, level='other',
              coverage=dict(explanation='The library cannot be imported or '
                            'refuses valid class definitions; nothing was '
                            'explored.', exhaustive=False),
              assumptions=[], wall_s=round(time.time() - t0, 3), violations=1)
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('  ' + next((x for x in out.splitlines()
                       if x.startswith('REPRODUCED')), ''))
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def load_known(here):
    p = os.path.join(here, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def report(here, mod, pid, args, seed, results, t0):
    outdir = os.path.join(here, 'replays')
    os.makedirs(outdir, exist_ok=True)
    agg = {}
    funcs = set()
    reach = {}
    trunc = {}
    solver_s = 0.0
    errors = []
    spurious = []
    violations = []
    known_hits = []
    samples = []
    replays = 0
    known = [k for k in load_known(here) if k.get('property') == pid]
    for r in results:
        for k, v in r['stats'].items():
            agg[k] = max(agg.get(k, 0), v) if k == 'max_depth' else \
                agg.get(k, 0) + v
        funcs.update(r['functions'])
        for k, v in r['reach'].items():
            kk = (r['harness'], k)
            reach[kk] = reach.get(kk, 0) + v
        for k, v in r['trunc'].items():
            trunc[k] = trunc.get(k, 0) + v
        solver_s += r['solver_s']
        if r['err']:
            errors.append(f"{r['harness']}[{r['config']}]: {r['err']}")
        for s in r['samples']:
            if len(samples) < 5 and not any(
                    x['harness'] == r['harness'] for x in samples):
                samples.append(dict(harness=r['harness'], config=r['config'],
                                    **s))
        for f in r['fails']:
            case = dict(property=pid, module=pid.lower(),
                        harness=r['harness'], config=r['config'],
                        tier=args.tier, values=f['values'], msg=f['msg'])
            blob = json.dumps(case, sort_keys=True, indent=1)
            hsh = hashlib.sha1(blob.encode()).hexdigest()[:10]
            path = os.path.join(outdir, f'{pid}-{hsh}.json')
            if len(violations) >= 3:
                continue
            with open(path, 'w') as fh:
                fh.write(blob + '\n')
            replays += 1
            rc, out = replay(here, path)
            line = [x for x in out.splitlines() if x.startswith('REPRODUCED')]
            if rc == 3:
                what = line[0][11:] if line else f['msg']
                kf = next((k for k in known
                           if k['harness'] == r['harness'] and
                           k['message'] in (what, f['msg'])), None)
                if kf:
                    known_hits.append(kf)
                    os.unlink(path)
                else:
                    violations.append((path, r['harness'], r['config'], what,
                                       f))
            else:
                spurious.append(dict(harness=r['harness'], config=r['config'],
                                     msg=f['msg'], rc=str(rc), tb=f['tb'],
                                     values=f['values'], out=out[-600:]))
                os.unlink(path)
    missing = []
    if not args.only and not violations:
        for h in mod.H:
            for lab in h['reach']:
                if not reach.get((h['name'], lab)):
                    missing.append(f"{h['name']}:{lab}")
    wall = time.time() - t0
    bounds = getattr(mod, 'BOUNDS', {})
    repo_funcs = sorted(f for f in funcs if f.startswith('jsonclasses'))
    ev = dict(
        property=pid, tier=args.tier, seed=seed, level='other',
        coverage=dict(
            explanation=(
                'Bounded symbolic execution of the current /repo sources '
                '(AST-instrumented at import on this run) with z3. Every '
                'assertion is a solver query "path condition and not '
                'assertion"; paths are split by solver feasibility queries. '
                'The verdict covers all values within the stated bounds.'),
            functions_encoded=repo_funcs,
            functions_encoded_count=len(repo_funcs),
            harness_instances=len(results),
            paths=agg.get('paths', 0),
            paths_infeasible=agg.get('infeasible', 0),
            paths_inconclusive=agg.get('truncated', 0),
            inconclusive_reasons=trunc,
            forks=agg.get('forks', 0),
            queries_discharged=agg.get('queries', 0),
            assertions=agg.get('checks', 0),
            assertions_decided_by_query=agg.get('checks_symbolic', 0),
            assertions_concrete_on_path=agg.get('checks_concrete', 0),
            solver_unknown=agg.get('unknown', 0),
            value_splits_at_c_boundaries=agg.get('concretised', 0),
            solver_time_s=round(solver_s, 3),
            max_decisions_on_a_path=agg.get('max_depth', 0),
            reachability_witnesses={f'{a}:{b}': n
                                    for (a, b), n in sorted(reach.items())},
            counterexamples_replayed=replays,
            spurious_counterexamples=len(spurious),
            bounds=bounds,
            samples=samples,
            exhaustive=(agg.get('truncated', 0) == 0 and not errors and
                        not spurious)),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 3), violations=len(violations))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    tmp = os.path.join(here, 'evidence', f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.replace(tmp, os.path.join(here, 'evidence', f'{pid}.json'))
    print(f'{pid} {args.tier}: instances={len(results)} '
          f"paths={agg.get('paths', 0)} queries={agg.get('queries', 0)} "
          f"assertions={agg.get('checks', 0)} solver={solver_s:.1f}s "
          f"functions={len(repo_funcs)} inconclusive={agg.get('truncated', 0)} "
          f'wall={wall:.1f}s')
    if args.v:
        for r in sorted(results, key=lambda r: -r['wall'])[:15]:
            print(f"  {r['harness']}[{r['config']}] wall={r['wall']:.1f} "
                  f"paths={r['stats']['paths']} q={r['stats']['queries']} "
                  f"trunc={r['trunc']}")
        print('  reach:', {f'{a}:{b}': n for (a, b), n in reach.items()})
    seen = set()
    for k in known_hits:
        if k['id'] not in seen:
            seen.add(k['id'])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for s in spurious[:6]:
        print('INCONCLUSIVE: counterexample did not reproduce:',
              s['harness'], s['config'], s['msg'], s['values'], s['rc'])
        if args.v:
            print(s['tb'])
            print(s['out'])
    for e in errors[:5]:
        print('ENGINE-ERROR:', e)
    if violations:
        for path, hn, ci, what, f in violations:
            print(f'  {hn}[{ci}]: {what}')
            print('  inputs:', json.dumps(f['values'])[:600])
            if args.v:
                print(f['tb'])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        return 2
    if missing and not agg.get('truncated', 0):
        print('VACUOUS: labels never reached:', missing)
        return 2
    if os.environ.get('VERIF_STRICT') and (spurious or
                                           agg.get('truncated', 0)):
        return 2
    return 0
