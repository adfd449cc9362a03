#!/usr/bin/env python3
"""Plant bugs: verify and keep (in /verif/seeded) changes to /repo described in a spec file.

usage: plant.py SPEC.py [id...]     SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]
Each is applied to /repo, type-checked, built, tested; its demo must fail with it and pass without it.
It is undone again whatever happens.  The check of its property (with --all: every check) is then run against it (VERIF_REPO unset: /repo itself).
"""
import json, os, re, runpy, subprocess, sys, shutil
R, V = '/repo', '/verif'
sh = lambda c, cwd=R, t=900: subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
spec = runpy.run_path(sys.argv[1])
want = {a for a in sys.argv[2:] if not a.startswith('--')}
base = sh('git rev-list --max-parents=0 HEAD').stdout.strip()
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
H = open(os.path.join(V, 'tools/demo.mts')).read()
assert not sh('git status --porcelain').stdout.strip(), 'repo dirty'

def demo(d):
    try:
        p = sh(f'bash {d}/demo.sh', t=120)
        return p.returncode, (p.stdout + p.stderr).strip().splitlines()[-3:]
    except subprocess.TimeoutExpired:
        return 124, ['timeout']

for s in spec['SEEDS']:
    if want and s['id'] not in want: continue
    d = f"{V}/seeded/{s['id']}"
    try:
        ok = True
        for f, old, new in s['edits']:
            t = open(f'{R}/{f}').read()
            n = t.count(old)
            if n != 1: print(s['id'], 'BAD EDIT', f, n, old[:60]); ok = False; break
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        if not ok: continue
        diff = sh('git diff').stdout
        # removed lines must be lines of the original repository
        for f, _, _ in s['edits']:
            orig = sh(f'git show {base}:{f}').stdout.splitlines()
            for l in sh(f'git diff -U0 {f}').stdout.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                    print(s['id'], 'NOTE not an original line:', l)
        tsc = sh('/opt/veriftools/node/node_modules/.bin/tsc --noEmit -p tsconfig.json')
        if tsc.returncode: print(s['id'], 'TSC', tsc.stdout[:300]); continue
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(s['id'], 'BUILD', b.stdout[-300:]); continue
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        o = json.load(open('/tmp/plant.json'))
        failed = stable - set(o['passed'])
        if failed: print(s['id'], 'TESTS fail', sorted(failed)[:3]); continue
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/h.mts', 'w').write(H)
        open(f'{d}/demo.mts', 'w').write("import { bytes, chat, check, data, finish, hangs, load, message, read, settled, sse } from './h.mts'\n\n" + s['demo'].strip() + '\n\nfinish()\n')
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the behaviour is right\nd="$(cd "$(dirname "$0")" && pwd)"\nexec timeout 100 tsx "$d/demo.mts"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=2)
        rc1, out1 = demo(d)
        checks = '' if '--nochecks' in sys.argv else sh('bash /verif/tools/all.sh ' + ('' if '--all' in sys.argv else s['property']), cwd=V).stdout
    finally:
        sh('git checkout -- .'); 
    sh('bash /opt/vp/build.sh')
    rc0, out0 = demo(d)
    caught = re.findall(r'^(C\d+) rc=1', checks, re.M)
    und = re.findall(r'^(C\d+) rc=0 .*?([1-9]\d*) undecided', checks, re.M)
    good = rc0 == 0 and rc1 != 0
    print(s['id'], s['property'], 'OK' if good else f'DEMO BAD with={rc1} {out1} without={rc0} {out0}', 'caught:', ','.join(caught) or 'NONE', '' if s['property'] in caught else '*** MISSED', und, out1[-1:] if good else '', flush=True)
    if not good: shutil.rmtree(d)
    elif checks:
        cf = f'{V}/tools/catches.json'
        c = json.load(open(cf)); c[s['id']] = caught; json.dump(c, open(cf, 'w'), indent=1, sort_keys=True)
