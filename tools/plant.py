#!/usr/bin/env python3
"""plant.py SPEC.py: make seeded/<id> from a spec, after confirming it in a scratch copy.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks)].
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def plant(s, tests=True):
    root = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
    repo = os.path.join(root, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, a, b in s['edits']:
            p = os.path.join(repo, f)
            t = open(p, encoding='utf-8').read()
            if t.count(a) != 1:
                return f'{s["id"]}: {f}: {t.count(a)} matches of {a[:60]!r}'
            open(p, 'w', encoding='utf-8').write(t.replace(a, b))
        d = os.path.join(root, 'seed')
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(sh(['git', 'diff'], repo).stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ok = sh(['bash', os.path.join(d, 'demo.sh')], '/repo')
        if ok.returncode != 0:
            return f'{s["id"]}: demo fails on the unchanged tree: {(ok.stdout + ok.stderr)[-600:]}'
        bad = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        if bad.returncode == 0:
            return f'{s["id"]}: demo passes with the change'
        if tests:
            env = {'PYTHONPATH': repo, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
                   'OMP_NUM_THREADS': '1', 'NUMBA_FUNCTION_CACHE_SIZE': '0', 'HOME': root, 'TZ': 'UTC', 'LANG': 'C.UTF-8'}
            r = sh(['/opt/venv/bin/python', '-m', 'pytest', '.', '-q', '-n', '8', '-p', 'no:cacheprovider', '--timeout=300', '-m', 'not online and not thermo',
                    '--basetemp=' + os.path.join(root, 'pt'), '-x'], repo, env)
            if r.returncode != 0:
                return f'{s["id"]}: tests fail: ' + ' | '.join(x for x in r.stdout.splitlines() if x.startswith(('FAILED', 'ERROR')))[:500] + r.stdout[-200:]
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return f'{s["id"]}: planted'
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    only = set(sys.argv[2:])
    for s in seeds:
        if only and s['id'] not in only:
            continue
        print(plant(s), flush=True)
