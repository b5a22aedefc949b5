#!/usr/bin/env python3
"""Make a planted bug from a description and confirm it.

usage: seed.py FILE...; every FILE is a python file that defines ID, PROPERTY,
EDITS = [(file, old, new), ...], DEMO (python source), NEEDS, BREAKS. The
patch is made against /repo in a scratch copy, the stable tests and the demo
are run there, and the folder /verif/seeded/ID is written when all is well.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'


def run(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                          capture_output=True, text=True)


def main(path):
    ns = {}
    with open(path) as f:
        exec(f.read(), ns)
    d = tempfile.mkdtemp(prefix='seed')
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for file, old, new in ns['EDITS']:
            p = os.path.join(repo, 'structuralcodes', file)
            with open(p, newline='') as f:
                s = f.read()
            if '\r\n' in s:
                old, new = (x.replace('\n', '\r\n') for x in (old, new))
            assert s.count(old) == 1, (file, s.count(old), old)
            with open(p, 'w', newline='') as f:
                f.write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo,
                              capture_output=True).stdout
        demo = os.path.join(d, 'demo.py')
        with open(demo, 'w') as f:
            f.write(ns['DEMO'])
        good = run([PY, demo], '/repo', {'PYTHONPATH': '/repo'})
        if good.returncode:
            return f'demo fails on the clean tree: {good.stderr[-400:]}'
        bad = run([PY, demo], repo, {'PYTHONPATH': repo})
        if not bad.returncode:
            return 'demo passes with the change'
        t = run([PY, '-m', 'pytest', '-q', '-x', '-n', '8', '-p',
                 'no:cacheprovider', 'tests'], repo, {'PYTHONPATH': repo})
        if t.returncode:
            m = re.findall(r'^FAILED.*', t.stdout, re.M)
            return f'tests fail: {m[:2]}'
    finally:
        shutil.rmtree(d)
    out = os.path.join('/verif/seeded', ns['ID'])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, 'patch.diff'), 'wb') as f:
        f.write(diff)
    with open(os.path.join(out, 'demo.py'), 'w') as f:
        f.write(ns['DEMO'])
    with open(os.path.join(out, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD '
                f'{PY} "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']}, f, indent=1)
        f.write('\n')
    last = [x for x in bad.stderr.splitlines() if x.strip()][-1:]
    return f'ok ({last})'


for a in sys.argv[1:]:
    print(os.path.basename(a), main(a), flush=True)
