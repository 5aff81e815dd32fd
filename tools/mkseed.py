#!/usr/bin/env python3
"""mkseed.py: seed(id, prop, needs, breaks, [(file, old, new)...], demo_py) writes /verif/seeded/<id>."""
import subprocess, os, json, shutil
WT = '/tmp/wt'
def seed(id, prop, needs, breaks, edits, demo, files=None):
    if not os.path.isdir(WT): subprocess.run(['git', 'clone', '-q', '/repo', WT], check=True)
    subprocess.run(['git', '-C', WT, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', WT, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    for f, o, n in edits:
        p = f'{WT}/{f}'; s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    d = f'/verif/seeded/{id}'; os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(subprocess.run(['git', '-C', WT, 'diff'], capture_output=True, text=True).stdout)
    shutil.copy('/verif/tools/vs.py', d)
    open(f'{d}/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport vs\n" + demo)
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    for n, t in (files or {}).items(): open(f'{d}/{n}', 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
