"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py; mkseeds.py [id ...]"""
import glob
import json
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    SEEDS.append((id, prop, edits, needs, breaks, demo))


for f in sorted(glob.glob(os.path.join(V, 'tools/seeds/*.py'))):
    exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
only = sys.argv[1:]
for id, prop, edits, needs, breaks, demo in SEEDS:
    if only and id not in only:
        continue
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = ''
    files = {}
    for path, old, new in edits:
        s = files.get(path) or open(os.path.join('/repo', path)).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        files[path] = s.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        for path, s in files.items():
            a = os.path.join(t, 'a', path)
            b = os.path.join(t, 'b', path)
            os.makedirs(os.path.dirname(a), exist_ok=True)
            os.makedirs(os.path.dirname(b), exist_ok=True)
            open(a, 'w').write(open(os.path.join('/repo', path)).read())
            open(b, 'w').write(s)
            r = subprocess.run(['diff', '-u', 'a/' + path, 'b/' + path], cwd=t, stdout=subprocess.PIPE, text=True)
            lines = r.stdout.split('\n')
            lines[0] = '--- a/' + path
            lines[1] = '+++ b/' + path
            diff += '\n'.join(lines)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES=\n'
        'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
