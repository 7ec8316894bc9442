"""mkseed.py: writes seeded/<id>/ from an entry (id, property, file, [(old, new)...], needs, breaks, demo source)."""
import os, subprocess, sys, json, difflib
REPO = '/repo'
BASE = '11fbcf2'


def make(id, prop, file, edits, needs, breaks, demo):
    path = 'src/pytorch_kinematics/' + file
    files = {}
    for e in edits:
        p = path if len(e) == 2 else 'src/pytorch_kinematics/' + e[0]
        old, new = e[-2:]
        s = files.get(p) or open(os.path.join(REPO, p)).read()
        assert s.count(old) == 1, (id, p, s.count(old), old)
        base = subprocess.run(['git', '-C', REPO, 'show', BASE + ':' + p], capture_output=True, text=True).stdout
        if old not in base:
            print(id, 'WARNING: not in the original:', old.strip()[:60])
        files[p] = s.replace(old, new)
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = ''
    for p, s in files.items():
        a = open(os.path.join(REPO, p)).read()
        diff += 'diff --git a/%s b/%s\n' % (p, p) + ''.join(difflib.unified_diff(
            a.splitlines(True), s.splitlines(True), 'a/' + p, 'b/' + p))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository; exit 0 if the behaviour is right\n'
                                    'export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
