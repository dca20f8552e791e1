#!/usr/bin/env python3
"""mkseed.py <id>: makes /verif/seeded/<id> out of edits in /tmp/seed_<id>/repo
(a copy of /repo), /tmp/seed_<id>/demo.py and meta.json."""
import json, os, shutil, subprocess, sys


def seed(i, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/%s' % i
    s = '/tmp/seed_scratch'
    shutil.rmtree(s, ignore_errors=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(['git', 'clone', '-q', '/repo', s], check=True)
    for f, old, new in edits:
        p = os.path.join(s, f)
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', s, 'diff'], capture_output=True, text=True).stdout
    shutil.rmtree(s)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$T" SCRATCH="$T"
export PYTHONPATH="$PWD"
/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
