#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE <<json {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo":..,"files":{name:text}}: write a planted bug."""
import json, os, subprocess, sys
R = os.environ.get('WZ_REPO', '/repo')
def plant(id, prop, edits, needs, breaks, demo, files=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', R, 'status', '--porcelain', '--untracked-files=no'])
    try:
        for f, a, b in edits:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', R, 'diff']))
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(demo)
    for n, t in (files or {}).items():
        open(d + '/' + n, 'w').write(t)
