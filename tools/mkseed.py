#!/usr/bin/env python3
"""mkseed.py SPEC.json ... : makes seeded/<id>/ from {id, property, edits: [[file, old, new]...], demo, needs, breaks}; keeps it only when it
builds, passes the tests, and the demonstration separates the two trees."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# run with cwd at the repository; exit 0 when the behaviour is right
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = 'import os\nimport sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n'


def stable():
    return json.load(open('/opt/vp/BASELINE.json'))


def make(s):
    d = os.path.join(HERE, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed-')
    w = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    for f, old, new in s['edits']:
        p = os.path.join(w, f)
        t = open(p, newline='').read()
        if t.count(old) != 1:
            print('FAIL', s['id'], 'edit matches', t.count(old), repr(old)[:80])
            shutil.rmtree(tmp)
            return
        open(p, 'w', newline='').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['demo'])
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    ok = []
    r = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    ok.append(r.returncode == 0)
    r2 = subprocess.run(['sh', os.path.join(d, 'demo.sh')], cwd=w, capture_output=True, text=True)
    ok.append(r2.returncode != 0)
    t = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'shipgrav'], cwd=w, capture_output=True, text=True)
    ok.append(t.returncode == 0)
    env = dict(os.environ, SHIPGRAV_REPO=w)
    c = subprocess.run(['python3', '-m', 'sa', s['property']], cwd=HERE, capture_output=True, text=True, env=env)
    print('%s %s clean=%s patched_fails=%s tests=%s  check exit %d %s' % ('OK  ' if all(ok) else 'FAIL', s['id'], ok[0], ok[1], ok[2], c.returncode,
          '' if c.returncode == 1 else 'MISSED'))
    if not all(ok):
        print(r.stdout[-600:], r.stderr[-900:], '--- patched:', r2.stdout[-300:], r2.stderr[-300:], t.stdout[-600:])
        subprocess.run(['rm', '-rf', d])
    elif c.returncode != 1:
        print('\n'.join(c.stdout.splitlines()[-8:])[:1500])
    else:
        print('   ', r2.stderr.strip().splitlines()[-1:] , '|', [l for l in c.stdout.splitlines() if l.startswith('  ')][:2])
    shutil.rmtree(tmp)


for a in sys.argv[1:]:
    x = json.load(open(a)) if a.endswith('.json') else eval(open(a).read())
    for s in (x if isinstance(x, list) else [x]):
        make(s)
