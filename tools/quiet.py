#!/usr/bin/env python3
"""quiet.py SPEC.py [name ...]: applies behaviour-preserving rewrites to copies of /repo and runs checks, which have to stay quiet.

SPEC.py evaluates to, or binds L to, a list of (name, 'C01 C02 ...', [(file, old, new), ...])."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(x):
    name, props, edits = x
    d = tempfile.mkdtemp(prefix='quiet')
    try:
        w = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        for f, o, n in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if o not in s:
                return '%-30s edit does not match: %r' % (name, o[:60])
            open(p, 'w').write(s.replace(o, n))
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'shipgrav/tests'], cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        out = ['%-30s tests %s' % (name, t.stdout.strip().split('\n')[-1][:60] if t.returncode == 0 else 'FAIL ' + t.stdout[-600:])]
        for p in [p for p in props.split() if p not in os.environ.get('SKIP', '').split()]:
            r = subprocess.run([sys.executable, '-m', 'sa', p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SHIPGRAV_REPO=w))
            ls = r.stdout.strip().split('\n')
            if r.returncode != 0 or ' 0 undecided' not in ls[-1]:
                out.append('    %s rc=%d %s' % (p, r.returncode, '\n       '.join(l[:260] for l in ls[:4] + ls[-1:])))
            else:
                out.append('    %s quiet' % p)
        return '\n'.join(out)
    finally:
        shutil.rmtree(d)


text = open(sys.argv[1]).read()
try:
    spec = eval(text)
except SyntaxError:
    names = {}
    exec(text, names)
    spec = names['L']
if sys.argv[2:]:
    spec = [s for s in spec if s[0] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get('J', 3))) as ex:
    for r in ex.map(one, spec):
        print(r, flush=True)
