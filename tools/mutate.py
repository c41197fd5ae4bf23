#!/usr/bin/env python3
"""mutate.py FILE FUNC[,FUNC...] 'C16 C30' [max]: small syntactic mutants of functions that pass the tests; prints those no listed check reports."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
        ast.Pow: '*', ast.Mod: '//', ast.FloorDiv: '/', ast.And: 'or', ast.Or: 'and'}


def mutants(src, funcs):
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def text(n):
        return src[pos(n):pos(n, True)]

    def rep(a, b, new, what):
        out.append((src[:a] + new + src[b:], what))
    out = []
    for fn in ast.walk(tree):
        if not (isinstance(fn, ast.FunctionDef) and (fn.name in funcs or funcs == {'*'})):
            continue
        doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
        for n in ast.walk(fn):
            if n is doc or doc is not None and n is doc.value:
                continue
            ln = getattr(n, 'lineno', 0)
            tag = lambda w: '%d %s' % (ln, w)
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                a, b = pos(n.left, True), pos(n.right)
                mid = src[a:b]
                for o in ('**', '//', '+', '-', '*', '/', '%'):
                    if o in mid:
                        rep(a, b, mid.replace(o, SWAP[type(n.op)], 1), tag('%s -> %s in %s' % (o, SWAP[type(n.op)], text(n)[:70])))
                        break
                if isinstance(n.op, (ast.Add, ast.Sub)) and mid.count('\n') == 0:
                    rep(pos(n), pos(n, True), '(' + text(n.left) + ')', tag('drop right operand of %s' % text(n)[:70]))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
                a, b = pos(n.left, True), pos(n.comparators[0])
                rep(a, b, ' %s ' % SWAP[type(n.ops[0])], tag('%s in %s' % (SWAP[type(n.ops[0])], text(n)[:70])))
            elif isinstance(n, ast.BoolOp):
                for x, y in zip(n.values, n.values[1:]):
                    rep(pos(x, True), pos(y), ' %s ' % SWAP[type(n.op)], tag('bool op in %s' % text(n)[:70]))
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                v = n.value
                for w in ((v + 1, v - 1) if type(v) is int else (v * 1.001, -v)):
                    if w != v:
                        t = '(%r)' % w if w < 0 else repr(w)
                        rep(pos(n), pos(n, True), t, tag('%s -> %s' % (text(n), t)))
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                rep(pos(n), pos(n, True), str(not n.value), tag('%s flipped' % n.value))
            elif isinstance(n, ast.Constant) and type(n.value) is str and n.value and not isinstance(getattr(n, 'parent', None), ast.JoinedStr):
                t = text(n)
                if t[:1] in '\'"r' and '\n' not in t and len(n.value) < 40:
                    q = t[-1]
                    rep(pos(n), pos(n, True), t[:-1] + '_' + q if not t.startswith('f') else t, tag('string %s' % t))
            elif isinstance(n, ast.If):
                rep(pos(n.test), pos(n.test, True), 'not (%s)' % text(n.test), tag('negated if %s' % text(n.test)[:60]))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                rep(pos(n), pos(n, True), '(' + text(n.operand) + ')', tag('minus dropped %s' % text(n)[:60]))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                near = [m.id for m in ast.walk(fn) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store) and m.id != n.id and len(m.id) == len(n.id) and
                        sum(p != q for p, q in zip(m.id, n.id)) == 1]
                for m in sorted(set(near))[:2]:
                    rep(pos(n), pos(n, True), m, tag('name %s -> %s' % (n.id, m)))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                rep(pos(n), pos(n, True), 'pass', tag('removed %s' % text(n)[:70]))
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                x, y = n.args
                rep(pos(x), pos(y, True), text(y) + src[pos(x, True):pos(y)] + text(x), tag('arguments swapped in %s' % text(n)[:70]))
            if isinstance(n, ast.Call) and n.keywords:
                for k in n.keywords:
                    if k.arg and k is n.keywords[-1] and (len(n.keywords) > 1 or n.args):
                        prev = n.keywords[-2].value if len(n.keywords) > 1 else n.args[-1]
                        rep(pos(prev, True), pos(k.value, True), '', tag('keyword %s dropped in %s' % (k.arg, text(n)[:50])))
    good = []
    seen = {src}
    for s, w in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, 'x', 'exec')
            good.append((s, w))
        except SyntaxError:
            pass
    return good


def one(x):
    (s, w), file, props = x
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        open(os.path.join(r, file), 'w').write(s)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        try:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'shipgrav/tests'], cwd=r, capture_output=True,
                               text=True, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return 'killed', w, ''
        if t.returncode != 0:
            return 'killed', w, ''
        notes = []
        for p in props:
            q = subprocess.run([sys.executable, '-m', 'sa', p], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, SHIPGRAV_REPO=r))
            if q.returncode == 1:
                return 'caught', w, p
            if ' 0 undecided' not in q.stdout:
                notes.append(p + ' undecided')
            if q.returncode:
                notes.append('%s rc=%d' % (p, q.returncode))
        return 'MISSED', w, ' '.join(notes)
    finally:
        shutil.rmtree(d)


def main():
    file, funcs, props = sys.argv[1], set(sys.argv[2].split(',')), sys.argv[3].split()
    ms = mutants(open(os.path.join('/repo', file)).read(), funcs)
    if len(sys.argv) > 4 and len(ms) > int(sys.argv[4]):
        random.seed(int(os.environ.get('MSEED', '7')))
        ms = random.sample(ms, int(sys.argv[4]))
    n = {}
    with ThreadPoolExecutor(int(os.environ.get('J', 6))) as ex:
        for v, w, p in ex.map(one, [(m, file, props) for m in ms]):
            n[v] = n.get(v, 0) + 1
            if v == 'MISSED' or os.environ.get('ALL') and v != 'killed':
                print(v, w, p, flush=True)
    print(file, ','.join(funcs), n, flush=True)


main()
