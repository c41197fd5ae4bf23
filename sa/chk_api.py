"""C31: calls fit the library's interface, results unpack, names and database entries exist."""
import ast
import builtins
import json
import os
import re
import subprocess
import symtable
from . import run, calls, interp as ip, lib2, terms as tm, compare as cm, framework as fw, chk_io as io
from .framework import holds, violated, undecided, repo_files
from .terms import sym, num, mk, TRUE, FALSE, length, isarr
from .chk_num import size
from .chk_io2 import register

SCRIPTS = os.path.join(run.REPO, 'example-scripts')


def scripts():
    try:
        return {f[:-3]: os.path.join(SCRIPTS, f) for f in sorted(os.listdir(SCRIPTS)) if f.endswith('.py')}
    except OSError:
        return {}


def short(p):
    return os.path.relpath(p, run.REPO)


# --------------------------------------------------------------------------
# call sites: every call of a function of the package binds to its signature
# --------------------------------------------------------------------------
def toplevel(tree):
    """names a module defines, or None when that cannot be told"""
    out = set()

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                out.add(n.id)

    def go(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name.split('.')[0]) if a.name != '*' else '*')
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    targets(t)
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.For)):
                targets(n.target)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        targets(i.optional_vars)
            for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.NamedExpr):
                    targets(x.target)
            for part in ('body', 'orelse', 'finalbody'):
                b = getattr(n, part, None)
                if isinstance(b, list) and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    go(b)
            for h in getattr(n, 'handlers', []):
                if h.name:
                    out.add(h.name)
                go(h.body)
            for c in getattr(n, 'cases', []):
                go(c.body)
    go(tree.body)
    for n in ast.walk(tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('globals', 'exec', 'vars', 'setattr'):
            return None
    return None if '*' in out or '__getattr__' in out else out


def several(pkg, mod, name):
    """is the function defined more than once, rebound or decorated"""
    n = 0
    for x in ast.walk(pkg.trees[mod]):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x.name == name.split('.')[-1]:
            n += 1
            if x.decorator_list:
                return True
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == name.split('.')[-1]:
            return True
    return n != 1


def bind(call, node, skip):
    """what is wrong with the arguments of a call; skip: parameters that are given implicitly"""
    a = node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    npos = len(a.posonlyargs)
    if len(call.args) > len(pos) and a.vararg is None:
        return 'takes %d positional arguments, %d are given' % (len(pos), len(call.args))
    got = set(pos[:len(call.args)])
    only = {p.arg for p in a.kwonlyargs}
    for k in call.keywords:
        if k.arg in got:
            return 'gets two values for %s' % k.arg
        if k.arg not in only and (k.arg not in pos or pos.index(k.arg) + skip < npos) and a.kwarg is None:
            return 'has no parameter %s' % k.arg
        got.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
    miss = [p for p in need if p not in got] + [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in got]
    if miss:
        return 'needs a value for %s' % ', '.join(miss)
    return None


def arities(pkg, g):
    """numbers of values the function can return, None among them when one is not known"""
    out = set()
    for n in pkg.own(g):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return {None}
        if isinstance(n, ast.Return):
            v = n.value
            out.add(len(v.elts) if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts) else
                    0 if v is None or isinstance(v, ast.Constant) or isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant) else None)
    return out


def locals_of(fn):
    a = getattr(fn.node, 'args', None)
    out = set()
    if a is not None:
        out |= {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs} | {p.arg for p in (a.vararg, a.kwarg) if p is not None}
    if fn.name != '<module>':
        out |= {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return out


def hidden(fn, e):
    """the leading name is a variable here, not the function or module of that name"""
    while isinstance(e, ast.Attribute):
        e = e.value
    if not isinstance(e, ast.Name):
        return True
    f = fn
    while f is not None:
        if e.id in locals_of(f) and e.id not in ('self', 'cls'):
            return True
        f = f.outer
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Lambda) and e.id in {p.arg for p in n.args.args + n.args.kwonlyargs}:
            return True
    return False


def sites(mod, path, library):
    files = dict(repo_files())
    me = mod if library else 'example:' + mod
    if not library:
        files[me] = path
    pkg = calls.Package(files)
    defined = {m: toplevel(t) for m, t in pkg.trees.items()}
    bad, n, seen = [], 0, []
    classes = {(m, c.name) for m, t in pkg.trees.items() for c in t.body if isinstance(c, ast.ClassDef)}
    instances = {}
    fns = [f for f in pkg.fns.values() if f.mod == me]

    def target(fn, e):
        """(function, implicit parameters, dotted name)"""
        if hidden(fn, e):
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and (fn, e.value.id) in instances:
                m, c = instances[fn, e.value.id]
                return pkg.fns.get((m, c + '.' + e.attr)), 1, c + '.' + e.attr
            return None, 0, None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and (fn, e.value.id) in instances:
            m, c = instances[fn, e.value.id]
            return pkg.fns.get((m, c + '.' + e.attr)), 1, c + '.' + e.attr
        d = pkg.dotted(me, e)
        g = pkg.resolve(fn, e)
        if g is not None:
            method = g.cls is not None
            static = method and any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in g.node.decorator_list)
            return g, int(method and not static and isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls')), g.name
        m, c = None, None
        p = (d or '').split('.')
        if p[0] == 'shipgrav' and len(p) == 3:
            m, c = p[1], p[2]
        elif len(p) == 1:
            m, c = me, p[0]
        if (m, c) in classes:
            init = pkg.fns.get((m, c + '.__init__'))
            return init, 1, c
        return None, 0, d

    # names of instances: assigned once, from a class of the package
    for fn in fns:
        stores = {}
        for x in pkg.own(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores[x.id] = stores.get(x.id, 0) + 1
        for x in pkg.own(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and \
                    stores[x.targets[0].id] == 1 and not hidden(fn, x.value.func):
                p = (pkg.dotted(me, x.value.func) or '').split('.')
                k = (p[1], p[2]) if p[0] == 'shipgrav' and len(p) == 3 else (me, p[0])
                if k in classes:
                    instances[fn, x.targets[0].id] = k
    for fn in fns:
        for x in pkg.own(fn):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                d = pkg.dotted(me, x) if not hidden(fn, x) else None
                p = (d or '').split('.')
                if p[0] == 'shipgrav' and len(p) >= 3 and p[1] in repo_files() and defined[p[1]] is not None and p[2] not in defined[p[1]]:
                    bad.append((x.lineno, 'shipgrav.%s has no %s' % (p[1], p[2])))
                elif p[0] == 'shipgrav' and len(p) == 2 and p[1] not in repo_files() and defined.get('__init__') is not None and p[1] not in defined['__init__'] \
                        and not p[1].startswith('__'):
                    bad.append((x.lineno, 'shipgrav has no %s' % p[1]))
            if isinstance(x, ast.ImportFrom) and x.module and (x.module.startswith('shipgrav.') or x.level == 1 and library):
                m = x.module.split('.')[-1]
                for a in x.names:
                    if m in repo_files() and a.name != '*' and defined[m] is not None and a.name not in defined[m]:
                        bad.append((x.lineno, 'shipgrav.%s has no %s' % (m, a.name)))
            if isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.startswith('shipgrav.') and a.name.split('.')[1] not in repo_files():
                        bad.append((x.lineno, 'there is no module %s' % a.name))
            if not isinstance(x, ast.Call):
                continue
            g, skip, name = target(fn, x.func)
            if g is None or several(pkg, g.mod, g.name.split('.')[-1]) and g.node.name != '__init__':
                continue
            n += 1
            seen.append('%s:%d %s' % (short(path), x.lineno, name))
            w = bind(x, g.node, skip)
            if w:
                bad.append((x.lineno, '%s %s' % (name, w)))
        for x in pkg.own(fn):
            if isinstance(x, (ast.Assign, ast.For)):
                t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                v = x.value if isinstance(x, ast.Assign) else None
                if isinstance(t, ast.Tuple) and isinstance(v, ast.Call) and not any(isinstance(e, ast.Starred) for e in t.elts):
                    g, _, name = target(fn, v.func)
                    if g is None or g.node.name == '__init__' or several(pkg, g.mod, g.name.split('.')[-1]):
                        continue
                    ar = arities(pkg, g)
                    if ar and None not in ar and len(t.elts) not in ar:
                        bad.append((x.lineno, '%s returns %s values, %d are taken' % (name, ' or '.join(map(str, sorted(ar))), len(t.elts))))
    # names that are not defined anywhere
    top = defined[me]
    if top is not None:
        src = open(path, encoding='utf-8').read()
        for line, name in undefined(pkg.trees[me], src, path, top):
            bad.append((line, 'the name %s is not defined' % name))
    return bad, n, seen


def classlevel(c):
    """the nodes of a class body, without what is inside its functions"""
    todo = list(c.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += ast.iter_child_nodes(x)


def instance_names(pkg, mod):
    """{class: names its instances have}, for classes of which that can be told"""
    out = {}
    for c in pkg.trees[mod].body:
        if not isinstance(c, ast.ClassDef) or c.keywords or c.decorator_list or any(not (isinstance(b, ast.Name) and b.id == 'object') for b in c.bases):
            continue
        names, open_ = set(dir(object)) | {'__dict__', '__module__'}, False
        names |= {x.id for x in classlevel(c) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(c):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names.add(x.name)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                names.add(x.attr)
            elif isinstance(x, ast.Name) and x.id in ('setattr', 'vars', 'exec', 'hasattr') or isinstance(x, ast.Attribute) and x.attr in ('__dict__', '__setattr__', '__getattr__'):
                open_ = True
        open_ = open_ or names & {'__getattr__', '__slots__'} or any(isinstance(x, ast.FunctionDef) and x.name in ('__getattr__', '__getattribute__') for x in c.body)
        if not open_:
            out[c.name] = names
    for t in pkg.trees.values():                # attributes that are set from outside
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                for n in out.values():
                    n.add(x.attr)
    return out


def selfless(pkg, fn):
    """is self rebound in the method, or the method not an ordinary one"""
    a = fn.node.args
    pos = a.posonlyargs + a.args
    return not pos or pos[0].arg != 'self' or fn.node.decorator_list or any(isinstance(x, ast.Name) and x.id == 'self' and isinstance(x.ctx, ast.Store) for x in ast.walk(fn.node))


def guarded(fn, node):
    """is the node inside a try with handlers, or after a question what the library has"""
    for t in ast.walk(fn.node):
        if isinstance(t, ast.Try) and t.handlers and any(node is x for b in t.body for x in ast.walk(b)):
            return True
        if isinstance(t, ast.Name) and t.id in ('hasattr', 'getattr'):
            return True
    return False


VENV = '/opt/venv/bin/python'


def external(names, cs):
    """answers of extnames.py"""
    if not os.path.exists(VENV) or not names:
        return {'missing': {}, 'calls': {}}
    try:
        r = subprocess.run([VENV, '-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extnames.py')], input=json.dumps({'names': sorted(names), 'calls': cs}),
                           capture_output=True, text=True, timeout=120, env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR='/nonexistent'))
        return json.loads(r.stdout)
    except (OSError, ValueError, subprocess.SubprocessError):
        return {'missing': {}, 'calls': {}}


def libraries(mod, path, library):
    """uses of other libraries: names that are not there, calls that do not bind"""
    files = dict(repo_files())
    me = mod if library else 'example:' + mod
    if not library:
        files[me] = path
    pkg = calls.Package(files)
    names, where, cs, cl = set(), {}, [], []
    own = instance_names(pkg, me)
    bad = []
    for fn in [f for f in pkg.fns.values() if f.mod == me]:
        if fn.cls and fn.cls in own and hasattr(fn.node, 'args') and not selfless(pkg, fn):
            for x in ast.walk(fn.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load) and \
                        x.attr not in own[fn.cls] and not guarded(fn, x):
                    bad.append((x.lineno, '%s has no %s' % (fn.cls, x.attr)))
        for x in pkg.own(fn):
            e = x.func if isinstance(x, ast.Call) else x
            if isinstance(x, ast.ImportFrom) and x.module and x.level == 0 and x.module.split('.')[0] != 'shipgrav':
                for a in x.names:
                    if a.name != '*' and not guarded(fn, x):
                        names.add(x.module + '.' + a.name)
                        where.setdefault(x.module + '.' + a.name, x.lineno)
                continue
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if not isinstance(e, (ast.Attribute, ast.Name)) or not isinstance(root, ast.Name) or root.id not in pkg.imports[me] or hidden(fn, e):
                continue
            d = pkg.dotted(me, e)
            if not d or d.split('.')[0] == 'shipgrav' or guarded(fn, x):
                continue
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                names.add(d)
                where.setdefault(d, x.lineno)
            if isinstance(x, ast.Call) and not any(isinstance(a, ast.Starred) for a in x.args) and all(k.arg for k in x.keywords):
                cs.append([d, len(x.args), [k.arg for k in x.keywords]])
                cl.append(x.lineno)
    r = external(names, cs)
    bad += [(where[d], w) for d, w in r['missing'].items()]
    bad += [(cl[int(i)], w) for i, w in r['calls'].items()]
    return bad, len(names), len(cs)


def undefined(tree, src, path, top):
    glob = set()

    def go(t):
        for s in t.get_symbols():
            if s.is_global() and s.is_referenced() and not s.is_assigned() or t.get_type() == 'module' and s.is_referenced() and not s.is_assigned() and not s.is_imported():
                glob.add(s.get_name())
        for c in t.get_children():
            go(c)
    go(symtable.symtable(src, path, 'exec'))
    ok = top | set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__spec__', '__package__', '__class__'}
    for nm in sorted(glob - ok):
        for x in ast.walk(tree):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load):
                yield x.lineno, nm
                break


def callsites(mod, library):
    def check():
        path = repo_files()[mod] if library else scripts().get(mod)
        if path is None:
            return holds('no such script')
        bad, n, seen = sites(mod, path, library)
        more, nn, nc = libraries(mod, path, library)
        bad += more
        out = [violated('%s:%d: %s' % (short(path), l, w), (path, l), key='call-%s-%s' % (mod, w.split()[0])) for l, w in sorted(set(bad))]
        return out or holds('%d calls of functions of the package fit, %d names of libraries and %d calls of theirs' % (n, nn, nc), analysed=seen)
    check.__name__ = 'calls'
    return check


for _m in sorted(repo_files()):
    register('C31', 'calls in shipgrav/%s.py' % _m, callsites(_m, True))
for _m in sorted(scripts()):
    register('C31', 'calls in example-scripts/%s.py' % _m, callsites(_m, False))


# --------------------------------------------------------------------------
# database
# --------------------------------------------------------------------------
def dbline(*words):
    p = os.path.join(run.PKG, 'database.toml')
    try:
        for i, l in enumerate(open(p, encoding='utf-8')):
            if words and re.match(r'\s*[\["\']?%s\b' % re.escape(words[-1]), l):
                return (p, i + 1)
    except OSError:
        pass
    return (p, 1)


def usable(path, v):
    """what is wrong with a database entry"""
    sec = path[0]
    if sec == 'nav-talkers' and len(path) == 2:
        if v.op != 'str' or not re.fullmatch(r'[A-Z]{5}', v.args[0]):
            return 'is not the name of a talker'
    elif sec == 'BGM-scale' and len(path) == 2 or sec == 'dgs-stuff' and path[-1] == 'calibration_factor':
        if v.op != 'num' or not v.args[0] > 0:
            return 'is not a positive number'
    elif sec == 'bias-values' and len(path) == 3:
        if v.op != 'num':
            return 'is not a number'
    return None


def lookups(o):
    """{path: (found, value)} of the entries of the database that were looked up, and their lines"""
    return {(e[1], e[4]): (e[2], e[3]) for e in o.events if e[0] == 'lookup'}


def handled(fname, ship, given, kw, label):
    """the library decodes the vessel's records when the value is given: then the database has it too"""
    def check():
        w = fw.funcline('io', fname)
        o = io.call(fname, ship, kw=lambda I: kw)
        g = io.call(fname, ship, kw=lambda I: dict(kw, **given))
        if o.error or g.error:
            return undecided('%s(%s): %s' % (fname, ship, o.error or g.error), w)

        def frame(x):
            return x.value is not None and any(l.op == 'df' for l in tm.leaves(x.value))
        bad = []
        for (path, at), (found, v) in lookups(o).items():
            b = usable(path, v) if found and isinstance(v, tm.T) else None
            if b:
                bad.append(violated('database entry %s %s' % ('.'.join(path), b), dbline(*path), key='entry-%s-%s' % (path[0], path[-1])))
        if not bad and frame(g) and not frame(o):
            bad.append(violated('%s decodes the records of %s with %s given, and the database has no usable entry for it' % (fname, ship, ', '.join(given) or 'a parser'),
                                w, key='entry-%s-%s' % (fname, ship)))
        return bad or holds('%s(%s): entries %s' % (fname, ship, ', '.join(sorted('.'.join(p) for p, _ in lookups(o)))), analysed=sorted(o.analysed))
    check.__name__ = label
    register('C31', label, check)


for _s in sorted(io.BGM):
    handled('read_bgm_raw', _s, {'scale': num(5)}, {}, 'database entry for BGM records of %s' % _s)


def navhandled(ship):
    """the sentence of the vessel is decoded when a parser is given by name of its layout: the database lists its talker"""
    def check():
        w = fw.funcline('io', 'read_nav')
        src = open(repo_files()['io'], encoding='utf-8').read()
        mentioned = any(isinstance(n, ast.Constant) and n.value == ship for n in ast.walk(ast.parse(src)))
        o = io.call('read_nav', ship)
        if o.error:
            return undecided('read_nav(%s): %s' % (ship, o.error), w)
        out = []
        for (path, at), (found, v) in lookups(o).items():
            b = usable(path, v) if found and isinstance(v, tm.T) else None
            if b:
                out.append(violated('database entry %s %s' % ('.'.join(path), b), dbline(*path), key='entry-%s-%s' % (path[0], path[-1])))
        if not out and mentioned and not any(l.op == 'df' for l in tm.leaves(o.value)):
            out.append(violated('the library has a parser for %s, and read_nav finds no talker for it in the database' % ship, w, key='entry-nav-%s' % ship))
        return out or holds('read_nav(%s)' % ship, analysed=sorted(o.analysed))
    return check


for _s in sorted(set(io.PRE) - {'RideGP'}):
    register('C31', 'database entry for navigation of %s' % _s, navhandled(_s))


# --------------------------------------------------------------------------
# the example workflows, interpreted abstractly from beginning to end
# --------------------------------------------------------------------------
PAIRED = {'eotvos_full': (0, 1, 2), 'longman_tide_prediction': (0, 1, 2), 'free_air_second_order': (0, 1), 'calc_cross_coupling_coefficients': (0, 1, 2, 3, 4, 5),
          'up_vecs': (1, 2, 3), 'latlon_to_EN': (0, 1), 'ENvel_to_course_heading': (0, 1), 'rotate_acceleration_EN_to_cl': (0, 1, 2), 'grav1d_padded': (0, 1)}
PASHR = '$PASHR,{GPSTime:g},{HeadingTrue:g},T,{Pitch:g},{Roll:g},{Heave:g},{AccuracyPitch:g},{AccuracyRoll:g},{AccuracyHeave:g},{FlagAccuracyHeading:d},{FlagIMU:d}*{Checksum:x}'
IXBLUE = {'IXBlue': {'category': 'device_type', 'format': {'PASHR': PASHR}, 'fields': {k: {'units': 'Degrees'} for k in ('Pitch', 'Roll', 'Heave', 'HeadingTrue')}}}


class Ex:
    """models of what the scripts use besides the library"""

    def __init__(self):
        self.n = 0
        self.paired = []

    def series(self, I, n, tag):
        self.n += 1
        return I.alloc('arr', sym('%s_%d' % (tag, self.n), 'arr', rank=1, elem='num', len=n))

    def members(self, I, args, kw):
        return mk('members', *[I.freeze(x) for k, x in kw.items() if k == 'members'], *[I.freeze(x) for x in args])

    def retrieve(self, I, args, kw):
        p = I.freeze(kw['processor']) if 'processor' in kw else None
        if p is not None and p.op == 'members' and p.args and p.args[0].op == 'vec' and all(x.op == 'str' for x in p.args[0].args):
            return I.newlist([tm.string('cache/' + x.args[0]) for x in p.args[0].args])
        return tm.unk_fresh('retrieve')

    def setup(self, I):
        I.yaml_content = IXBLUE
        I.stubs.update({'pooch.Unzip': self.members, 'pooch.Untar': self.members, 'pooch.retrieve': self.retrieve,
                        'scipy.interpolate.interp1d': self.interp1d, 'scipy.signal.filtfilt': self.filtfilt, 'numpy.loadtxt': self.loadtxt})
        I.oncall = lambda f, env: self.called(I, f, env)

    def interp1d(self, I, args, kw):
        def at(I, a, k):
            t = I.freeze(a[0])
            return self.series(I, length(t), 'interpolated') if isarr(t) else tm.unk_fresh('interpolated', t)
        return ip.Py('interpolator', at)

    def filtfilt(self, I, args, kw):
        t = I.freeze(args[2])
        return self.series(I, length(t), 'filtered') if isarr(t) and tm.rank(t) == 1 else tm.unk_fresh('filtered', t)

    def loadtxt(self, I, args, kw):
        self.n += 1
        return self.series(I, sym('LOADED_%d' % self.n, 'num', int=True, lo=tm.Fr(1)), 'loaded')

    def called(self, I, f, env):
        if f.name in PAIRED and I.frames and str(getattr(I.frames[-1], 'modname', '')).startswith('example:'):
            a = f.node.args
            names = [p.arg for p in a.posonlyargs + a.args]
            ls = []
            for i in PAIRED[f.name]:
                v = env.get(names[i]) if i < len(names) else None
                t = I.freeze(v) if v is not None else None
                if t is not None and isarr(t):
                    ls.append((names[i], length(t)))
            self.paired.append((f.name, ls, I.line))


def evaluate(name, path, seconds=300):
    """(interpreter, models, error): the module level of a script"""
    files = dict(repo_files())
    files['example:' + name] = path
    o = run.Outcome()
    ex = Ex()
    I = ip.Interp(files)
    ex.setup(I)

    def go():
        try:
            I.module('example:' + name)
        except ip.Dead:
            I.st = None
    try:
        run.limited(seconds, go)
    except run.Timeout:
        o.error = 'time limit of %d s reached' % seconds
    except RecursionError:
        o.error = 'recursion limit of the analyser reached'
    except tm.Overflow as e:
        o.error = 'value graph too large (%s)' % e
    except ip.Unsupported as e:
        if I.st is not None:
            o.error = 'unsupported construct: %s' % e
    except Exception as e:                      # noqa: BLE001
        o.error = 'analyser error %s: %s' % (type(e).__name__, e)
        if os.environ.get('SA_DEBUG'):
            raise
    o.events, o.analysed, o.undecided = I.events, I.analysed, I.undecided
    return I, ex, o


def at(l):
    return '%s:%s' % (short(l[0]), l[1]) if isinstance(l, tuple) and l[0] else '?'


SAYS = {'bad-call': lambda e: '%s is called wrongly: %s' % (e[1], e[2]), 'bad-unpack': lambda e: '%s values are unpacked into %s' % (e[1], e[2]),
        'no-attribute': lambda e: '%s has no %s' % (e[1], e[2]), 'no-column': lambda e: 'the data frame has no column %s' % e[1]}


def misuses(o):
    for e in o.events:
        if not e.certain:
            continue
        if e[0] in SAYS:
            yield e[-1], SAYS[e[0]](e), '%s-%s' % (e[0], e[1])
        elif e[0] == 'lookup':
            if not e[2]:
                yield e[-1], 'the database has no entry %s' % '.'.join(e[1]), 'entry-' + '-'.join(e[1])
            elif isinstance(e[3], tm.T):
                b = usable(e[1], e[3])
                if b:
                    yield dbline(*e[1]), 'the database entry %s %s' % ('.'.join(e[1]), b), 'entry-' + '-'.join(e[1])


def workflow(name):
    def check():
        path = scripts().get(name)
        if path is None:
            return holds('no such script')
        I, ex, o = evaluate(name, path)
        out = {}
        for l, what, key in misuses(o):
            out.setdefault((l, what), violated('%s: %s' % (at(l), what), l if isinstance(l, tuple) else None, key=key))
        for e in o.events:
            if e[0] == 'lookup' and e[1][0] == 'bias-values' and isinstance(e[3], tm.T) and e[3].op == 'num' and e[3].args[0] == -999:
                out[e[-1], e[1]] = violated('%s: the bias of %s is the mark of a missing value' % (at(e[-1]), '.'.join(e[1][1:])), e[-1], key='entry-' + '-'.join(e[1]))
        C = cm.Comparer()
        for fname, ls, l in ex.paired:
            for (p, a), (q, b) in zip(ls, ls[1:]):
                r = C.cmp(a, b)
                if r.v == cm.DIFF:
                    out[l, fname] = violated('%s: %s pairs %s and %s, which have different numbers of samples' % (at(l), fname, p, q), l, key='paired-%s-%s' % (name, fname))
        if not out and o.error:
            return undecided('%s: %s (line %s)' % (name, o.error, at(I.line)), (path, 1))
        if not out and I.st is None:
            rs = [e for e in o.events if e[0] == 'raise']
            l = rs[-1][-1] if rs else None
            return violated('%s: the workflow cannot complete: %s' % (at(l), rs[-1][1] if rs else 'an exception'), l, key='incomplete-%s' % name)
        return list(out.values()) or holds('%s: %d functions of the library entered, %d calls that pair samples' % (name, len({a[2] for a in o.analysed}), len(ex.paired)),
                                           analysed=sorted('%s' % (a,) for a in o.analysed), unmodelled=len(o.undecided))
    check.__name__ = 'workflow'
    return check


for _m in sorted(scripts()):
    register('C31', 'workflow example-scripts/%s.py' % _m, workflow(_m))


# --------------------------------------------------------------------------
# inside the library: every configuration the other properties study
# --------------------------------------------------------------------------
def inside(label, outcomes):
    def check():
        bad, seen, n, errors = {}, set(), 0, []
        for what, f in outcomes():
            o = f()
            n += 1
            seen |= o.analysed
            if o.error:
                errors.append('%s: %s' % (what, o.error))
            for l, w, key in misuses(o):
                bad.setdefault((l, w), violated('%s: %s (%s)' % (at(l), w, what), l if isinstance(l, tuple) else None, key=key))
        if not bad and errors:
            return undecided(errors[0], None)
        return list(bad.values()) or holds('%d configurations, %d functions entered' % (n, len({a[2] for a in seen})), analysed=sorted('%s' % (a,) for a in seen))
    check.__name__ = label
    register('C31', label, check)


def numerics(mod, fname):
    def go():
        seen = set()
        for prop, label, m, f, make in fw.CONFIGS:
            if (m, f) == (mod, fname) and label not in seen and prop != 'C30':
                seen.add(label)
                yield label, lambda make=make: fw.code(mod, fname, make, seconds=60)
    return go


for _mod, _f in sorted({(m, f) for _, _, m, f, _ in fw.CONFIGS}):
    inside('uses inside %s.%s' % (_mod, _f), numerics(_mod, _f))


def reading(fname, ships, kw=None):
    def go():
        for s in ships:
            yield s, lambda s=s: io.call(fname, s, kw=kw)
            yield s + ', list', lambda s=s: io.call(fname, s, arg=io.paths, kw=kw)
    return go


NAV = sorted(set(io.PRE) - {'RideGP'}) + ['Nonesuch']
for _f, _ss in (('read_nav', NAV), ('read_bgm_raw', sorted(io.BGM) + ['Nonesuch']), ('read_bgm_rgs', ['Atlantis', 'Nonesuch']),
                ('read_dgs_laptop', NAV), ('read_dgs_raw', NAV)):
    inside('uses inside io.%s' % _f, reading(_f, _ss))
