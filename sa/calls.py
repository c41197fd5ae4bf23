"""Functions of the package, references among them, and the resources and effects of each (over the syntax tree)."""
import ast


class Fn:
    """a function, method, lambda-free nested function, or the body of a module"""

    def __init__(self, mod, path, name, node, cls=None, outer=None):
        self.mod, self.path, self.name, self.node, self.cls, self.outer = mod, path, name, node, cls, outer
        self.inner = {}

    @property
    def full(self):
        return '%s.%s' % (self.mod, self.name)

    def body(self):
        return self.node.body


class Package:
    def __init__(self, files):
        self.files, self.trees, self.imports, self.fns = files, {}, {}, {}
        for mod, path in files.items():
            tree = ast.parse(open(path, encoding='utf-8').read())
            self.trees[mod] = tree
            imp = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom):
                    base = ('shipgrav' if n.level else '') + ('.' if n.level and n.module else '') + (n.module or '')
                    for a in n.names:
                        imp[a.asname or a.name] = base + '.' + a.name
            self.imports[mod] = imp
            top = Fn(mod, path, '<module>', tree)
            self.fns[mod, '<module>'] = top
            self._collect(mod, path, tree.body, '', None, top)

    def _collect(self, mod, path, body, prefix, cls, outer):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(mod, path, prefix + n.name, n, cls, outer)
                self.fns[mod, prefix + n.name] = f
                if outer is not None:
                    outer.inner[n.name] = f
                self._collect(mod, path, n.body, prefix + n.name + '.', None, f)
            elif isinstance(n, ast.ClassDef):
                self._collect(mod, path, n.body, prefix + n.name + '.', n.name, outer if prefix == '' else outer)
            else:
                for part in ('body', 'orelse', 'finalbody'):
                    b = getattr(n, part, None)
                    if isinstance(b, list):
                        self._collect(mod, path, b, prefix, cls, outer)
                for h in getattr(n, 'handlers', []):
                    self._collect(mod, path, h.body, prefix, cls, outer)
                for c in getattr(n, 'cases', []):
                    self._collect(mod, path, c.body, prefix, cls, outer)

    def dotted(self, mod, e):
        """the dotted name an expression denotes, through the module's imports"""
        if isinstance(e, ast.Name):
            return self.imports[mod].get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value)
            return b + '.' + e.attr if b else None
        return None

    def resolve(self, fn, e):
        """the function of the package an expression names"""
        if isinstance(e, ast.Name):
            f = fn
            while f is not None:
                if e.id in f.inner:
                    return f.inner[e.id]
                f = f.outer
            g = self.fns.get((fn.mod, e.id))
            if g is not None:
                return g
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ('self', 'cls') and fn.cls:
            return self.fns.get((fn.mod, fn.cls + '.' + e.attr))
        d = self.dotted(fn.mod, e)
        if d:
            p = d.split('.')
            if p[0] == 'shipgrav':
                p = p[1:]
            if len(p) >= 2 and p[0] in self.files:
                return self.fns.get((p[0], '.'.join(p[1:])))
        return None

    def own(self, fn):
        """nodes of a function without those of the functions defined in it (lambdas and comprehensions stay)"""
        todo = list(reversed(fn.node.body)) + [d for d in getattr(fn.node, 'decorator_list', [])]
        if hasattr(fn.node, 'args'):
            todo += fn.node.args.defaults + [d for d in fn.node.args.kw_defaults if d is not None]
        out = []
        while todo:
            n = todo.pop()
            out.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(n, ast.ClassDef) and fn.name == '<module>':
                continue
            todo.extend(ast.iter_child_nodes(n))
        return out

    def edges(self, fn):
        """[(callee, line)]: every mention of a function of the package counts as a possible call"""
        out = []
        for n in self.own(fn):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load):
                g = self.resolve(fn, n)
                if g is not None and g is not fn:
                    out.append((g, n.lineno))
        if fn.name != '<module>':
            for g in fn.inner.values():
                out.append((g, g.node.lineno))
        return out

    def public(self):
        """the entry points: functions and methods without a leading underscore, and the picker's methods"""
        for (mod, name), f in self.fns.items():
            if f.outer is not None and f.outer.name == '<module>':
                if f.cls or not name.startswith('_'):
                    yield f

    def reach(self, fn, stop=()):
        """{function: (caller, line)} reachable from fn"""
        seen = {fn: None}
        todo = [fn]
        while todo:
            f = todo.pop()
            for g, l in self.edges(f):
                if g not in seen and g not in stop:
                    seen[g] = (f, l)
                    todo.append(g)
        return seen

    def chain(self, seen, f):
        out = []
        while f is not None:
            p = seen[f]
            out.append(f.name + (' (called at line %d)' % p[1] if p else ''))
            f = p[0] if p else None
        return ' <- '.join(out)


# --------------------------------------------------------------------------
# effects on the outside world
# --------------------------------------------------------------------------
OS = {'remove', 'unlink', 'rename', 'renames', 'replace', 'mkdir', 'makedirs', 'rmdir', 'removedirs', 'chmod', 'chown', 'truncate', 'ftruncate', 'symlink',
      'link', 'utime', 'chdir', 'fchdir', 'putenv', 'unsetenv', 'umask', 'system', 'popen', 'mkfifo', 'write', 'kill', 'setxattr'}
MODS = {'shutil': {'copy', 'copy2', 'copyfile', 'copytree', 'move', 'rmtree', 'copymode', 'copystat', 'make_archive', 'unpack_archive', 'chown'},
        'subprocess': {'run', 'call', 'Popen', 'check_call', 'check_output', 'getoutput'},
        'tempfile': {'mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'TemporaryFile', 'TemporaryDirectory'},
        'numpy': {'save', 'savez', 'savez_compressed', 'savetxt', 'seterr', 'set_printoptions', 'seterrcall'},
        'numpy.random': {'seed', 'set_state'}, 'random': {'seed', 'setstate'}, 'locale': {'setlocale'}, 'time': {'tzset'},
        'pandas': {'set_option', 'reset_option'}, 'logging': {'basicConfig'},
        'warnings': {'filterwarnings', 'simplefilter', 'resetwarnings'}, 'sys': {'setrecursionlimit', 'settrace', 'setprofile', 'exit'}, 'atexit': {'register'}}
METHODS = {'write_text', 'write_bytes', 'touch', 'unlink', 'mkdir', 'rmdir', 'symlink_to', 'hardlink_to', 'savefig', 'tofile'}
PANDAS = {'to_csv', 'to_excel', 'to_json', 'to_parquet', 'to_hdf', 'to_feather', 'to_pickle', 'to_stata', 'to_sql', 'to_latex', 'to_html', 'to_markdown', 'to_xml', 'to_string'}
OPENERS = {'open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'os.fdopen'}


def const(e):
    return e.value if isinstance(e, ast.Constant) else None


def mode_of(call, pos=1, default='r'):
    """(literal mode or None)"""
    m = call.args[pos] if len(call.args) > pos else next((k.value for k in call.keywords if k.arg == 'mode'), None)
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if m is None:
        return default
    if isinstance(m, ast.IfExp):
        a, b = const(m.body), const(m.orelse)
        return a + b if isinstance(a, str) and isinstance(b, str) else None
    return const(m) if isinstance(const(m), str) else None


def effects(pkg, fn):
    """[(line, what, sure)]: constructs of fn that change files, processes or the state of other modules"""
    out = []
    guarded = set()
    for n in pkg.own(fn):
        if isinstance(n, ast.With) and any('catch_warnings' in ast.unparse(i) for i in n.items):
            guarded |= {id(x) for x in ast.walk(n)}
    for n in pkg.own(fn):
        if isinstance(n, ast.Call):
            d = pkg.dotted(fn.mod, n.func) or ''
            last = n.func.attr if isinstance(n.func, ast.Attribute) else d.split('.')[-1]
            base = d.rsplit('.', 1)[0] if '.' in d else ''
            if d in OPENERS or last == 'open' and isinstance(n.func, ast.Attribute) and base not in ('os', 'mmap', 'webbrowser', 'tarfile', 'zipfile', 'shelve', 'PIL.Image'):
                m = mode_of(n, 1 if d in OPENERS else 0)
                if m is None:
                    out.append((n.lineno, 'opens a file in a mode that is not a literal', False))
                elif set(m) & set('wax+'):
                    out.append((n.lineno, 'opens a file for writing (mode %r)' % m, True))
            elif d == 'os.open':
                f = ast.unparse(n.args[1]) if len(n.args) > 1 else ''
                if any(x in f for x in ('O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND')):
                    out.append((n.lineno, 'opens a file for writing (%s)' % f, True))
            elif base == 'os' and last in OS or last in MODS.get(base, ()):
                if not (base == 'warnings' and id(n) in guarded):
                    out.append((n.lineno, 'calls %s' % d, True))
            elif last in METHODS and isinstance(n.func, ast.Attribute) and d not in ('pathlib.Path',):
                out.append((n.lineno, 'calls .%s()' % last, True))
            elif last in PANDAS and isinstance(n.func, ast.Attribute):
                a = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ('path', 'path_or_buf', 'buf', 'excel_writer')), None)
                if a is not None and const(a) is None and not isinstance(a, ast.Constant):
                    out.append((n.lineno, 'writes a file by .%s()' % last, False))
                elif isinstance(const(a), str) if a is not None else False:
                    out.append((n.lineno, 'writes a file by .%s()' % last, True))
            elif d == 'numpy.memmap' or d == 'numpy.lib.format.open_memmap':
                m = mode_of(n, 2, 'r+')
                if m != 'r' and m != 'c':
                    out.append((n.lineno, 'maps a file for writing', m is not None))
            elif d == 'mmap.mmap':
                k = {x.arg: ast.unparse(x.value) for x in n.keywords}
                if 'WRITE' in k.get('access', '') or 'WRITE' in k.get('prot', ''):
                    out.append((n.lineno, 'maps a file for writing', True))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        v = x.value
                        d = pkg.dotted(fn.mod, v) or ''
                        root = d.split('.')[0]
                        r = v
                        while isinstance(r, (ast.Attribute, ast.Subscript)):
                            r = r.value
                        if isinstance(r, ast.Name) and r.id in pkg.imports[fn.mod] and not shadowed(fn, r.id) and root:
                            full = pkg.imports[fn.mod][r.id]
                            tail = full.split('.')[-1]
                            if root == 'shipgrav' and tail not in pkg.files or root != 'shipgrav':
                                out.append((n.lineno, 'assigns to %s' % ast.unparse(x), True))
                            else:
                                out.append((n.lineno, 'assigns to %s' % ast.unparse(x), True))
    return out


def shadowed(fn, name):
    """is the name a local of the function"""
    a = getattr(fn.node, 'args', None)
    if a is not None and any(p.arg == name for p in a.args + a.kwonlyargs + a.posonlyargs):
        return True
    return fn.name != '<module>' and any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(fn.node))


# --------------------------------------------------------------------------
# open resources: a typestate analysis over all paths, including the exceptional ones
# --------------------------------------------------------------------------
RESOURCES = OPENERS | {'mmap.mmap', 'os.open', 'numpy.memmap', 'zipfile.ZipFile', 'tarfile.open', 'sqlite3.connect', 'h5py.File', 'pandas.HDFStore',
                       'pandas.ExcelFile', 'pandas.ExcelWriter', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.SpooledTemporaryFile', 'fileinput.input',
                       'netCDF4.Dataset', 'socket.socket', 'urllib.request.urlopen', 'shelve.open', 'io.FileIO'}
WRAP = {'io.TextIOWrapper', 'io.BufferedReader', 'contextlib.closing'}
LIMIT = 3000


class TooMany(Exception):
    pass


class Resources:
    """states: (bindings, open) with bindings a frozenset of (variable, value), value a resource id, 'none' or 'value'; open a frozenset of ids"""

    def __init__(self, pkg, summaries=None):
        self.pkg = pkg
        self.sum = summaries if summaries is not None else {}
        self.busy = set()
        self.sites = {}            # id -> (path, line, text)

    # -- creation -------------------------------------------------------------
    def creates(self, fn, e):
        """text of the resource an expression makes, or None"""
        if not isinstance(e, ast.Call):
            return None
        d = self.pkg.dotted(fn.mod, e.func) or ''
        g = self.pkg.resolve(fn, e.func)
        if g is not None:
            return 'the result of %s' % g.name if self.summary(g)['returns'] else None
        if isinstance(e.func, ast.Name) and shadowed(fn, e.func.id):
            return None
        if d in RESOURCES:
            return d
        if d in WRAP:
            return d
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'open' and d.split('.')[0] not in ('webbrowser', 'PIL'):
            return '.open'
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'makefile':
            return '.makefile'
        if d in ('pandas.read_csv', 'pandas.read_table', 'pandas.read_fwf', 'pandas.read_json'):
            for k in e.keywords:
                if k.arg == 'chunksize' and const(k.value) is None and not isinstance(k.value, ast.Constant) or k.arg == 'chunksize' and const(k.value) or k.arg == 'iterator' and const(k.value):
                    return d + ' with ' + k.arg
        return None

    def summary(self, fn):
        """{'returns': may return an open resource, 'closes': parameters closed on every exit}"""
        if fn in self.sum:
            return self.sum[fn]
        if fn in self.busy or fn.name == '<module>':
            return {'returns': False, 'closes': frozenset()}
        self.busy.add(fn)
        try:
            r = Walk(self, fn).run()
        finally:
            self.busy.discard(fn)
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.pkg.own(fn))
        out = {'returns': r.returned and not gen, 'closes': frozenset()}
        names = {n.func.value.id for n in ast.walk(fn.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'close' and
                 isinstance(n.func.value, ast.Name)} | {i.context_expr.id for n in ast.walk(fn.node) if isinstance(n, ast.With) for i in n.items if isinstance(i.context_expr, ast.Name)}
        ps = [p.arg for p in fn.node.args.args]
        closes = set()
        for p in ps:
            if p in names:
                w = Walk(self, fn, given=p)
                w.run()
                if not w.leaks and not w.escapes:
                    closes.add(p)
        out['closes'] = frozenset(closes)
        self.sum[fn] = out
        return out


QUIET = (ast.Pass, ast.Break, ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef)


def risky(e):
    """can evaluating the expression raise"""
    if e is None:
        return False
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Yield, ast.YieldFrom, ast.Await, ast.Starred, ast.comprehension, ast.Compare, ast.FormattedValue)):
            if isinstance(n, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                continue
            if isinstance(n, ast.Attribute) and n.attr == 'closed':
                continue
            return True
    return False


class Walk:
    def __init__(self, res, fn, given=None):
        self.res, self.fn, self.given = res, fn, given
        self.leaks = []            # (site id, how, line)
        self.escapes = []          # (site id, line): stored somewhere the analysis does not follow
        self.returned = False
        self.sites = {}
        self.states = 0
        tests = {}
        for n in ast.walk(fn.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                for x in ast.walk(n.test):
                    if stable(x):
                        k = ast.unparse(x)
                        tests.setdefault(k, [0, {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}])[0] += 1
        self.repeated = {k: names for k, (c, names) in tests.items() if c > 1}

    def run(self):
        s0 = (frozenset(), frozenset())
        if self.given:
            s0 = (frozenset({(self.given, 'given')}), frozenset({'given'}))
            self.sites['given'] = (self.fn.node.lineno, 'the file passed')
        norm, exits = self.block(self.fn.node.body, {s0})
        for s in norm:
            self.end(s, 'at the end of the function', None)
        for kind, s, line in exits:
            if kind == 'return':
                self.end(s, 'when the function returns', line)
            elif kind == 'raise':
                self.end(s, 'when an exception is raised', line)
        return self

    def end(self, s, how, line):
        for r in s[1]:
            if (r, how.split(' ')[1]) not in {(a, b.split(' ')[1]) for a, b, _ in self.leaks}:
                self.leaks.append((r, how, line))

    # -- states ---------------------------------------------------------------
    def bind(self, s, name, val):
        b = frozenset((n, v) for n, v in s[0] if n != name and not (n[0] == '?' and name in self.repeated.get(n[1:], ())))
        return (b | {(name, val)} if val != 'value' else b, s[1])

    @staticmethod
    def look(s, name):
        for n, v in s[0]:
            if n == name:
                return v
        return 'value'

    @staticmethod
    def close(s, rid):
        return (s[0], s[1] - {rid})

    def make(self, s, e, line):
        rid = (self.fn.path, e.lineno, e.col_offset)
        self.sites[rid] = (e.lineno, self.res.creates(self.fn, e))
        if rid in s[1]:
            self.leaks.append((rid, 'when opened again', line))
        return (s[0], s[1] | {rid}), rid

    # -- expressions ----------------------------------------------------------
    def value(self, e, ss, exits, line):
        """evaluate e in the states: [(state, value)]"""
        out = set()
        if isinstance(e, ast.IfExp):
            t, f = self.test(e.test, ss, exits, line)
            return self.value(e.body, t, exits, line) | self.value(e.orelse, f, exits, line)
        if isinstance(e, ast.Constant) and e.value is None:
            return {(s, 'none') for s in ss}
        if isinstance(e, ast.Name):
            return {(s, self.look(s, e.id)) for s in ss}
        if isinstance(e, ast.NamedExpr):
            for s, v in self.value(e.value, ss, exits, line):
                out.add((self.bind(s, e.target.id, v), v))
            return out
        if isinstance(e, (ast.Tuple, ast.List)) and not any(self.res.creates(self.fn, x) for x in e.elts) and not any(isinstance(x, ast.Name) for x in e.elts):
            pass
        made = self.res.creates(self.fn, e)
        ss = self.inside(e, ss, exits, line, skip=made)
        if made:
            if made in WRAP and e.args:
                for s, v in self.value(e.args[0], ss, exits, line):
                    if v in ('value', 'none'):
                        continue
                    out.add((s, v))
                if out:
                    return out
                return {(s, 'value') for s in ss}
            for s in ss:
                exits.append(('raise', s, line))
                s2, rid = self.make(s, e, line)
                out.add((s2, rid))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('enter_context', 'push') and e.args:
            # the stack releases it
            for s, v in self.value(e.args[0], ss, exits, line):
                out.add((self.close(s, v), 'value'))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'callback' and e.args and isinstance(e.args[0], ast.Attribute) and e.args[0].attr == 'close' \
                and isinstance(e.args[0].value, ast.Name):
            return {(self.close(s, self.look(s, e.args[0].value.id)), 'value') for s in ss}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('close', '__exit__') and isinstance(e.func.value, ast.Name):
            return {(self.close(s, self.look(s, e.func.value.id)), 'none') for s in ss}
        if isinstance(e, ast.Call) and self.res.pkg.dotted(self.fn.mod, e.func) == 'os.close' and e.args and isinstance(e.args[0], ast.Name):
            return {(self.close(s, self.look(s, e.args[0].id)), 'none') for s in ss}
        if isinstance(e, ast.Call):
            g = self.res.pkg.resolve(self.fn, e.func)
            if g is not None:
                cl = self.res.summary(g)['closes']
                ps = [p.arg for p in g.node.args.args]
                new = set()
                for s in ss:
                    for i, a in enumerate(e.args):
                        if isinstance(a, ast.Name) and i < len(ps) and ps[i] in cl:
                            s = self.close(s, self.look(s, a.id))
                    for k in e.keywords:
                        if isinstance(k.value, ast.Name) and k.arg in cl:
                            s = self.close(s, self.look(s, k.value.id))
                    new.add(s)
                ss = new
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('append', 'add', 'setdefault', 'insert', 'put', 'extend', 'register'):
                for s in ss:
                    for a in e.args:
                        if isinstance(a, ast.Name) and self.look(s, a.id) not in ('none', 'value'):
                            self.escapes.append((self.look(s, a.id), line))
        if risky(e):
            for s in ss:
                exits.append(('raise', s, line))
        return {(s, 'value') for s in ss}

    def inside(self, e, ss, exits, line, skip=None):
        """resources made inside an expression and bound to nothing stay open"""
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.expr) or isinstance(n, (ast.keyword, ast.comprehension)):
                if isinstance(n, ast.Call) and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('enter_context', 'push') and n in e.args:
                    continue
                if isinstance(e, ast.Call) and skip in WRAP and n in e.args:
                    continue
                sub = n.value if isinstance(n, ast.keyword) else n
                if isinstance(sub, ast.expr) and (self.res.creates(self.fn, sub) or isinstance(sub, ast.NamedExpr)):
                    ss = {s for s, _ in self.value(sub, ss, exits, line)}
                else:
                    ss = self.inside(n, ss, exits, line)
        return ss

    def test(self, e, ss, exits, line):
        """(states where the test may be true, states where it may be false)"""
        k = ast.unparse(e) if stable(e) else None
        if k in self.repeated:
            # the same condition tested again has the same outcome
            known = {True: set(), False: set(), None: set()}
            for s in ss:
                v = self.look(s, '?' + k)
                known[v if type(v) is bool else None].add(s)
            t, f = self.test1(e, known[None], exits, line) if known[None] else (set(), set())
            return ({(s[0] | {('?' + k, True)}, s[1]) for s in t} | known[True], {(s[0] | {('?' + k, False)}, s[1]) for s in f} | known[False])
        return self.test1(e, ss, exits, line)

    def test1(self, e, ss, exits, line):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e.operand, ss, exits, line)
            return f, t
        if isinstance(e, ast.BoolOp):
            done = set()
            cur = set(ss)
            for v in e.values:
                t, f = self.test(v, cur, exits, line)
                if isinstance(e.op, ast.And):
                    done |= f
                    cur = t
                else:
                    done |= t
                    cur = f
            return (cur, done) if isinstance(e.op, ast.And) else (done, cur)
        name, isnone = None, None
        if isinstance(e, ast.Name):
            name, isnone = e.id, False
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                name, isnone = e.left.id, True
            elif isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                name, isnone = e.left.id, False
        elif isinstance(e, ast.Attribute) and e.attr == 'closed' and isinstance(e.value, ast.Name):
            t, f = set(), set()
            for s in ss:
                v = self.look(s, e.value.id)
                (t if v not in ('none', 'value') and v not in s[1] else f if v not in ('none', 'value') else t).add(s)
                if v in ('none', 'value'):
                    f.add(s)
            return t, f
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('hasattr', 'isinstance') and e.args and isinstance(e.args[0], ast.Name):
            t, f = set(), set()
            for s in ss:
                v = self.look(s, e.args[0].id)
                if e.func.id == 'hasattr' and v not in ('none', 'value'):
                    t.add(s)
                else:
                    t.add(s)
                    f.add(s)
            return t, f
        elif isinstance(e, ast.Constant):
            return (set(ss), set()) if e.value else (set(), set(ss))
        if name is not None:
            t, f = set(), set()
            for s in ss:
                v = self.look(s, name)
                if v == 'none':
                    (t if isnone else f).add(s)
                elif v != 'value':
                    (f if isnone else t).add(s)
                else:
                    t.add(s)
                    f.add(s)
            return t, f
        ss = {s for s, _ in self.value(e, ss, exits, line)}
        return set(ss), set(ss)

    # -- statements -----------------------------------------------------------
    def block(self, stmts, ss):
        exits = []
        for st in stmts:
            if not ss:
                break
            ss = self.stmt(st, ss, exits)
            self.states += len(ss)
            if len(ss) > LIMIT or self.states > 100 * LIMIT:
                raise TooMany()
        return ss, list({(k, s): (k, s, l) for k, s, l in reversed(exits)}.values())

    def assign(self, target, pairs, line):
        out = set()
        for s, v in pairs:
            if isinstance(target, ast.Name):
                out.add(self.bind(s, target.id, v))
            else:
                if v not in ('none', 'value') and v in s[1]:
                    self.escapes.append((v, line))
                    s = self.close(s, v)          # owned by an object from here on
                for n in ast.walk(target):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        s = self.bind(s, n.id, 'value')
                out.add(s)
        return out

    def stmt(self, n, ss, exits):
        line = n.lineno
        if isinstance(n, QUIET):
            if isinstance(n, (ast.Break, ast.Continue)):
                exits.extend(('break' if isinstance(n, ast.Break) else 'continue', s, line) for s in ss)
                return set()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                return ss
            return ss
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return ss
            targets = n.targets if isinstance(n, ast.Assign) else [n.target]
            if len(targets) == 1 and isinstance(targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(targets[0].elts) == len(n.value.elts):
                for t, e in zip(targets[0].elts, n.value.elts):
                    ss = self.assign(t, self.value(e, ss, exits, line), line)
                return ss
            pairs = self.value(n.value, ss, exits, line)
            for t in targets:
                if risky(t):
                    exits.extend(('raise', s, line) for s, _ in pairs)
                new = set()
                for s, v in pairs:
                    for s2 in self.assign(t, {(s, v)}, line):
                        new.add((s2, v))
                pairs = new
            return {s for s, _ in pairs}
        if isinstance(n, ast.AugAssign):
            return {s for s, _ in self.value(n.value, ss, exits, line)}
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return ss
            v = n.value
            if isinstance(v, (ast.Yield, ast.YieldFrom)):
                if v.value is not None:
                    ss = {s for s, _ in self.value(v.value, ss, exits, line)}
                exits.extend(('raise', s, line) for s in ss)
                return ss
            return {s for s, _ in self.value(v, ss, exits, line)}
        if isinstance(n, ast.Return):
            if n.value is None:
                exits.extend(('return', s, line) for s in ss)
                return set()
            elts = n.value.elts if isinstance(n.value, (ast.Tuple, ast.List)) else [n.value]
            done = {s: () for s in ss}
            cur = {(s, frozenset()) for s in ss}
            for e in elts:
                new = set()
                for s, vs in cur:
                    for s2, v in self.value(e, {s}, exits, line):
                        new.add((s2, vs | {v}))
                cur = new
            for s, vs in cur:
                for v in vs:
                    if v not in ('none', 'value') and v in s[1]:
                        self.returned = True
                        s = self.close(s, v)
                exits.append(('return', s, line))
            return set()
        if isinstance(n, ast.Raise):
            for s, _ in self.value(n.exc, ss, exits, line) if n.exc is not None else {(s, 0) for s in ss}:
                exits.append(('raise', s, line))
            return set()
        if isinstance(n, ast.Assert):
            t, f = self.test(n.test, ss, exits, line)
            exits.extend(('raise', s, line) for s in f)
            return t
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    ss = {self.bind(s, t.id, 'value') for s in ss}
            return ss
        if isinstance(n, ast.If):
            t, f = self.test(n.test, ss, exits, line)
            a, ea = self.block(n.body, t) if t else (set(), [])
            b, eb = self.block(n.orelse, f) if f and n.orelse else (f, [])
            exits += ea + eb
            return a | b
        if isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            return self.loop(n, ss, exits)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            return self.with_(n, n.items, ss, exits)
        if isinstance(n, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            return self.try_(n, ss, exits)
        if isinstance(n, ast.Match):
            ss = {s for s, _ in self.value(n.subject, ss, exits, line)}
            out = set(ss)
            for c in n.cases:
                a, ea = self.block(c.body, ss)
                out |= a
                exits += ea
            return out
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            exits.extend(('raise', s, line) for s in ss)
            return ss
        return ss

    def loop(self, n, ss, exits):
        line = n.lineno
        after = set()
        first = ss
        if isinstance(n, (ast.For, ast.AsyncFor)):
            first = {s for s, _ in self.value(n.iter, ss, exits, line)}
            if risky(n.iter) or True:
                exits.extend(('raise', s, line) for s in first if s[1])
        seen = set()
        cur = set(first)
        while cur - seen:
            new = cur - seen
            seen |= new
            if len(seen) > LIMIT:
                raise TooMany()
            if isinstance(n, ast.While):
                t, f = self.test(n.test, new, exits, line)
                after |= f
            else:
                t = {self.bind(s, x.id, 'value') for s in new for x in [n.target] if isinstance(x, ast.Name)} if isinstance(n.target, ast.Name) else new
                after |= new
            if not t:
                continue
            b, eb = self.block(n.body, t)
            cur = set(b)
            for k, s, l in eb:
                if k == 'continue':
                    cur.add(s)
                elif k == 'break':
                    after.add(('b', s))
                else:
                    exits.append((k, s, l))
        brk = {s[1] for s in after if s[0] == 'b'}
        norm = {s for s in after if s[0] != 'b'}
        if n.orelse:
            norm, eb = self.block(n.orelse, norm) if norm else (set(), [])
            exits += eb
        return norm | brk

    def with_(self, n, items, ss, exits):
        if not items:
            b, eb = self.block(n.body, ss)
            exits += eb
            return b
        it = items[0]
        line = n.lineno
        pairs = self.value(it.context_expr, ss, exits, line)
        out = set()
        groups = {}
        for s, v in pairs:
            if it.optional_vars is not None:
                new = self.assign(it.optional_vars, {(s, v if isinstance(it.optional_vars, ast.Name) else 'value')}, line)
            else:
                new = {s}
            groups.setdefault(v, set()).update(new)
        for v, g in groups.items():
            e2 = []
            b = self.with_(n, items[1:], g, e2)
            if v in ('none', 'value'):
                # the block may swallow exceptions (contextlib.suppress): both continuations
                out |= b
                for k, s, l in e2:
                    exits.append((k, s, l))
                    if k == 'raise' and 'suppress' in ast.unparse(it.context_expr):
                        out.add(s)
            else:
                out |= {self.close(s, v) for s in b}
                exits.extend((k, self.close(s, v), l) for k, s, l in e2)
        return out

    def try_(self, n, ss, exits):
        body, eb = self.block(n.body, ss)
        pend = []
        caught = set()
        for k, s, l in eb:
            if k == 'raise':
                caught.add(s)
                if not catches_all(n.handlers):
                    pend.append((k, s, l))
            else:
                pend.append((k, s, l))
        norm = set()
        if n.orelse and body:
            norm, ee = self.block(n.orelse, body)
            pend += ee
        else:
            norm = set(body)
        if caught:
            for h in n.handlers:
                a, eh = self.block(h.body, {self.bind(s, h.name, 'value') for s in caught} if h.name else caught)
                norm |= a
                pend += eh
        if n.finalbody:
            out = set()
            if norm:
                out, ef = self.block(n.finalbody, norm)
                exits += ef
            byk = {}
            for k, s, l in pend:
                byk.setdefault((k, l), set()).add(s)
            for (k, l), g in byk.items():
                a, ef = self.block(n.finalbody, g)
                exits += ef
                exits.extend((k, s, l) for s in a)
            return out
        exits += pend
        return norm


def stable(e):
    """a condition on the values of names only"""
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'callable', 'len', 'bool') and all(
            isinstance(x, (ast.Name, ast.Constant, ast.Attribute, ast.Tuple)) for x in e.args)
    if isinstance(e, ast.Compare):
        return all(isinstance(x, (ast.Name, ast.Constant)) or stable(x) for x in [e.left] + e.comparators)
    return False


def catches_all(handlers):
    for h in handlers:
        if h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('BaseException', 'Exception'):
            return True
    return False
