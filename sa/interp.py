"""Abstract interpreter: Python source -> value graph.

Walks the syntax tree of the code under analysis in control-flow order, keeping
one abstract state per program point (environments and heap objects whose
contents are value-graph terms), merging the states of the branches of a
conditional with gated terms and summarising every loop by closed forms.  No
code of the repository is imported or run, no solver is asked, and no input is
ever chosen: a variable holds one term that denotes its value for all inputs.
"""
import ast
import builtins
import os
from . import terms as tm
from .terms import (T, mk, sym, fresh, num, string, boolc, ite, band, bor, bnot, truthy, index, length, isarr, rank,
                    kind, const_of, unk, unk_fresh, vec, concat, map_, mapf, filt, cmap, subst, ew, eq, lt, le, add, sub, mul,
                    TRUE, FALSE, NONE, UNDEF, EMPTY, ZERO, ONE, Fr)


class AnchorMissing(Exception):
    pass


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
class Ref:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return 'Ref(%d)' % self.a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(('ref', self.a))


class Func:
    def __init__(self, node, env, name, defaults, kwdefaults, mod, cls=None):
        self.node, self.env, self.name, self.defaults, self.kwdefaults, self.mod, self.cls = node, env, name, defaults, kwdefaults, mod, cls


class Lib:
    """something of an imported library, by its full name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Lib(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Py:
    """a function modelled inside the analyser: fn(interp, args, kwargs) -> value"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Bound:
    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class Special:
    """a property or a static method"""
    def __init__(self, kind, func):
        self.kind, self.func = kind, func


class Cls:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod, self.name = node, env, mod, node.name
        self.attrs = {}


def closed_class(c):
    """do the instances have what the class and its methods give them, and nothing else"""
    n = c.node
    return not n.bases and not n.keywords and not n.decorator_list and not any(
        isinstance(x, ast.Name) and x.id in ('setattr', 'vars', 'exec') or isinstance(x, ast.Attribute) and x.attr in ('__dict__', '__setattr__', '__slots__') or
        isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in ('__getattr__', '__getattribute__') for x in ast.walk(n))


class Mod:
    def __init__(self, name, env):
        self.name, self.env = name, env


class Seq:
    """an iterable: n (term) elements, get(k) -> value"""

    def __init__(self, n, get, src=None):
        self.n, self.get, self.src = n, get, src


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Obj:
    """heap object (never changed in place).  kinds: arr list dict df env inst file sio ext"""
    __slots__ = ('kind', 'c', 'roots', 'x')

    def __init__(self, kind, c, roots=frozenset(), x=None):
        self.kind, self.c, self.roots, self.x = kind, c, roots, x

    def with_(self, c=None, x=None):
        return Obj(self.kind, self.c if c is None else c, self.roots, self.x if x is None else x)


class State:
    __slots__ = ('heap', 'pc')

    def __init__(self, heap, pc):
        self.heap, self.pc = heap, pc

    def copy(self, pc=None):
        return State(dict(self.heap), self.pc if pc is None else pc)


class Event(tuple):
    """(name, detail..., (file, line)), with the path condition it happens under"""
    pc = TRUE

    @property
    def certain(self):
        """is it known when it happens"""
        return not any(x.op == 'unk' for x in tm.subterms(self.pc))


class Frame:
    def __init__(self, env, func=None):
        self.env, self.func = env, func
        self.returns = []
        self.loops = []


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


# --------------------------------------------------------------------------
# path conditions
# --------------------------------------------------------------------------
_cof = {}


def simp(f, care):
    """a simpler term equal to the boolean/decision term f wherever care holds"""
    if care is TRUE or f.op != 'ite' and f.op not in tm.BOOLOPS:
        return f
    if care is FALSE:
        return f
    k = (f, care)
    r = _cof.get(k)
    if r is None:
        r = _cof[k] = _simp(f, care)
    return r


def _simp(f, care):
    if f.op == 'bool':
        return f
    ft = f.args[0] if f.op == 'ite' else f if f.op in tm.BOOLOPS else None
    ct = care.args[0] if care.op == 'ite' else care
    cands = [x for x in (ft, ct) if x is not None]
    m = min(cands, key=lambda t: t.id)
    c1, c0 = tm.restrict(care, m, True), tm.restrict(care, m, False)
    f1, f0 = tm.restrict(f, m, True), tm.restrict(f, m, False)
    if c1 is FALSE:
        return simp(f0, c0)
    if c0 is FALSE:
        return simp(f1, c1)
    a, b = simp(f1, c1), simp(f0, c0)
    if a is b:
        return a
    return ite(m, a, b)


# --------------------------------------------------------------------------
class Interp:
    MAXDEPTH = 12

    def __init__(self, files, mask=None, flags=None):
        """files: {module name: path}"""
        from . import lib
        self.lib = lib
        self.files = dict(files)
        self.next = 1
        self.st = State({0: Obj("list", (EMPTY, ()))}, TRUE)
        self.frames = []
        self.handlers = [[]]        # collectors of (state, exception type, value)
        self.tries = 0
        self.mods = {}
        self.src = {}
        self.mask = mask or {}
        self.flags = flags or {}
        self.line = None
        self.prov = {}
        self.events = []            # (event, detail..., file, line)
        self.calls = []             # calls of library functions with unmodelled keywords etc.
        self.stubs = {}             # library name -> replacement model
        self.undecided = []
        self.refine = None         # on files of known lines: what the text of the lines decides
        self.oncall = None          # called with every function of the source that is entered, and its parameters
        self.analysed = set()
        self.loopdepth = 0
        self.trees = {}

    # -- heap -------------------------------------------------------------
    def alloc(self, kind, c, roots=frozenset(), x=None):
        a = self.next
        self.next += 1
        self.st.heap[a] = Obj(kind, c, frozenset(roots), x)
        return Ref(a)

    def obj(self, r):
        return self.st.heap[r.a]

    def put(self, r, obj):
        self.st.heap[r.a] = obj

    def array(self, t, roots=frozenset(), kind='arr', x=None):
        """array term -> heap array; scalar term -> itself"""
        if isinstance(t, T) and (isarr(t)):
            return self.alloc(kind, t, roots, x)
        return t

    def newlist(self, items):
        return self.alloc('list', (EMPTY, tuple(items)))

    def newdict(self, d):
        return self.alloc('dict', (dict(d), EMPTY))

    def misuse(self, name, *detail):
        """a construct that fails at run time, unless an exception handler is waiting for that"""
        if not self.tries:
            self.event(name, *detail)

    def event(self, name, *detail):
        e = Event((name,) + detail + (self.line,))
        e.pc = self.st.pc if self.st is not None else TRUE
        self.events.append(e)

    # -- conversion ---------------------------------------------------------
    def freeze(self, v):
        """any value -> term"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            o = self.obj(v)
            return self.freeze_obj(o)
        if isinstance(v, tuple):
            return mk('tup', *[self.freeze(x) for x in v])
        if isinstance(v, Seq):
            return self.freeze_seq(v)
        if isinstance(v, Func):
            return mk('func', v.name)
        if isinstance(v, (Lib, Py)):
            return mk('func', v.name)
        if isinstance(v, Slice):
            return mk('slice', *[self.freeze(x) if x is not None else NONE for x in (v.lo, v.hi, v.step)])
        if isinstance(v, Bound):
            return unk('bound', self.freeze(v.recv))
        if isinstance(v, lib.Row):
            return mk('row', v.t, v.k)
        if isinstance(v, (Cls, Mod)):
            return mk('func', v.name)
        if v is None:
            return UNDEF
        return unk_fresh('value')

    def freeze_obj(self, o):
        if o.kind in ('arr', 'sio', 'ext'):
            return o.c if isinstance(o.c, T) else unk_fresh(o.kind)
        if o.kind == 'list':
            base, tail = o.c
            return concat(base, vec(*[self.freeze(x) for x in tail]))
        if o.kind == 'df':
            return o.c
        if o.kind == 'dict':
            d, extra = o.c
            items = tuple((k, self.freeze(x)) for k, x in d.items())
            return mk('dict', items, extra)
        if o.kind == 'inst':
            return mk('inst', tuple((k, self.freeze(x)) for k, x in sorted(o.c.items()) if isinstance(k, str)))
        if o.kind == 'file':
            return mk('filev', o.c['path'])
        return unk_fresh('object')

    def freeze_seq(self, s):
        c = const_of(s.n)
        if c is not None and c <= tm.MAXVEC:
            return vec(*[self.freeze(s.get(num(i))) for i in range(int(c))])
        return mapf(s.n, lambda k: self.freeze(s.get(k)))

    def thaw(self, t):
        """element term -> value"""
        if isinstance(t, T):
            if t.op == 'tup':
                return tuple(self.thaw(x) for x in t.args)
            if kind(t) == 'df':
                return self.alloc('df', t)
            if t.op == 'dict':
                return self.alloc('dict', (dict((k, self.thaw(x)) for k, x in t.args[0]), t.args[1]))
            if isarr(t):
                return self.alloc('list' if t.op in ('split', 'findall', 'groups') else 'arr',
                                  (t, ()) if t.op in ('split', 'findall', 'groups') else t)
        return t

    def seq(self, v):
        """value -> Seq"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(num(len(v)), lambda k: v[int(const_of(k))] if const_of(k) is not None else index(self.freeze(v), k))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                base, tail = o.c
                if base is EMPTY:
                    return self.seq(tuple(tail))
                t = self.freeze(v)
                return self.seq(t)
            if o.kind == 'arr':
                t = o.c
                if t.op == 'ite':
                    t = tm.assume(t, self.st.pc)
                    if t.op == 'ite' and not isarr(t):
                        return self.seq(self.thaw(t))
                roots = o.roots
                return Seq(length(t), lambda k: self.viewval(index(t, k), roots), src=t)
            if o.kind == 'dict':
                d, extra = o.c
                if extra is EMPTY:
                    return self.seq(tuple(self.keyval(k) for k in d))
                return Seq(None, None)
            if o.kind == 'df':
                return self.seq(self.lib.df_columns(self, v))
            if o.kind == 'file':
                return self.lib.file_iter(self, v)
        if isinstance(v, T):
            if v.op == 'ite':
                w = tm.assume(v, self.st.pc)
                if w is not v:
                    return self.seq(self.thaw(w))
            if v.op == 'str':
                return self.seq(tuple(string(c) for c in v.args[0]))
            if v.op == 'tup':
                return self.seq(self.thaw(v))
            if v.op == 'vec':
                return self.seq(tuple(self.thaw(x) for x in v.args))
            if kind(v) == 'str':
                c = mk('chars', v)
                return Seq(length(v), lambda k: index(c, k))
            if isarr(v) or v.op in ('index', 'call', 'sym', 'attr', 'unk'):
                return Seq(length(v), lambda k: self.thaw(index(v, k)), src=v)
        u = unk_fresh('iter', self.freeze(v))
        return Seq(length(u), lambda k: index(u, k))

    def viewval(self, t, roots):
        if isinstance(t, T) and isarr(t):
            return self.alloc('arr', t, roots)
        return self.thaw(t)

    def keyval(self, k):
        return string(k) if isinstance(k, str) else k

    def key(self, v):
        """dictionary key: python str for constant strings, else frozen term"""
        t = self.freeze(v)
        if t.op == 'str':
            return t.args[0]
        return t

    def isconstkey(self, k):
        return isinstance(k, str) or k.op in ('num', 'bool', 'none', 'tup', 'func') and not k.fs

    # -- merging ------------------------------------------------------------
    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, s1, s2):
        tot = bor(s1.pc, s2.pc)
        c = simp(s1.pc, tot)
        out = State({}, tot)
        h1, h2 = s1.heap, s2.heap
        for a, o1 in h1.items():
            o2 = h2.get(a)
            if o2 is None or o2 is o1:
                out.heap[a] = o1
        for a, o2 in h2.items():
            if a not in h1:
                out.heap[a] = o2
        for a, o1 in h1.items():
            o2 = h2.get(a)
            if o2 is not None and o2 is not o1:
                out.heap[a] = self.merge_obj(c, o1, o2, s1, s2, out)
        return out

    def fz(self, st, v):
        old = self.st
        self.st = st
        try:
            return self.freeze(v)
        finally:
            self.st = old

    def merge_obj(self, c, o1, o2, s1, s2, out):
        roots = o1.roots | o2.roots
        if o1.kind != o2.kind:
            return Obj('ext', unk_fresh('merge'), roots)
        k = o1.kind
        if k in ('env', 'inst', 'file'):
            d = {}
            for n in list(o1.c) + [n for n in o2.c if n not in o1.c]:
                d[n] = self.merge_val(c, o1.c.get(n), o2.c.get(n), s1, s2, out)
            return Obj(k, d, roots, o1.x)
        if k == 'list':
            (b1, t1), (b2, t2) = o1.c, o2.c
            if b1 is b2 and len(t1) == len(t2):
                return Obj(k, (b1, tuple(self.merge_val(c, x, y, s1, s2, out) for x, y in zip(t1, t2))), roots, o1.x)
            return Obj(k, (ite(c, self.fz(s1, self._tmp(o1)), self.fz(s2, self._tmp(o2))), ()), roots, o1.x)
        if k == 'dict':
            (d1, e1), (d2, e2) = o1.c, o2.c
            d = {}
            for n in list(d1) + [n for n in d2 if n not in d1]:
                if n in d1 and n in d2:
                    d[n] = self.merge_val(c, d1[n], d2[n], s1, s2, out)
                else:
                    ab = mk('absent')
                    x = self.fz(s1, d1[n]) if n in d1 else ab
                    y = self.fz(s2, d2[n]) if n in d2 else ab
                    d[n] = ite(c, x, y)
            return Obj(k, (d, ite(c, e1, e2)), roots, o1.x)
        if isinstance(o1.c, T) and isinstance(o2.c, T):
            return Obj(k, ite(c, o1.c, o2.c), roots, o1.x)
        return Obj('ext', unk_fresh('merge'), roots)

    def _tmp(self, o):
        # a value that freezes to the content of o
        return _Content(o)

    def merge_val(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, s1, s2, out) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a == b.a:
                return a
            o1, o2 = s1.heap[a.a], s2.heap[b.a]
            if o1.kind == o2.kind or {o1.kind, o2.kind} == {'arr', 'list'}:
                if o1.kind != o2.kind:
                    o1 = Obj('arr', self.fz(s1, a), o1.roots)
                    o2 = Obj('arr', self.fz(s2, b), o2.roots)
                ad = self.next
                self.next += 1
                out.heap[ad] = self.merge_obj(c, o1, o2, s1, s2, out)
                return Ref(ad)
        if type(a) is type(b) and a == b:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.name == b.name:
            return Bound(self.merge_val(c, a.recv, b.recv, s1, s2, out), a.name)
        if isinstance(a, lib.Row) and isinstance(b, lib.Row):
            return lib.Row(ite(c, a.t, b.t), ite(c, a.k, b.k))
        ta, tb = self.fz(s1, a), self.fz(s2, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = ite(c, ta, tb)
            ka = kind(ta) if ta.op not in ('undef', 'none') else kind(tb)
            if ka == 'df' or isarr(r):
                ad = self.next
                self.next += 1
                roots = (s1.heap[a.a].roots if isinstance(a, Ref) else frozenset()) | (s2.heap[b.a].roots if isinstance(b, Ref) else frozenset())
                out.heap[ad] = Obj('df' if ka == 'df' else 'arr', r, roots)
                return Ref(ad)
            return r
        if isinstance(a, (Func, Lib, Py, Bound, Choice)) or isinstance(b, (Func, Lib, Py, Bound, Choice)):
            return Choice(c, a, b)
        return ite(c, ta, tb)

    # -- modules --------------------------------------------------------------
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.files[name]
        try:
            src = open(path, encoding='utf-8').read()
            tree = ast.parse(src)
        except (OSError, SyntaxError) as e:
            raise AnchorMissing('%s: %s' % (path, e))
        self.trees[name] = tree
        env = self.alloc('env', {'__file__': mk('modfile', name), '__name__': string(name), '<parent>': None})
        m = Mod(name, env)
        self.mods[name] = m
        fr = Frame(env)
        fr.path = path
        fr.modname = name
        self.frames.append(fr)
        for s in tree.body:
            if isinstance(s, ast.If) and 'main' in ast.unparse(s.test):
                continue
            self.exec(s)
            if self.st is None:
                raise Unsupported('module level of %s does not complete' % name)
        self.frames.pop()
        return m

    def public(self, modname, fname):
        m = self.module(modname)
        v = self.obj(m.env).c.get(fname)
        if v is None:
            raise AnchorMissing('%s.%s is not defined' % (modname, fname))
        return v

    # -- execution --------------------------------------------------------------
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec(s)

    def exec(self, s):
        if self.st.pc is FALSE:
            self.st = None
            return
        self.line = (getattr(self.frames[-1], 'path', None), s.lineno)
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('%s statement, line %d' % (type(s).__name__, s.lineno))
        m(s)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Import(self, s):
        for a in s.names:
            n = a.name
            if a.asname:
                self.setvar(a.asname, self.import_(n))
            else:
                self.setvar(n.split('.')[0], self.import_(n.split('.')[0]))

    def x_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            base = 'shipgrav' + ('.' + base if base else '')
        for a in s.names:
            if a.name == '*':
                continue
            self.setvar(a.asname or a.name, self.import_(base + '.' + a.name if base else a.name))

    ALIASES = {'pandas.DataFrame': 'pandas.DataFrame', 'tomli': 'tomllib', 'tomllib': 'tomllib'}

    def import_(self, name):
        if name.startswith('shipgrav'):
            parts = name.split('.')[1:]
            if parts and parts[0] in self.files:
                m = self.module(parts[0])
                if len(parts) == 1:
                    return m
                v = self.obj(m.env).c.get(parts[1])
                if v is not None:
                    return v
                self.misuse('no-attribute', 'shipgrav.' + parts[0], parts[1])
            if not parts:
                return Lib('shipgrav')
            return Lib(name)
        return self.lib.resolve(self, name)

    def x_FunctionDef(self, s):
        self.setvar(s.name, self.mkfunc(s, s.name))
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if isinstance(d, ast.Call) and isinstance(dv, Py) and dv.name == 'wraps':
                continue
            if isinstance(dv, Lib) and dv.name in ('builtins.staticmethod', 'functools.lru_cache', 'functools.cache', 'functools.wraps', 'builtins.classmethod', 'builtins.property'):
                if dv.name in ('builtins.property', 'builtins.staticmethod') and len(s.decorator_list) == 1 and getattr(self.frames[-1], 'isclass', False):
                    self.setvar(s.name, Special(dv.name, self.getvar(s.name)))
                    continue
                if dv.name != 'builtins.staticmethod' and dv.name != 'functools.cache' and dv.name != 'functools.lru_cache':
                    raise Unsupported('decorator ' + dv.name)
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                raise Unsupported('decorator ' + d.attr)
            elif isinstance(dv, (Func,)):
                self.setvar(s.name, self.call(dv, [self.getvar(s.name)], {}))
            else:
                self.setvar(s.name, unk_fresh('decorated'))

    def mkfunc(self, node, name):
        a = node.args
        fr = self.frames[-1]
        f = Func(node, fr.env, name, [self.ev(d) for d in a.defaults],
                 {p.arg: self.ev(d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                 getattr(fr, 'modname', None))
        f.path = getattr(fr, 'path', None)
        return f

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        c = Cls(s, fr.env, getattr(fr, 'modname', None))
        env = self.alloc('env', {'<parent>': fr.env})
        nf = Frame(env)
        nf.path, nf.modname = getattr(fr, 'path', None), getattr(fr, 'modname', None)
        nf.isclass = True
        self.frames.append(nf)
        self.exec_block(s.body)
        self.frames.pop()
        c.attrs = {k: v for k, v in self.obj(env).c.items() if k != '<parent>'}
        self.setvar(s.name, c)

    def x_Global(self, s):
        fr = self.frames[-1]
        e = fr.env
        while self.obj(e).c.get('<parent>') is not None:
            e = self.obj(e).c['<parent>']
        fr.globals = getattr(fr, 'globals', {})
        for n in s.names:
            fr.globals[n] = e

    def x_Nonlocal(self, s):
        fr = self.frames[-1]
        fr.globals = getattr(fr, 'globals', {})
        for n in s.names:
            e = self.obj(fr.env).c.get('<parent>')
            while e is not None and n not in self.obj(e).c:
                e = self.obj(e).c.get('<parent>')
            if e is not None:
                fr.globals[n] = e

    def setvar(self, name, v):
        fr = self.frames[-1]
        env = getattr(fr, 'globals', {}).get(name, fr.env)
        if env is not fr.env and fr.func is not None:
            self.event('global-store', name)
        o = self.obj(env)
        c = dict(o.c)
        c[name] = v
        self.put(env, o.with_(c=c))

    def getvar(self, name):
        e = self.frames[-1].env
        while e is not None:
            c = self.obj(e).c
            if name in c and c[name] is not None:
                return c[name]
            e = c.get('<parent>')
        v = self.lib.builtin(self, name)
        if v is None:
            if not hasattr(builtins, name) and not name.startswith('__'):
                self.raise_('NameError')
                raise Dead()
            return unk('undefined name ' + name)
        return v

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.store(base, self.ev_index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, elts, v):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not star:
            for i, x in enumerate(self.parts(v, n)):
                self.assign(elts[i], x)
            return
        j = star[0]
        after = n - j - 1
        if isinstance(v, tuple):
            self.unpack_known(elts, list(v), j, after)
            return
        s = self.seq(v)
        c = const_of(s.n)
        if c is not None:
            self.unpack_known(elts, [s.get(num(i)) for i in range(int(c))], j, after)
            return
        t = self.freeze(v)
        for i in range(j):
            self.assign(elts[i], self.thaw(index(t, num(i))))
        self.assign(elts[j], self.array(tm.slice_(t, num(j), sub(length(t), num(after)), None), kind='arr'))
        for i in range(after):
            self.assign(elts[j + 1 + i], self.thaw(index(t, sub(length(t), num(after - i)))))

    def unpack_known(self, elts, xs, j, after):
        for i in range(j):
            self.assign(elts[i], xs[i])
        self.assign(elts[j], self.newlist(xs[j:len(xs) - after]))
        for i in range(after):
            self.assign(elts[j + 1 + i], xs[len(xs) - after + i])

    def parts(self, v, n):
        if isinstance(v, tuple):
            if len(v) == n:
                return list(v)
            self.misuse('bad-unpack', len(v), n)
            return [unk_fresh('unpack')] * n
        if isinstance(v, Ref) and self.obj(v).kind == 'list':
            base, tail = self.obj(v).c
            if base is EMPTY:
                if len(tail) == n:
                    return list(tail)
                self.misuse('bad-unpack', len(tail), n)
        if isinstance(v, T) and v.op == 'ite':
            a, b = self.parts(self.thaw(v.args[1]), n), self.parts(self.thaw(v.args[2]), n)
            return [self.thaw(ite(v.args[0], self.freeze(x), self.freeze(y))) for x, y in zip(a, b)]
        if isinstance(v, Seq):
            return [v.get(num(i)) for i in range(n)]
        if isinstance(v, T) and v.op in ('tup', 'vec') and len(v.args) == n:
            return [self.thaw(x) for x in v.args]
        roots = self.obj(v).roots if isinstance(v, Ref) else frozenset()
        t = self.freeze(v)
        if t.op == 'none':
            self.misuse('bad-unpack', 'None', n)
            return [UNDEF] * n
        if t.op in ('tup', 'vec'):
            self.misuse('bad-unpack', len(t.args), n)
        return [self.viewval(index(t, num(i)), roots) for i in range(n)]

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.getvar(t.id)
            v = self.augop(s.op, old, self.ev(s.value))
            if v is not None:
                self.setvar(t.id, v)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value)
            v = self.augop(s.op, self.getattr(base, t.attr), self.ev(s.value))
            if v is not None:
                self.setattr(base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            ix = self.ev_index(t.slice)
            old = self.subscript(base, ix)
            if isinstance(old, Ref) and self.obj(old).kind == 'arr':
                old = self.obj(old).c if self.obj(old).kind == 'arr' else old
                old = self.array(old)
            self.store(base, ix, self.binop(s.op, old, self.ev(s.value)), t)

    def augop(self, op, old, v):
        """in-place operation; returns the new value to bind, or None"""
        if isinstance(old, Ref):
            o = self.obj(old)
            if o.kind == 'list' and isinstance(op, ast.Add):
                s = self.seq(v)
                c = const_of(s.n) if s.n is not None else None
                base, tail = o.c
                if c is not None:
                    tail = tail + tuple(s.get(num(i)) for i in range(int(c)))
                else:
                    base, tail = concat(self.freeze(old), self.freeze(v)), ()
                self.mutated(old, 'list extended in place')
                self.put(old, o.with_(c=(base, tail)))
                return old
            if o.kind == 'arr':
                r = self.freeze(self.binop(op, old, v))
                self.write_arr(old, r, 'array changed in place')
                return old
        return self.binop(op, old, v)

    def mutated(self, ref, what):
        o = self.obj(ref)
        if o.roots:
            self.event('mutate', tuple(sorted(o.roots)), what)
        elif self.loopdepth == 0 or True:
            pass

    def write_arr(self, ref, t, what):
        """replace the contents of an array object, and of the arrays it is a view of"""
        o = self.obj(ref)
        self.mutated(ref, what)
        self.put(ref, o.with_(c=t))
        if o.x is not None and isinstance(o.x, tuple) and o.x and o.x[0] == 'view':
            _, parent, sels, seen = o.x
            po = self.st.heap.get(parent.a)
            if po is not None and isinstance(po.c, T):
                self.st.heap[parent.a] = po.with_(c=self.lib.store_sel(self, po.c, sels, t))
                if po.x is not None:
                    self.write_arr(parent, self.st.heap[parent.a].c, what)
        elif isinstance(o.x, tuple) and o.x and o.x[0] == 'through':
            # another arrangement of the elements of the parent
            _, parent, back = o.x
            po = self.st.heap.get(parent.a)
            if po is not None and isinstance(po.c, T):
                self.write_arr(parent, back(self, po.c, t), what)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = self.obj(self.frames[-1].env)
                c = dict(o.c)
                c.pop(t.id, None)
                self.put(self.frames[-1].env, o.with_(c=c))
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value)
                self.lib.delitem(self, base, self.ev_index(t.slice))
            else:
                raise Unsupported('del')

    def cond(self, node):
        c = self.truth(self.ev(node))
        return simp(c, self.st.pc)

    def truth(self, v):
        if isinstance(v, T):
            if isarr(v) and v.op not in ('split', 'lines', 'findall') and False:
                return unk_fresh('truth of array')
            return truthy(v)
        if isinstance(v, tuple):
            return boolc(len(v) > 0)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                base, tail = o.c
                return TRUE if tail else truthy(base)
            if o.kind == 'arr':
                return truthy(o.c) if o.c.op in tm.ARROPS else truthy(o.c)
            if o.kind == 'dict':
                d, extra = o.c
                if any(not isinstance(x, T) or x.op != 'ite' for x in d.values()):
                    return TRUE
                return truthy(extra) if not d else unk_fresh('truth of dict')
            if o.kind == 'inst':
                return TRUE
            if o.kind in ('file', 'sio', 'ext'):
                return TRUE
            return unk_fresh('truth', self.freeze(v))
        if isinstance(v, Seq):
            return bnot(tm.eq0(v.n)) if v.n is not None else unk_fresh('truth')
        return TRUE

    def x_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f, g):
        if c.op != 'ite' and not tm.is_bool(c) and c.op != 'unk':
            c = truthy(c)
        if c.op == 'unk':
            c = mk('truthy', c)
        if c is TRUE:
            f()
            return
        if c is FALSE:
            g()
            return
        s0 = self.st
        p1, p0 = band(s0.pc, c), band(s0.pc, bnot(c))
        if p1 is FALSE:
            g()
            return
        if p0 is FALSE:
            f()
            return
        self.st = s0.copy(p1)
        f()
        s1 = self.st
        self.st = s0.copy(p0)
        g()
        s2 = self.st
        self.st = self.merge([s1, s2])

    def choose(self, c, f, g):
        """value-level conditional: evaluates f / g under c / not c"""
        c = simp(c, self.st.pc)
        if c.op == 'unk':
            c = mk('truthy', c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.st
        p1, p0 = band(s0.pc, c), band(s0.pc, bnot(c))
        if p1 is FALSE:
            return g()
        if p0 is FALSE:
            return f()
        def arm(h, pc):
            self.st = s0.copy(pc)
            try:
                return h()
            except Dead:
                self.st = None
        a = arm(f, p1)
        s1 = self.st
        b = arm(g, p0)
        s2 = self.st
        if s1 is None and s2 is None:
            raise Dead()
        if s1 is None:
            self.st = s2
            return b
        if s2 is None:
            self.st = s1
            return a
        k = '<v%d>' % self.next
        self.next += 1
        env = self.frames[-1].env
        for st, v in ((s1, a), (s2, b)):
            self.st = st
            o = self.obj(env)
            c2 = dict(o.c)
            c2[k] = v
            self.put(env, o.with_(c=c2))
        self.st = self.merge([s1, s2])
        o = self.obj(env)
        c2 = dict(o.c)
        v = c2.pop(k)
        self.put(env, o.with_(c=c2))
        return v

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        if self.st is None:
            return
        self.do_return(v)

    def do_return(self, v):
        fr = self.frames[-1]
        o = self.obj(fr.env)
        c = dict(o.c)
        c['<ret>'] = v
        self.put(fr.env, o.with_(c=c))
        fr.returns.append(self.st)
        self.st = None

    def x_Break(self, s):
        self.frames[-1].loops[-1].breaks.append(self.st)
        self.st = None

    def x_Continue(self, s):
        self.frames[-1].loops[-1].continues.append(self.st)
        self.st = None

    def x_Assert(self, s):
        c = self.cond(s.test)
        if c is TRUE:
            return

        def fail():
            self.raise_('AssertionError')
        self.branch(c, lambda: None, fail)

    def x_Raise(self, s):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.ev(a)
                e = e.func
            name = ast.unparse(e).split('.')[-1]
        self.raise_(name)

    def raise_(self, name):
        if self.st is None:
            return
        self.handlers[-1].append((self.st, name, [f.env for f in self.frames]))
        self.misuse('raise', name, self.st.pc)
        self.st = None

    def may_raise(self, cond, name):
        """an operation that fails when cond holds; only tracked inside try bodies"""
        if self.tries == 0:
            return
        c = simp(cond, self.st.pc)
        if c is FALSE:
            return
        if c.op == 'unk':
            c = mk('truthy', c)
        p1, p0 = band(self.st.pc, c), band(self.st.pc, bnot(c))
        if p1 is FALSE:
            return
        st = self.st.copy(p1)
        self.handlers[-1].append((st, name, None))
        if p0 is FALSE:
            self.st = None
            raise Dead()
        self.st.pc = p0

    EXC = {'Exception': None, 'BaseException': None, 'ValueError': {'ValueError', 'UnicodeDecodeError', 'OutOfBoundsDatetime', 'ParserError'},
           'TypeError': {'TypeError'}, 'KeyError': {'KeyError'}, 'LookupError': {'KeyError', 'IndexError'},
           'IndexError': {'IndexError'}, 'AssertionError': {'AssertionError'}, 'StopIteration': {'StopIteration'}}

    def x_Try(self, s):
        col = []
        self.handlers.append(col)
        self.tries += 1
        try:
            try:
                self.exec_block(s.body)
            except Dead:
                self.st = None
        finally:
            self.tries -= 1
            self.handlers.pop()
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)
        outs = [self.st]
        # group the exceptional states
        for st, name, _ in col:
            done = False
            for h in s.handlers:
                if h.type is None:
                    names = [None]
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x).split('.')[-1] for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                match = False
                for n in names:
                    if n is None or n in ('Exception', 'BaseException') or n == name:
                        match = True
                    elif self.EXC.get(n) and name in self.EXC[n]:
                        match = True
                    elif n not in self.EXC and name not in self.EXC and False:
                        match = True
                if match:
                    self.st = st
                    if h.name:
                        self.setvar(h.name, unk('exception ' + name))
                    self.exec_block(h.body)
                    outs.append(self.st)
                    done = True
                    break
            if not done:
                if s.finalbody:
                    self.st = st
                    self.exec_block(s.finalbody)
                    if self.st is not None:
                        self.handlers[-1].append((self.st, name, None))
                else:
                    self.handlers[-1].append((st, name, None))
        self.st = self.merge(outs)
        if s.finalbody:
            if self.st is not None:
                self.exec_block(s.finalbody)
            # returns inside the body also run the final block
            fr = self.frames[-1]
            self._finally_returns(fr, s)
    x_TryStar = x_Try

    def _finally_returns(self, fr, s):
        if not any(isinstance(n, ast.Return) for b in (s.body, s.handlers, s.orelse) for x in b for n in ast.walk(x)):
            return
        keep = self.st
        new = []
        for st in fr.returns:
            self.st = st
            self.exec_block(s.finalbody)
            if self.st is not None:
                new.append(self.st)
        fr.returns[:] = new
        self.st = keep

    def x_With(self, s):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr)
            if isinstance(v, Ref) and self.obj(v).kind == 'file':
                self.event('with', v.a)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.lib.enter(self, v))
        self.exec_block(s.body)
        if self.st is not None:
            for v in reversed(opened):
                self.lib.exit(self, v)

    def x_Match(self, s):
        subj = self.ev(s.subject)

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return self.lib.equal(self, subj, self.ev(p.value))
            if isinstance(p, ast.MatchSingleton):
                return self.lib.is_(self, subj, self.lib.const(p.value))
            if isinstance(p, ast.MatchOr):
                r = FALSE
                for q in p.patterns:
                    r = bor(r, pat(q))
                return r
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.setvar(p.name, subj)
                return TRUE
            raise Unsupported('match pattern')

        def go(i):
            if i == len(s.cases):
                return
            c = s.cases[i]
            cd = pat(c.pattern)
            if c.guard is not None:
                cd = band(cd, self.truth(self.ev(c.guard)))
            self.branch(simp(cd, self.st.pc), lambda: self.exec_block(c.body), lambda: go(i + 1))
        go(0)

    def x_For(self, s):
        from . import loops
        loops.for_loop(self, s)

    def x_While(self, s):
        from . import loops
        loops.while_loop(self, s)

    # -- expressions --------------------------------------------------------------
    def ev(self, e):
        if hasattr(e, 'lineno'):
            self.line = (getattr(self.frames[-1], 'path', None), e.lineno)
        line = self.line
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return unk_fresh('expr ' + type(e).__name__)
        n0 = tm._n[0]
        v = m(e)
        if self.refine is not None and isinstance(v, T) and v.args:
            v = self.refine(v)
        if tm._n[0] > n0:
            t = v if isinstance(v, T) else None
            if t is None and isinstance(v, Ref) and self.st is not None and v.a in self.st.heap:
                c = self.st.heap[v.a].c
                t = c if isinstance(c, T) else None
            if t is not None and t.id > n0:
                self.prov.setdefault(t, line)
        return v

    def e_Constant(self, e):
        return self.lib.const(e.value)

    def e_Name(self, e):
        return self.getvar(e.id)

    def e_Tuple(self, e):
        return tuple(self.ev_list(e.elts))

    def ev_list(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.ev(x.value))
                c = const_of(s.n) if s.n is not None else None
                if c is None:
                    return [unk_fresh('starred', self.freeze(self.ev(x.value)))]
                out.extend(s.get(num(i)) for i in range(int(c)))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = EMPTY
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    parts = concat(parts, self.freeze(self.lib.tolist(self, self.ev(x.value))))
                else:
                    parts = concat(parts, vec(self.freeze(self.ev(x))))
            if parts.op == 'vec':
                return self.newlist([self.thaw(x) for x in parts.args])
            return self.alloc('list', (parts, ()))
        return self.newlist(self.ev_list(e.elts))

    def e_Set(self, e):
        return self.newlist(self.ev_list(e.elts))

    def e_Dict(self, e):
        d, extra = {}, EMPTY
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                if isinstance(o, Ref) and self.obj(o).kind == 'dict':
                    dd, ex = self.obj(o).c
                    d.update(dd)
                    extra = concat(extra, ex)
                    continue
                return unk_fresh('dict unpacking')
            kk = self.key(self.ev(k))
            val = self.ev(v)
            if self.isconstkey(kk):
                d[kk] = val
            else:
                extra = concat(extra, vec(mk('tup', kk, self.freeze(val))))
        return self.alloc('dict', (d, extra))

    def e_Lambda(self, e):
        return self.mkfunc(e, '<lambda>')

    def e_IfExp(self, e):
        c = self.cond(e.test)
        return self.choose(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = simp(self.truth(v), self.st.pc)
            rest = e.values[i + 1:]
            simple = isinstance(v, T) and tm.is_bool(v)
            if isand:
                return self.choose(c, lambda: go(i + 1), lambda: FALSE if simple else v)
            return self.choose(c, lambda: TRUE if simple else v, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        return self.lib.unary(self, e.op, v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.lib.compare(self, op, left, right)
            res = c if res is None else self.lib.logical_and(self, res, c)
            left = right
        return res

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, v, name):
        if isinstance(v, Lib):
            return self.lib.resolve(self, v.name + '.' + name)
        if isinstance(v, Mod):
            x = self.obj(v.env).c.get(name)
            if x is None:
                self.misuse('no-attribute', 'shipgrav.' + v.name, name)
            return x if x is not None else unk('no attribute ' + name)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'inst':
                if name in o.c and o.c[name] is not None:
                    return o.c[name]
                cls = o.x
                if isinstance(cls, Cls) and name in cls.attrs:
                    f = cls.attrs[name]
                    if isinstance(f, Special):
                        return self.call(f.func, [v], {}) if f.kind == 'builtins.property' else f.func
                    return Bound(v, name) if isinstance(f, Func) else f
                if isinstance(cls, Cls) and not name.startswith('__'):
                    self.misuse('no-attribute', cls.name, name)
                    if closed_class(cls) and name not in o.c:
                        self.raise_('AttributeError')
                        raise Dead()
                return unk('no attribute ' + name)
        if isinstance(v, Cls):
            if name in v.attrs:
                return v.attrs[name].func if isinstance(v.attrs[name], Special) else v.attrs[name]
        return self.lib.getattr(self, v, name)

    def setattr(self, v, name, x):
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'inst':
                c = dict(o.c)
                c[name] = x
                self.put(v, o.with_(c=c))
                return
            self.lib.setattr(self, v, name, x)
            return
        if isinstance(v, T):
            self.effect('setattr', v, string(name), self.freeze(x))

    # external effects (drawing, printing...) in order, as a list of terms
    def effect(self, *a):
        e = self.st.heap.get(0)
        t = mk('effect', *[x for x in a])
        base = e.c if e is not None else (EMPTY, ())
        self.st.heap[0] = Obj('list', (base[0], base[1] + (t,)))

    def e_Subscript(self, e):
        return self.subscript(self.ev(e.value), self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.ev(x)
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def subscript(self, base, ix):
        return self.lib.subscript(self, base, ix)

    def store(self, base, ix, v, node=None):
        return self.lib.store(self, base, ix, v)

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                v = self.ev(x.value)
                spec = ''
                if x.format_spec is not None:
                    sp = self.freeze(self.e_JoinedStr(x.format_spec))
                    spec = sp.args[0] if sp.op == 'str' else None
                if x.conversion not in (-1, 115):
                    parts.append(mk('fmt', '!%s' % chr(x.conversion), self.freeze(v)))
                elif spec is None:
                    parts.append(unk_fresh('format', self.freeze(v)))
                else:
                    parts.append(self.lib.fmt(self.freeze(v), spec))
        return self.lib.cat(*parts)

    def e_Call(self, e):
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                s = self.seq(v)
                c = const_of(s.n) if s.n is not None else None
                if c is None:
                    return unk_fresh('star call', self.freeze(v))
                args.extend(s.get(num(i)) for i in range(int(c)))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Ref) and self.obj(v).kind == 'dict' and self.obj(v).c[1] is EMPTY:
                    for kk, vv in self.obj(v).c[0].items():
                        kw[kk if isinstance(kk, str) else str(kk)] = vv
                else:
                    return unk_fresh('star call', self.freeze(v))
            else:
                kw[k.arg] = self.ev(k.value)
        if self.st is None:
            raise Dead()
        self.line = (getattr(self.frames[-1], 'path', None), e.lineno)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.recv, Ref) and self.obj(f.recv).kind == 'inst':
                cls = self.obj(f.recv).x
                if isinstance(cls, Cls) and f.name in cls.attrs:
                    return self.call(cls.attrs[f.name], [f.recv] + args, kw)
            return self.lib.method(self, f.recv, f.name, args, kw)
        if isinstance(f, Lib):
            return self.lib.call(self, f.name, args, kw)
        if isinstance(f, Py):
            return f.fn(self, args, kw)
        if isinstance(f, Cls):
            r = self.alloc('inst', {}, frozenset(), f)
            if '__init__' in f.attrs:
                self.call(f.attrs['__init__'], [r] + args, kw)
            return r
        if isinstance(f, Choice):
            return self.choose(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, T):
            if f.op == 'none' or f.op == 'undef':
                return UNDEF
            if f.op == 'ite':
                return self.choose(f.args[0], lambda: self.call(f.args[1], args, kw), lambda: self.call(f.args[2], args, kw))
            r = mk('call' if f.op in ('sym', 'attr') else 'unk', *([f] if f.op in ('sym', 'attr') else ['call', f]),
                   *[self.freeze(a) for a in args], *[mk('kw', k, self.freeze(x)) for k, x in sorted(kw.items())])
            if f.op == 'attr' and not str(f.args[1]).startswith('get'):
                self.effect('call', r)
            return r
        return unk_fresh('call', *[self.freeze(a) for a in args])

    def call_func(self, f, args, kw):
        depth = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        if depth >= 3 or len(self.frames) > 40:
            return unk_fresh('recursion', *[self.freeze(a) for a in args])
        node = f.node
        a = node.args
        env = {'<parent>': f.env}
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        bad = None
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
                if p in kw:
                    bad = 'two values for ' + p
            elif p in kw:
                env[p] = kw[p]
            else:
                j = i - (len(params) - len(f.defaults))
                if j >= 0:
                    env[p] = f.defaults[j]
                else:
                    bad = 'no value for ' + p
        extra = args[len(params):]
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(extra)
        elif extra:
            bad = 'too many arguments'
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw[p.arg]
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                bad = 'no value for ' + p.arg
        names = set(params) | {p.arg for p in a.kwonlyargs}
        rest = {k: v for k, v in kw.items() if k not in names}
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.newdict(rest)
        elif rest:
            bad = 'unexpected argument ' + ', '.join(rest)
        if bad:
            self.event('bad-call', f.name, bad)
            self.raise_('TypeError')
            raise Dead()
        self.analysed.add((f.path, getattr(node, 'lineno', 0), f.name))
        if self.oncall is not None:
            self.oncall(f, env)
        e = self.alloc('env', env)
        fr = Frame(e, f)
        fr.path, fr.modname = f.path, f.mod
        keepline = self.line
        self.frames.append(fr)
        gens = not isinstance(node, ast.Lambda) and _is_generator(node)
        if gens:
            o = self.obj(e)
            c = dict(o.c)
            c['<yield>'] = self.newlist([])
            self.put(e, o.with_(c=c))
        try:
            if isinstance(node, ast.Lambda):
                v = self.ev(node.body)
                if self.st is None:
                    raise Dead()
                return v
            try:
                self.exec_block(node.body)
            except Dead:
                self.st = None
            if self.st is not None:
                self.do_return(NONE)
            self.st = self.merge(fr.returns)
            if self.st is None:
                raise Dead()
            env = self.obj(e).c
            v = env['<ret>']
            if gens:
                v = env['<yield>']
            return v
        finally:
            self.frames.pop()
            self.line = keepline

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        y = self.obj(self.frames[-1].env).c.get('<yield>')
        if y is None:
            return unk_fresh('yield')
        self.lib.method(self, y, 'append', [v], {})
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        y = self.obj(self.frames[-1].env).c.get('<yield>')
        self.lib.method(self, y, 'extend', [v], {})
        return NONE

    # comprehensions
    def comp(self, gens, f, first=None):
        """-> array term of the frozen f() values"""
        if not gens:
            return vec(self.freeze(f()))
        g = gens[0]
        s = first or self.seq(self.ev(g.iter))
        if s.n is None:
            return unk_fresh('comprehension')
        c = const_of(s.n)

        def body(k):
            self.assign(g.target, s.get(k))
            p = TRUE
            for i in g.ifs:
                p = band(p, self.truth(self.ev(i)))
            return p
        if c is not None and c <= tm.MAXVEC:
            out = []
            for i in range(int(c)):
                p = simp(body(num(i)), self.st.pc)
                if p is FALSE:
                    continue
                x = self.comp(gens[1:], f) if len(gens) > 1 else vec(self.freeze(f()))
                out.append(ite(p, x, EMPTY))
            return concat(*out)
        k = fresh('i', 'num', int=True, lo=Fr(0), ub=s.n)
        p = body(k)
        pc = self.st.pc
        if len(gens) > 1:
            x = self.comp(gens[1:], f)
            x = ite(p, x, EMPTY)
            return cmap(s.n, k, x)
        # evaluate the element under the condition
        keep = self.st
        if p is not TRUE:
            self.st = keep.copy(band(pc, p))
        x = self.freeze(f())
        if p is not TRUE:
            self.st.pc = pc
        return filt(s.n, k, p, x)

    def scoped_comp(self, gens, f, first=None):
        env = self.alloc('env', {'<parent>': self.frames[-1].env})
        fr = Frame(env, self.frames[-1].func)
        fr.path, fr.modname = getattr(self.frames[-1], 'path', None), getattr(self.frames[-1], 'modname', None)
        self.frames.append(fr)
        try:
            return self.comp(gens, f, first)
        finally:
            self.frames.pop()

    def e_ListComp(self, e):
        # constant-length comprehensions keep their elements as values
        s = None
        if len(e.generators) == 1 and not e.generators[0].ifs:
            s = self.seq(self.ev(e.generators[0].iter))
            c = const_of(s.n) if s.n is not None else None
            if c is not None and c <= tm.MAXVEC:
                env = self.alloc('env', {'<parent>': self.frames[-1].env})
                fr = Frame(env, self.frames[-1].func)
                fr.path, fr.modname = getattr(self.frames[-1], 'path', None), getattr(self.frames[-1], 'modname', None)
                self.frames.append(fr)
                out = []
                try:
                    for i in range(int(c)):
                        self.assign(e.generators[0].target, s.get(num(i)))
                        out.append(self.ev(e.elt))
                finally:
                    self.frames.pop()
                return self.newlist(out)
        t = self.scoped_comp(e.generators, lambda: self.ev(e.elt), s)
        return self.listof(t)

    def listof(self, t):
        if t.op == 'vec':
            return self.newlist([self.thaw(x) for x in t.args])
        return self.alloc('list', (t, ()))

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        # over constant keys the values stay objects
        if len(e.generators) == 1 and not e.generators[0].ifs:
            s = self.seq(self.ev(e.generators[0].iter))
            c = const_of(s.n) if s.n is not None else None
            if c is not None and c <= tm.MAXVEC:
                env = self.alloc('env', {'<parent>': self.frames[-1].env})
                fr = Frame(env, self.frames[-1].func)
                fr.path, fr.modname = getattr(self.frames[-1], 'path', None), getattr(self.frames[-1], 'modname', None)
                self.frames.append(fr)
                out = self.newdict({})
                try:
                    for i in range(int(c)):
                        self.assign(e.generators[0].target, s.get(num(i)))
                        k = self.ev(e.key)
                        self.lib.store(self, out, k, self.ev(e.value))
                finally:
                    self.frames.pop()
                return out
            t = self.scoped_comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)), s)
            return self.lib.dict_from_pairs(self, t)
        t = self.scoped_comp(e.generators, lambda: (self.ev(e.key), self.ev(e.value)))
        return self.lib.dict_from_pairs(self, t)


def _is_generator(node):
    st = list(node.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class _Content:
    def __init__(self, o):
        self.o = o


_fz = Interp.freeze


def _freeze(self, v):
    if isinstance(v, _Content):
        return self.freeze_obj(v.o)
    if isinstance(v, Choice):
        return ite(v.c, self.freeze(v.a), self.freeze(v.b))
    return _fz(self, v)


Interp.freeze = _freeze


class Dead(Exception):
    """the current path has ended inside an expression"""


_ex = Interp.exec


def _exec(self, s):
    try:
        _ex(self, s)
    except Dead:
        self.st = None


Interp.exec = _exec
