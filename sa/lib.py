"""Models of the Python built-ins and of the library calls the package uses."""
import ast
import re as _re
from . import terms as tm
from .terms import (T, mk, sym, fresh, num, string, boolc, ite, band, bor, bnot, truthy, index, length, isarr, rank, kind,
                    const_of, unk, unk_fresh, vec, concat, map_, mapf, filt, cmap, subst, ew, eq, lt, le, add, sub, mul, div,
                    slice_, TRUE, FALSE, NONE, UNDEF, EMPTY, ZERO, ONE, TWO, NAN, PI, Fr)

tm.NUMOPS |= {'real', 'imag', 'tdsec', 'nrows', 'interp1', 'tonum', 'ufn', 'nrowsof', 'linterp', 'percentile'}
tm.STROPS |= {'fmtd', 'modfile', 'ucstr', 'slicechars', 'formatb'}
tm.ARROPS |= {'where2', 'uarr', 'pycol', 'csvr', 'splitlines', 'matchgroups', 'ravel', 'solve1', 'keys', 'dictvals', 'extract'}
tm.BOOLOPS |= {'matches', 'instype', 'exists', 'isstr', 'anyof', 'iskey'}
for _o in ('where2', 'uarr', 'csvr', 'splitlines', 'matchgroups', 'ravel', 'keys', 'dictvals', 'extract'):
    tm.RANK[_o] = lambda a: 1
tm.RANK['extract'] = lambda a: 1
tm.LEN['csv'] = lambda a: mk('nrows', a[0], a[1])
tm.LEN['csvr'] = lambda a: mk('nrows', a[0], a[1])
tm.LEN['ravel'] = lambda a: mul(length(a[0]), length(index(a[0], ZERO)))
tm.LEN['argsort'] = lambda a: length(a[0])
tm.ELEM['matchgroups'] = 'str'
tm.ELEM['csvr'] = 'str'
tm.ELEM['keys'] = 'str'
tm.ELEM['ravel'] = 'num'
tm.ELEM['splitlines'] = 'str'
tm.ELEM['where2'] = 'num'
tm.ELEM['extract'] = 'str'

_isint0 = tm.is_int


def const(v):
    if v is None:
        return NONE
    if v is True or v is False:
        return boolc(v)
    if isinstance(v, (int, float)):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return tm.INF if v > 0 else tm.neg(tm.INF)
        return num(v)
    if isinstance(v, str):
        return string(v)
    if isinstance(v, bytes):
        return string(v.decode('latin-1'))
    if isinstance(v, complex):
        return mul(num(v.imag), mk('iunit')) if v.real == 0 else add(num(v.real), mul(num(v.imag), mk('iunit')))
    if v is Ellipsis:
        return mk('ellipsis')
    return unk_fresh('constant')


UTC = mk('utc')
NUMPYCONST = {'pi': PI, 'nan': NAN, 'NaN': NAN, 'NAN': NAN, 'inf': tm.INF, 'newaxis': NONE, 'e': mk('exp', ONE)}
RENAMES = {
    'numpy.core': 'numpy', 'tomli.load': 'tomllib.load', 'tomli.loads': 'tomllib.loads', 'tomli': 'tomllib',
    'numpy.fft.fft2': 'numpy.fft.fft2', 'scipy.fft': 'numpy.fft', 'scipy.fftpack': 'numpy.fft', 'pandas.core.frame.DataFrame': 'pandas.DataFrame',
}


def resolve(I, name):
    from .interp import Lib
    for a, b in RENAMES.items():
        if name == a or name.startswith(a + '.'):
            name = b + name[len(a):]
    p = name.split('.')
    if len(p) == 2 and p[0] in ('numpy', 'math', 'np') and p[1] in NUMPYCONST:
        return NUMPYCONST[p[1]]
    if name in ('datetime.timezone.utc', 'datetime.UTC', 'pytz.utc', 'pytz.UTC'):
        return UTC
    return Lib(name)


BUILTINS = {'len', 'range', 'enumerate', 'zip', 'min', 'max', 'sum', 'abs', 'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict',
            'set', 'sorted', 'reversed', 'print', 'open', 'type', 'isinstance', 'format', 'any', 'all', 'map', 'filter', 'hasattr',
            'round', 'pow', 'divmod', 'bytes', 'callable', 'getattr', 'setattr', 'iter', 'next', 'repr', 'id', 'staticmethod',
            'property', 'classmethod', 'object', 'ValueError', 'Exception', 'KeyError', 'TypeError', 'AssertionError', 'IndexError',
            'RuntimeError', 'StopIteration', 'super', 'slice', 'complex', 'ord', 'chr', 'bin', 'frozenset', 'NotImplementedError',
            'FileNotFoundError', 'OSError', 'IOError', 'vars', 'hash', 'bytearray', 'iter', 'AttributeError', 'Warning', 'UserWarning',
            'BaseException', 'ZeroDivisionError', 'LookupError', 'ArithmeticError', 'UnicodeDecodeError', 'input', 'exec', 'eval',
            'globals', 'locals', 'delattr', 'memoryview', 'DeprecationWarning', 'RuntimeWarning', 'EOFError', 'PermissionError',
            'NameError', 'OverflowError', 'ImportError', 'ModuleNotFoundError', 'hex', 'oct', 'ascii', '__import__', 'breakpoint'}


def builtin(I, name):
    from .interp import Lib
    if name in BUILTINS:
        return Lib('builtins.' + name)
    if name == '__doc__':
        return NONE
    if name == '__debug__':
        return TRUE
    return None


# --------------------------------------------------------------------------
# small helpers
# --------------------------------------------------------------------------
def Ref():
    from .interp import Ref as R
    return R


def fz(I, v):
    return I.freeze(v)


def okind(I, v):
    from .interp import Ref
    if isinstance(v, Ref):
        return I.obj(v).kind
    return None


def pytype(I, v):
    """name of the Python type of a value when known, else None"""
    from .interp import Ref, Func, Lib, Py, Seq
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, Ref):
        return {'list': 'list', 'arr': 'ndarray', 'dict': 'dict', 'df': 'DataFrame', 'inst': 'object', 'file': 'file'}.get(I.obj(v).kind)
    if isinstance(v, (Func, Py)):
        return 'function'
    if isinstance(v, Seq):
        return 'iterator'
    if isinstance(v, T):
        if v.op == 'sym' and tm.SYM[v].get('pytype'):
            return tm.SYM[v]['pytype']
        if v.op == 'bool':
            return 'bool'
        k = kind(v)
        if v.op == 'num':
            return 'int' if v.args[0].denominator == 1 else 'float'
        if k == 'str':
            return 'str'
        if k == 'none':
            return 'NoneType'
        if k == 'bool':
            return 'bool'
        if k == 'dt':
            return 'datetime'
        if k == 'num' and v.op in ('len', 'count', 'int'):
            return 'int'
        if k == 'num' and v.op != 'sym':
            return 'number'
        if isarr(v):
            return 'ndarray'
        if k == 'df':
            return 'DataFrame'
    return None


TYPENAMES = {'builtins.str': {'str'}, 'builtins.int': {'int', 'bool'}, 'builtins.float': {'float'}, 'builtins.list': {'list'},
             'builtins.tuple': {'tuple'}, 'builtins.dict': {'dict'}, 'numpy.ndarray': {'ndarray'}, 'pandas.DataFrame': {'DataFrame'},
             'builtins.bool': {'bool'}, 'datetime.datetime': {'datetime'}, 'pandas.Series': {'Series'}, 'os.PathLike': set(),
             'pathlib.Path': set(), 'numpy.integer': set(), 'numbers.Number': {'int', 'float', 'bool', 'number'},
             'builtins.bytes': set()}


def istype(I, v, tname, strict=False):
    from .interp import Ref
    if isinstance(v, Ref) and I.obj(v).kind == 'arr':
        t = I.obj(v).c
        if isinstance(t, T) and t.op == 'ite' and any(not isarr(x) and x.op != 'undef' for x in leaves(t)):
            v = t
    names = TYPENAMES.get(tname)
    pt = pytype(I, v)
    if isinstance(v, T) and v.op == 'ite':
        return ite(v.args[0], istype(I, I.thaw(v.args[1]), tname, strict), istype(I, I.thaw(v.args[2]), tname, strict))
    if names is not None and pt is not None:
        if pt == 'number' and tname in ('builtins.int', 'builtins.float'):
            return mk('instype', fz(I, v), tname)
        if strict:
            return boolc(pt == tname.split('.')[-1])
        return boolc(pt in names)
    return mk('instype', fz(I, v), tname)


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def implies_types():
    pass


def logical_and(I, a, b):
    if isinstance(a, T) and isinstance(b, T) and not isarr(a) and not isarr(b):
        return band(a, b)
    return wrap(I, ew(band, [fz(I, a), fz(I, b)]))


def wrap(I, t, kind='arr', roots=frozenset(), x=None):
    if isinstance(t, T) and t.op == 'df':
        return I.alloc('df', t)
    return I.array(t, roots, kind, x)


def tolist(I, v):
    if okind(I, v) == 'list':
        base, tail = I.obj(v).c
        return I.alloc('list', (base, tail))
    s = I.seq(v)
    c = const_of(s.n) if s.n is not None else None
    if c is not None and c <= 400:
        return I.newlist([s.get(num(i)) for i in range(int(c))])
    if s.n is None:
        return unk_fresh('list')
    return I.alloc('list', (I.freeze_seq(s) if s.src is None else s.src, ()))


# --------------------------------------------------------------------------
# operators
# --------------------------------------------------------------------------
def unary(I, op, v):
    t = fz(I, v)
    if isinstance(op, ast.USub):
        return wrap(I, ew(tm.neg, [t]))
    if isinstance(op, ast.UAdd):
        return wrap(I, t)
    if isinstance(op, ast.Invert):
        return wrap(I, ew(lambda x: bnot(x) if tm.is_bool(x) else sub(num(-1), x), [t]))
    return unk_fresh('unary', t)


def isstr(t):
    return kind(t) == 'str'


def cat(*ps):
    out = []
    for p in ps:
        if p.op == 'ite':
            return tm._hoist(cat, ps)
        if p.op == 'cat':
            out.extend(p.args)
        elif p.op == 'str' and p.args[0] == '':
            continue
        else:
            out.append(p)
    r = []
    for p in out:
        if r and p.op == 'str' and r[-1].op == 'str':
            r[-1] = string(r[-1].args[0] + p.args[0])
        else:
            r.append(p)
    if not r:
        return string('')
    if len(r) == 1:
        return r[0]
    return mk('cat', *r)


tm.APP['cat'] = cat


def strof(x):
    if x.op == 'ite':
        return tm._hoist(strof, (x,))
    if isstr(x):
        return x
    if x.op == 'num' and x.args[0].denominator == 1:
        return string(str(x.args[0]))
    if x.op in ('none', 'bool'):
        return string(str(None if x.op == 'none' else x.args[0]))
    if kind(x) == 'any' and x.op == 'index' and x.args[0].op in ('split', 'lines', 'keys'):
        return x
    return mk('strof', x)


tm.APP['strof'] = strof


def fmt(x, spec):
    if x.op == 'ite':
        return tm._hoist(lambda y: fmt(y, spec), (x,))
    if spec in ('', 's'):
        return strof(x)
    if x.op == 'num' and _re.fullmatch(r'0?\d*d', spec):
        return string(format(int(x.args[0]), spec))
    if x.op == 'str' and spec[-1:] not in 'd':
        try:
            return string(format(x.args[0], spec))
        except ValueError:
            pass
    if spec == 'd':
        return strof(x) if tm.is_int(x) else mk('fmt', 'd', x)
    return mk('fmt', spec, x)


tm.APP['fmt'] = lambda spec, x: fmt(x, spec) if isinstance(spec, str) else None


def percent(I, s, v):
    """'...' % v"""
    if s.op != 'str':
        return unk('percent', s, fz(I, v))
    vals = list(v) if isinstance(v, tuple) else [v]
    out, i, txt = [], 0, s.args[0]
    pos = 0
    for m in _re.finditer(r'%(?:\((\w+)\))?([#0\- +]*)(\d+|\*)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])', txt):
        out.append(string(txt[pos:m.start()]))
        pos = m.end()
        if m.group(5) == '%':
            out.append(string('%'))
            continue
        if m.group(1):
            return unk('percent', s, fz(I, v))
        if i >= len(vals):
            return unk('percent', s, fz(I, v))
        x = fz(I, vals[i])
        i += 1
        flags, width, prec, c = m.group(2) or '', m.group(3) or '', m.group(4), m.group(5)
        spec = ''
        if c in 'di':
            spec = ('0' if '0' in flags else '') + width + 'd'
            if '-' in flags or '+' in flags or ' ' in flags:
                spec = flags + spec
        elif c == 's':
            spec = width if not width else ('<' if '-' in flags else '>') + width
        elif c == 'r':
            spec = '!r'
        else:
            spec = flags + width + ('.' + prec if prec else '') + c
        out.append(fmt(x, spec))
    out.append(string(txt[pos:]))
    return cat(*out)


def strformat(I, s, args, kw):
    if s.op != 'str':
        return unk('format', s, *[fz(I, a) for a in args])
    import string as _s
    out, auto = [], 0
    try:
        for lit, field, spec, conv in _s.Formatter().parse(s.args[0]):
            out.append(string(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return unk('format', s, *[fz(I, a) for a in args])
            if conv or '{' in (spec or ''):
                return unk('format', s, *[fz(I, a) for a in args])
            out.append(fmt(fz(I, v), spec or ''))
    except (IndexError, ValueError):
        return unk_fresh('format')
    return cat(*out)


def scalar_add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(scalar_add, (a, b))
    ka, kb = kind(a), kind(b)
    if ka == 'str' or kb == 'str':
        return cat(a, b)
    if ka == 'dt' or kb == 'dt' or ka == 'td' or kb == 'td':
        return mk('dtadd', a, b)
    if a.op in ('dtdiff', 'timedelta') or b.op in ('dtdiff', 'timedelta'):
        return mk('dtadd', a, b)
    return add(a, b)


def scalar_sub(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(scalar_sub, (a, b))
    if kind(a) == 'dt' or kind(b) == 'dt':
        if b.op in ('timedelta', 'dtdiff'):
            return mk('dtadd', a, mk('tdneg', b))
        return mk('dtdiff', a, b)
    return sub(a, b)


def scalar_mul(a, b):
    if a.op == 'str' and b.op == 'num':
        return string(a.args[0] * int(b.args[0]))
    return mul(a, b)


def scalar_div(a, b):
    if a.op == 'dtdiff' and b.op == 'timedelta':
        return div(tdsec(a), tdsec(b))
    return div(a, b)


def tdsec(td):
    """total seconds of a time difference"""
    if td.op == 'timedelta':
        return td.args[0]
    f = lambda n: mk('tdfield', n, td)
    return tm.addn(mul(num(86400), f('days')), f('seconds'), mul(num(Fr(1, 10**6)), f('microseconds')))


def binop(I, op, a, b):
    from .interp import Ref
    ka, kb = okind(I, a), okind(I, b)
    if isinstance(op, ast.Mod) and not isinstance(a, Ref):
        ta = fz(I, a)
        if isstr(ta):
            return percent(I, ta, b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(op, ast.Mult):
            t, n = (a, b) if isinstance(a, tuple) else (b, a)
            c = const_of(fz(I, n))
            if c is not None:
                return t * int(c)
    if isinstance(op, ast.Add) and ka == 'list' and kb == 'list':
        (b1, t1), (b2, t2) = I.obj(a).c, I.obj(b).c
        if b2 is EMPTY:
            return I.alloc('list', (b1, t1 + t2))
        return I.alloc('list', (concat(fz(I, a), fz(I, b)), ()))
    if isinstance(op, ast.Mult) and (ka == 'list' or kb == 'list') and not (ka in ('arr', 'df') or kb in ('arr', 'df')):
        l, n = (a, b) if ka == 'list' else (b, a)
        nt = fz(I, n)
        c = const_of(nt)
        base, tail = I.obj(l).c
        if c is not None and base is EMPTY:
            return I.newlist(tail * int(c))
        if base is EMPTY and len(tail) == 1:
            x = fz(I, tail[0])
            return I.alloc('list', (mapf(nt, lambda k: x), ()))
        return unk_fresh('repeat', fz(I, l), nt)
    ta, tb = fz(I, a), fz(I, b)
    if ta.op == 'df' or tb.op == 'df':
        if ta.op == 'df' and not isarr_or_df(tb) and ta.args[2] is NONE:
            return I.alloc('df', mk('df', ta.args[0], tuple((n, ew(lambda x: SCALAROP[type(op)](x, tb), [c])) for n, c in ta.args[1]), NONE))
        return unk_fresh('frame op', ta, tb)
    if isinstance(op, ast.MatMult):
        return wrap(I, matmul(ta, tb))
    f = SCALAROP.get(type(op))
    if f is None:
        return unk_fresh('binop', ta, tb)
    return wrap(I, bcast(f, ta, tb))


def isarr_or_df(t):
    return isarr(t) or t.op == 'df'


def bcast(f, *ts):
    """elementwise with numpy broadcasting of constant singleton dimensions"""
    return ew(f, list(ts))


def bitop(f, name):
    def g(a, b):
        if a.op == 'ite' or b.op == 'ite':
            return tm._hoist(g, (a, b))
        if tm.is_bool(a) and tm.is_bool(b):
            return f(a, b)
        return bits(name, a, b)
    return g


def bits(name, a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        x, y = int(ca), int(cb)
        return num({'and': x & y, 'or': x | y, 'xor': x ^ y}[name])
    if name == 'and':
        for x, c in ((a, cb), (b, ca)):
            if c is not None and c >= 0:
                y, sh = x, 0
                # (x >> s) & 1
                if c == 1:
                    return bit(x, 0)
                n = int(c)
                if n & (n - 1) == 0:
                    return mul(num(n), bit(x, n.bit_length() - 1))
    return mk('bitop', name, *sorted((a, b), key=lambda t: t.id))


def bit(x, i):
    """bit i of a non-negative integer"""
    if x.op == 'shr':
        return bit(x.args[0], i + x.args[1])
    c = const_of(x)
    if c is not None:
        return num((int(c) >> i) & 1)
    return mk('bit', x, i)


def shr(a, b):
    cb = const_of(b)
    if cb is not None:
        ca = const_of(a)
        if ca is not None:
            return num(int(ca) >> int(cb))
        if cb == 0:
            return a
        return mk('shr', a, int(cb))
    return mk('bitop', 'shr', a, b)


def shl(a, b):
    cb = const_of(b)
    if cb is not None:
        return mul(a, num(2 ** int(cb)))
    return mul(a, tm.powT(TWO, b))


tm.NUMOPS |= {'shr', 'bitop'}

SCALAROP = {ast.Add: scalar_add, ast.Sub: scalar_sub, ast.Mult: scalar_mul, ast.Div: scalar_div, ast.Pow: tm.powT,
            ast.Mod: tm.mod, ast.FloorDiv: tm.floordiv, ast.BitAnd: bitop(band, 'and'), ast.BitOr: bitop(bor, 'or'),
            ast.BitXor: bitop(lambda a, b: ite(a, bnot(b), b), 'xor'), ast.RShift: shr, ast.LShift: shl}


def matmul(a, b):
    ra, rb = rank(a), rank(b)
    if ra == 1 and rb == 1:
        return tm_sum(ew(mul, [a, b]))
    if ra == 2 and rb == 1:
        return rows(a, lambda r: matmul(r, b))
    if ra == 2 and rb == 2:
        bt = tm.transpose(b)
        return rows(a, lambda r: rows(bt, lambda c: matmul(r, c)))
    if ra == 1 and rb == 2:
        return rows(tm.transpose(b), lambda c: matmul(a, c))
    return unk_fresh('matmul', a, b)


def rows(a, f):
    n = length(a)
    c = const_of(n)
    if c is not None and c <= tm.MAXVEC:
        return vec(*[f(index(a, num(i))) for i in range(int(c))])
    return mapf(n, lambda k: f(index(a, k)))


def tm_sum(t, axis=None):
    if t.op == 'ite':
        return tm._hoist(lambda x: tm_sum(x, axis), (t,))
    r = rank(t)
    if t.op == 'ravel':
        return tm_sum(t.args[0])
    if r == 1 or r is None or r == 0:
        if t.op == 'concat' or t.op == 'vec':
            tot = ZERO
            for p in (t.args if t.op == 'concat' else ()):
                tot = add(tot, tm_sum(p))
            if t.op == 'vec':
                for x in t.args:
                    tot = add(tot, x)
            return tot
        if t.op == 'filt':
            n, bv, p, b = t.args
            v, (p, b) = tm.open_(t)
            return tm.sum_(n, v, ite(p, b, ZERO))
        if t.op == 'cmap':
            v, (b,) = tm.open_(t)
            return tm.sum_(t.args[0], v, tm_sum(b))
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return tm.sum_(n, k, index(t, k))
    if axis is None:
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return tm.sum_(n, k, tm_sum(index(t, k)))
    if axis == 0:
        return rows(tm.transpose(t), lambda r: tm_sum(r))
    return rows(t, lambda r: tm_sum(r))


def flat(t):
    """1-d view of an array"""
    if t.op == 'ite':
        return tm._hoist(flat, (t,))
    if rank(t) == 2:
        n, m = length(t), length(index(t, ZERO))
        if const_of(m) == 1:
            return rows(t, lambda r: index(r, ZERO))
        cn = const_of(n)
        if cn is not None and cn <= tm.MAXVEC:
            return concat(*[index(t, num(i)) for i in range(int(cn))])
        return mk('ravel', t)
    return t


def total(t):
    r = rank(t)
    if r == 2:
        return mul(length(t), length(index(t, ZERO)))
    return length(t)


def reduce_minmax(op, t):
    if t.op == 'ite':
        return tm._hoist(lambda x: reduce_minmax(op, x), (t,))
    if t.op == 'ravel':
        return reduce_minmax(op, t.args[0])
    if rank(t) == 2:
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return tm.rmin_(n, k, reduce_minmax(op, index(t, k)), 'r' + op)
    if t.op == 'vec' and t.args:
        return tm.minmax(op, t.args)
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return tm.rmin_(n, k, index(t, k), 'r' + op)


def any_of(t):
    if t.op == 'ite':
        return tm._hoist(any_of, (t,))
    if rank(t) == 2:
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return tm.any_(n, k, any_of(index(t, k)))
    if not isarr(t):
        return truthy(t)
    if t.op == 'vec':
        return bor(*[truthy(x) for x in t.args])
    if t.op == 'filt':
        v, (p, b) = tm.open_(t)
        return tm.any_(t.args[0], v, band(p, truthy(b)))
    if t.op == 'concat':
        return bor(*[any_of(x) for x in t.args])
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return tm.any_(n, k, truthy(index(t, k)))


def all_of(t):
    return bnot(any_of(ew(lambda x: bnot(truthy(x)), [t])))


# --------------------------------------------------------------------------
# comparison
# --------------------------------------------------------------------------
def is_(I, a, b):
    from .interp import Ref, Lib, Func, Py, Cls
    if isinstance(a, Lib) and isinstance(b, Lib):
        return boolc(a.name == b.name)
    if isinstance(a, TypeOf):
        if isinstance(b, Lib):
            return istype(I, a.v, b.name, strict=True)
    if isinstance(b, TypeOf):
        return is_(I, b, a) if not isinstance(a, TypeOf) else eq(typeterm(I, a.v), typeterm(I, b.v))
    if isinstance(b, T) and b.op == 'none':
        if isinstance(a, T):
            if a.op == 'ite':
                return tm._hoist(lambda x: is_(I, x, NONE), (a,))
            if a.op == 'none':
                return TRUE
            if a.op == 'undef':
                return FALSE
            if kind(a) in ('num', 'str', 'arr', 'bool', 'dt', 'df', 'tup') or a.op in ('vec', 'map', 'mobj', 'func'):
                return FALSE
            if a.op == 'sym' and (tm.SYM[a].get('notnone') or tm.SYM[a].get('external')):
                return FALSE
            if a.op == 'match':
                return bnot(truthy(a))
            return mk('isnone', a)
        return FALSE
    if isinstance(a, T) and a.op == 'none':
        return is_(I, b, a)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return boolc(a.a == b.a)
    if isinstance(a, T) and isinstance(b, T):
        return equal(I, a, b)
    if isinstance(a, (Func, Py, Cls)) or isinstance(b, (Func, Py, Cls)):
        return boolc(a is b)
    return FALSE


class TypeOf:
    def __init__(self, v):
        self.v = v
        self.name = 'type'


def typeterm(I, v):
    return mk('typeof', fz(I, v))


def equal(I, a, b):
    from .interp import Ref, Lib, Func
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return is_(I, a, b)
    if isinstance(a, (Lib, Func)) or isinstance(b, (Lib, Func)):
        if isinstance(b, T) and b.op == 'none' or isinstance(a, T) and a.op == 'none':
            return FALSE
        return boolc(a is b or a == b)
    from .interp import Py
    if isinstance(a, Py) or isinstance(b, Py):
        return boolc(a is b)
    if isinstance(b, T) and b.op == 'none' or isinstance(a, T) and a.op == 'none':
        return is_(I, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return band(*[equal(I, x, y) for x, y in zip(a, b)])
    if okind(I, a) == 'list' and okind(I, b) == 'list':
        ta, tb = fz(I, a), fz(I, b)
        if ta.op == 'vec' and tb.op == 'vec':
            return band(*[eq(x, y) for x, y in zip(ta.args, tb.args)]) if len(ta.args) == len(tb.args) else FALSE
        if tb is EMPTY:
            return bnot(truthy(ta))
        if ta is EMPTY:
            return bnot(truthy(tb))
        return eq(ta, tb)
    ta, tb = fz(I, a), fz(I, b)
    ka, kb = okind(I, a), okind(I, b)
    if isarr(ta) and isarr(tb) and ka != 'arr' and kb != 'arr' and 'str' in (tm.elemkind(ta), tm.elemkind(tb)):
        return eq(ta, tb)           # lists of texts, such as the fields of a line: one answer
    if 'list' in (ka, kb) and None in (ka, kb):
        x = tb if ka == 'list' else ta
        if isarr(x) or kind(x) not in ('num', 'bool', 'str', 'dt') or x.op in ('index', 'sym'):
            return unk('list or array ==', ta, tb)
        return FALSE
    return wrap(I, ew(seq, [ta, tb]))


def seq(a, b):
    """scalar equality with a few laws"""
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(seq, (a, b))
    for x, y in ((a, b), (b, a)):
        if x.op == 'find' and y.op == 'num':
            if y.args[0] == -1:
                return bnot(contains(x.args[1], x.args[0]))
            if y.args[0] == 0:
                return startswith(x.args[0], x.args[1])
        if x.op == 'mod' and y.op == 'num' and x.args[1] is TWO and y.args[0] == 1 and tm.is_int(x.args[0]):
            return bnot(tm.eq0(x))
        if x.op == 'sslice' and y.op == 'str' and x.args[1] is ZERO and x.args[2].op == 'num' and x.args[2].args[0] == len(y.args[0]):
            return startswith(x.args[0], y)
        if x.op == 'index' and x.args[0].op == 'chars' and x.args[1] is ZERO and y.op == 'str' and len(y.args[0]) == 1:
            return startswith(x.args[0].args[0], y)
    return eq(a, b)


def contains(s, t):
    """s in t, t a string"""
    if s.op == 'ite' or t.op == 'ite':
        return tm._hoist(contains, (s, t))
    if s.op == 'str' and t.op == 'str':
        return boolc(s.args[0] in t.args[0])
    if s.op == 'str' and s.args[0] == '':
        return TRUE
    return mk('in', s, t)


tm.APP['in'] = contains


def startswith(s, p):
    if s.op == 'ite' or p.op == 'ite':
        return tm._hoist(startswith, (s, p))
    if p.op == 'tup':
        r = FALSE
        for x in p.args:
            r = bor(r, startswith(s, x))
        return r
    if s.op == 'str' and p.op == 'str':
        return boolc(s.args[0].startswith(p.args[0]))
    if p.op == 'str' and p.args[0] == '':
        return TRUE
    if s.op == 'cat' and p.op == 'str' and s.args[0].op == 'str':
        h = s.args[0].args[0]
        if len(h) >= len(p.args[0]):
            return boolc(h.startswith(p.args[0]))
        if not p.args[0].startswith(h):
            return FALSE
    return mk('startswith', s, p)


tm.APP['startswith'] = startswith


def isin(I, a, b):
    """a in b"""
    from .interp import Ref, Seq, Lib
    if isinstance(b, Ref):
        o = I.obj(b)
        if o.kind == 'dict':
            d, extra = o.c
            k = I.key(a)
            r = FALSE
            if I.isconstkey(k) and k in d:
                v = d[k]
                return TRUE if not (isinstance(v, T) and any(l.op == 'absent' for l in tm.leaves(v))) else \
                    tm._leafmap(v, lambda l: boolc(l.op != 'absent'))
            if not I.isconstkey(k):
                for kk in d:
                    r = bor(r, seq(fz(I, a), I.keyval(kk)))
            if extra is EMPTY:
                return r
            j = extra_lookup(extra, fz(I, a))
            return bor(r, mk('iskey', fz(I, a), extra))
        if o.kind == 'df':
            cols = df_columns(I, b)
            return isin(I, a, cols)
        if o.kind == 'list':
            base, tail = o.c
            r = FALSE
            for x in tail:
                r = bor(r, fz(I, equal(I, a, x)))
            if base is not EMPTY:
                ta = fz(I, a)
                r = bor(r, any_of(ew(lambda x: seq(x, ta), [base])))
            return r
        if o.kind == 'file':
            return contains(fz(I, a), mk('readall', o.c['path']))
    if isinstance(b, tuple):
        r = FALSE
        for x in b:
            r = bor(r, fz(I, equal(I, a, x)))
        return r
    if isinstance(b, Seq):
        if b.src is not None:
            b = b.src
        else:
            c = const_of(b.n)
            if c is not None:
                return isin(I, a, tuple(b.get(num(i)) for i in range(int(c))))
            return unk_fresh('in', fz(I, a))
    ta, tb = fz(I, a), fz(I, b)
    if isstr(tb) or tb.op in ('lines', 'index') and isstr(ta) and not isarr(tb):
        return ew(lambda x: contains(x, tb), [ta]) if isarr(ta) else contains(ta, tb)
    if tb.op == 'keys':
        return mk('iskey', ta, tb.args[0])
    if isarr(tb):
        return any_of(ew(lambda x: seq(x, ta), [tb]))
    return mk('in', ta, tb)


def compare(I, op, a, b):
    if isinstance(op, ast.Is):
        return is_(I, a, b)
    if isinstance(op, ast.IsNot):
        return bnot(is_(I, a, b))
    if isinstance(op, ast.In):
        return isin(I, a, b)
    if isinstance(op, ast.NotIn):
        return bnot(isin(I, a, b))
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = equal(I, a, b)
        if isinstance(op, ast.NotEq):
            t = fz(I, r)
            return wrap(I, ew(bnot, [t]))
        return r
    ta, tb = fz(I, a), fz(I, b)
    f = {ast.Lt: slt, ast.LtE: sle, ast.Gt: lambda x, y: slt(y, x), ast.GtE: lambda x, y: sle(y, x)}[type(op)]
    return wrap(I, ew(f, [ta, tb]))


def slt(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(slt, (a, b))
    if a.op == 'find' and b.op == 'num' and b.args[0] == 0:
        return bnot(contains(a.args[1], a.args[0]))
    if b.op == 'find' and a.op == 'num' and a.args[0] == -1:
        return contains(b.args[1], b.args[0])
    if a.op == 'str' and b.op == 'str':
        return boolc(a.args[0] < b.args[0])
    if kind(a) in ('dt', 'str') or kind(b) in ('dt', 'str'):
        return mk('ltgen', a, b)
    if a.op == 'inf' or b.op == 'inf':
        return TRUE if b.op == 'inf' else FALSE
    return lt(a, b)


def sle(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(sle, (a, b))
    if b.op == 'find' and a.op == 'num' and a.args[0] == 0:
        return contains(b.args[1], b.args[0])
    if a.op == 'str' and b.op == 'str':
        return boolc(a.args[0] <= b.args[0])
    if kind(a) in ('dt', 'str') or kind(b) in ('dt', 'str'):
        return bnot(mk('ltgen', b, a))
    return le(a, b)


tm.BOOLOPS |= {'ltgen'}


# --------------------------------------------------------------------------
# subscripts
# --------------------------------------------------------------------------
def slice_bounds(I, s):
    f = lambda x: None if x is None else (None if isinstance(x, T) and x.op == 'none' else fz(I, x))
    return f(s.lo), f(s.hi), f(s.step)


def strslice(t, lo, hi):
    if t.op == 'ite':
        return tm._hoist(lambda x: strslice(x, lo, hi), (t,))
    if t.op == 'str' and all(x is None or x.op == 'num' for x in (lo, hi)):
        a = None if lo is None else int(lo.args[0])
        b = None if hi is None else int(hi.args[0])
        return string(t.args[0][a:b])
    if lo is None:
        lo = ZERO
    if hi is not None and hi is length(t):
        hi = None
    if t.op == 'sslice' and t.args[2] is NONE and lo.op == 'num' and lo.args[0] >= 0 and t.args[1].op == 'num' and t.args[1].args[0] >= 0:
        nlo = add(t.args[1], lo)
        nhi = hi
        if hi is not None and hi.op == 'num' and hi.args[0] >= 0:
            nhi = add(t.args[1], hi)
            return mk('sslice', t.args[0], nlo, nhi)
        if hi is None:
            return mk('sslice', t.args[0], nlo, NONE)
    if lo is ZERO and hi is None:
        return t
    # [:-k] of a string ending
    return mk('sslice', t, lo, hi if hi is not None else NONE)


tm.APP['sslice'] = lambda t, lo, hi: strslice(t, lo, None if hi is NONE else hi)


def selectors(I, ix):
    """python index -> list of selectors"""
    from .interp import Slice, Ref
    out = []
    for x in (ix if isinstance(ix, tuple) else (ix,)):
        if isinstance(x, Slice):
            out.append(('slice',) + slice_bounds(I, x))
        else:
            t = fz(I, x)
            if t.op == 'ellipsis':
                out.append(('all',))
            elif t.op == 'none':
                out.append(('new',))
            elif t.op == 'slice':
                g = lambda y: None if y is NONE else y
                out.append(('slice', g(t.args[0]), g(t.args[1]), g(t.args[2])))
            elif isarr(t) and okind(I, x) != 'dict':
                out.append(('arr', t))
            else:
                out.append(('int', t))
    return out


def ismask(t):
    b = t
    while True:
        if b.op in ('map', 'filt', 'cmap'):
            b = tm.open_(b)[1][-1]
        elif b.op == 'vec' and b.args:
            b = b.args[0]
        elif b.op == 'ite':
            b = next((x for x in tm.leaves(b) if x.op != 'undef'), b.args[1])
        elif b.op == 'sym':
            return tm.SYM[b].get('elem') == 'bool'
        elif b.op == 'concat':
            b = b.args[0]
        else:
            break
    return tm.is_bool(b)


def get_sel(a, sels):
    if not sels:
        return a
    if a.op == 'ite':
        return tm._hoist(lambda x: get_sel(x, sels), (a,))
    s, rest = sels[0], sels[1:]
    if s[0] == 'new':
        return vec(get_sel(a, rest))
    if s[0] == 'all':
        if not rest:
            return a
        if len(rest) == (rank(a) or 1):
            return get_sel(a, rest)
        return rows(a, lambda r: get_sel(r, rest))
    if s[0] == 'int':
        return get_sel(index(a, s[1]), rest)
    if s[0] == 'slice':
        b = slice_(a, s[1], s[2], s[3])
        if not rest:
            return b
        return rows(b, lambda r: get_sel(r, rest))
    t = s[1]
    if t.op == 'ite':
        return tm._hoist(lambda x: get_sel(a, [('arr', x)] + list(rest)), (t,))
    if ismask(t):
        if rank(t) == 2:
            n, m = length(a), length(index(a, ZERO))
            return unk_fresh('mask2', a, t)
        n = length(a)
        v = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        r = filt(n, v, index(t, v), index(a, v))
        return rows(r, lambda x: get_sel(x, rest)) if rest else r
    if rest and rest[0][0] == 'arr' and not ismask(rest[0][1]):
        u = rest[0][1]
        if t.op == 'where2' and u.op == 'where2':
            return mk('pick2', a, t, u)
        return mapf(length(t), lambda k: get_sel(index(index(a, index(t, k)), index(u, k)), rest[1:]))
    if rank(t) == 2:
        return rows(t, lambda r: get_sel(a, [('arr', r)] + list(rest)))
    return rows(t, lambda k: get_sel(index(a, fixneg(k, a)), rest))


def fixneg(k, a):
    return k


tm.ARROPS |= {'pick2'}
tm.RANK['pick2'] = lambda a: 1


def subscript(I, base, ix):
    from .interp import Ref, Slice, Lib, Seq, Choice
    if isinstance(base, Lib):
        return base
    if isinstance(base, tuple):
        if isinstance(ix, Slice):
            lo, hi, st = slice_bounds(I, ix)
            cs = [None if x is None else const_of(x) for x in (lo, hi, st)]
            if all(x is None or y is not None for x, y in zip((lo, hi, st), cs)):
                return base[slice(*[None if y is None else int(y) for y in cs])]
            return unk_fresh('tuple slice', fz(I, base))
        k = fz(I, ix)
        c = const_of(k)
        if c is not None:
            if -len(base) <= c < len(base):
                return base[int(c)]
            I.raise_('IndexError')
            from .interp import Dead
            raise Dead()
        if k.op == 'ite':
            return I.choose(k.args[0], lambda: subscript(I, base, k.args[1]), lambda: subscript(I, base, k.args[2]))
        if tm.is_bool(k):
            return I.choose(k, lambda: base[1], lambda: base[0])
        return index(fz(I, base), k)
    if isinstance(base, Row):
        from .lib3 import row_get
        return row_get(I, base, ix)
    if isinstance(base, Seq):
        return base.get(fz(I, ix))
    if isinstance(base, Ref):
        o = I.obj(base)
        if o.kind == 'dict':
            return dict_get(I, base, ix)
        if o.kind == 'df':
            return df_subscript(I, base, ix)
        if o.kind == 'list':
            b, tail = o.c
            if not isinstance(ix, (Slice, tuple)):
                k = fz(I, ix)
                c = const_of(k)
                if c is not None and b is EMPTY:
                    if -len(tail) <= c < len(tail):
                        return tail[int(c)]
                if k.op == 'ite':
                    return I.choose(k.args[0], lambda: subscript(I, base, k.args[1]), lambda: subscript(I, base, k.args[2]))
                if tm.is_bool(k) and b is EMPTY:
                    return I.choose(k, lambda: tail[1], lambda: tail[0])
            elif isinstance(ix, Slice) and b is EMPTY:
                lo, hi, st = slice_bounds(I, ix)
                cs = [None if x is None else const_of(x) for x in (lo, hi, st)]
                if all(x is None or y is not None for x, y in zip((lo, hi, st), cs)):
                    return I.newlist(tail[slice(*[None if y is None else int(y) for y in cs])])
            if isinstance(ix, Slice):
                lo, hi, st = slice_bounds(I, ix)
                return I.alloc('list', (slice_(fz(I, base), lo, hi, st), ()))
            return I.thaw(index(fz(I, base), fz(I, ix)))
        if o.kind == 'arr':
            if isinstance(o.x, tuple) and o.x and o.x[0] == 'loc':
                pass
            sels = selectors(I, ix)
            t = get_sel(o.c, sels)
            if not isarr(t):
                return I.thaw(t)
            view = all(s[0] in ('int', 'slice', 'all', 'new') for s in sels)
            if view:
                return I.alloc('arr', t, o.roots, ('view', base, sels, None))
            return I.alloc('arr', t)
        if o.kind == 'inst':
            return unk_fresh('subscript', fz(I, base), fz(I, ix))
        if o.kind == 'ext':
            return unk_fresh('subscript', fz(I, base), fz(I, ix))
    if isinstance(base, Loc):
        return loc_get(I, base, ix)
    t = fz(I, base)
    if t.op == 'ite' and not isarr(t):
        return I.choose(t.args[0], lambda: subscript(I, I.thaw(t.args[1]), ix), lambda: subscript(I, I.thaw(t.args[2]), ix))
    if isstr(t) or (t.op == 'index' and t.args[0].op in ('split', 'lines', 'keys')):
        if isinstance(ix, Slice):
            lo, hi, st = slice_bounds(I, ix)
            if st is not None:
                if const_of(st) == -1 and lo is None and hi is None:
                    return mk('revstr', t)
                return unk_fresh('string slice', t)
            return strslice(t, lo, hi)
        k = fz(I, ix)
        if t.op == 'str' and k.op == 'num' and -len(t.args[0]) <= k.args[0] < len(t.args[0]):
            return string(t.args[0][int(k.args[0])])
        if t.op == 'formatb':
            return fmtbit(t, k)
        return charat(t, k)
    if t.op in ('mobj', 'match'):
        return match_group(t, fz(I, ix))
    if isinstance(ix, (Slice, tuple)):
        if isarr(t) or kind(t) == 'any':
            r = get_sel(t, selectors(I, ix))
            return wrap(I, r)
    if t.op == 'dict':
        return dict_get(I, I.thaw(t), ix)
    k = fz(I, ix)
    if isarr(k):
        return wrap(I, get_sel(t, [('arr', k)]))
    if k.op == 'str' or isstr(k):
        return I.thaw(mk('getitem', t, k))
    return I.thaw(index(t, k))


tm.STROPS |= {'revstr', 'charat'}


def charat(t, k):
    c = const_of(k)
    if c is not None and c >= 0:
        return strslice(t, k, add(k, ONE))
    return mk('charat', t, k)


def fmtbit(t, k):
    """character k of format(x, '0Nb') for x < 2**N"""
    x, n = t.args
    c = const_of(k)
    if c is not None:
        if c < 0:
            c = n + c
        if 0 <= c < n:
            return mk('bitchar', bit(x, int(n - 1 - c)))
    return mk('bitchar', mk('bitop', 'shr1', x, sub(num(n - 1), k)))


tm.STROPS |= {'bitchar'}


# ---- stores
def store(I, base, ix, v):
    from .interp import Ref, Slice
    if isinstance(base, Loc):
        return loc_set(I, base, ix, v)
    if isinstance(base, Ref):
        o = I.obj(base)
        if o.kind == 'dict':
            k = I.key(ix)
            d, extra = o.c
            I.mutated(base, 'item of a dict assigned')
            if I.isconstkey(k):
                d = dict(d)
                d[k] = v
                I.put(base, o.with_(c=(d, extra)))
            else:
                I.put(base, o.with_(c=(d, concat(extra, vec(mk('tup', k, fz(I, v)))))))
            return
        if o.kind == 'df':
            df_store(I, base, ix, v)
            return
        if o.kind == 'list':
            b, tail = o.c
            I.mutated(base, 'list element assigned')
            if not isinstance(ix, (Slice, tuple)):
                c = const_of(fz(I, ix))
                if c is not None and b is EMPTY and -len(tail) <= c < len(tail):
                    tail = list(tail)
                    tail[int(c)] = v
                    I.put(base, o.with_(c=(b, tuple(tail))))
                    return
            t = store_sel(I, fz(I, base), selectors(I, ix), fz(I, v))
            I.put(base, o.with_(c=(t, ())))
            return
        if o.kind == 'arr':
            tv = fz(I, v)
            if o.x == ('ro',):
                # a column of a frame taken with .values is read-only (copy on write)
                I.event('readonly-store')
                I.raise_('ValueError')
                from .interp import Dead
                raise Dead()
            if o.x == ('int',):
                tv = ew(tm.toint, [tv])
            t = store_sel(I, o.c, selectors(I, ix), tv)
            I.write_arr(base, t, 'array element assigned')
            return
        if o.kind == 'inst':
            return
    t = fz(I, base)
    I.effect('setitem', t, fz(I, ix), fz(I, v))


def fill(a, v):
    """contents of a replaced by v (broadcast)"""
    ra, rv = rank(a) or 0, rank(v) or 0
    if ra == rv:
        if rv == 1 and const_of(length(v)) == 1 and const_of(length(a)) != 1:
            return rows(a, lambda r: index(v, ZERO))
        return v
    if ra > rv:
        return rows(a, lambda r: fill(r, v))
    return v


def store_sel(I, a, sels, v):
    if not sels:
        return fill(a, v)
    if a.op == 'ite':
        return tm._hoist(lambda x: store_sel(I, x, sels, v), (a,))
    if v.op == 'ite' and isarr(v):
        return tm._hoist(lambda x: store_sel(I, a, sels, x), (v,))
    s, rest = sels[0], sels[1:]
    n = length(a)
    c = const_of(n)

    def build(f):
        if c is not None and c <= tm.MAXVEC:
            return vec(*[f(num(i)) for i in range(int(c))])
        return mapf(n, f)
    if s[0] == 'all':
        if not rest:
            return fill(a, v)
        return build(lambda j: store_sel(I, index(a, j), rest, v))
    if s[0] == 'int':
        k = s[1]
        kc = const_of(k)
        if kc is not None and kc < 0:
            k = add(n, k)
        return build(lambda j: ite(eq(j, k), store_sel(I, index(a, j), rest, v), index(a, j)))
    if s[0] == 'slice':
        lo, hi, st = s[1:]
        stc = const_of(st) if st is not None else Fr(1)

        def fx(x):
            xc = const_of(x)
            if xc is not None and xc < 0:
                return add(n, x)
            if xc is None:
                l, h = tm.interval(x)
                if x.op == 'poly' and len(x.args[0]) == 1 and x.args[0][0][1] < 0:
                    return add(n, x)
            return x
        lo2 = fx(lo) if lo is not None else ZERO
        hi2 = fx(hi) if hi is not None else n
        rv = rank(v) or 0
        depth = (rank(a) or 1)

        def el(j):
            x = v
            # value rank equals rank of the selected part: one row per element
            selrank = depth - sum(1 for r in rest if r[0] == 'int')
            if rv >= selrank and rv > 0:
                x = index(v, div(sub(j, lo2), st) if stc != 1 else sub(j, lo2))
            return store_sel(I, index(a, j), rest, x)

        def cell(j):
            cnd = TRUE
            if lo is not None:
                cnd = band(cnd, le(lo2, j))
            if hi is not None:
                cnd = band(cnd, lt(j, hi2))
            if stc is None:
                return unk_fresh('store', a, v)
            if stc != 1:
                cnd = band(cnd, tm.eq0(tm.mod(sub(j, lo2), num(stc))))
            return ite(cnd, el(j), index(a, j))
        return build(cell)
    if s[0] == 'arr':
        t = s[1]
        if ismask(t):
            if rank(t) == 2 and rank(a) == 2:
                return build(lambda j: store_sel(I, index(a, j), [('arr', index(t, j))] + list(rest), v))

            def cell(j):
                x = v
                if isarr(v):
                    x = masked(v, t, n, j)
                return ite(index(t, j), store_sel(I, index(a, j), rest, x), index(a, j))
            return build(cell)
        if t.op == 'where2' and rest and rest[0][0] == 'arr' and rest[0][1].op == 'where2' and rest[0][1].args[0] is t.args[0] and \
                t.args[1] == 0 and rest[0][1].args[1] == 1:
            m = t.args[0]
            return store_sel(I, a, [('arr', m)] + list(rest[1:]), v)
        if t.op == 'where2' and not rest and t.args[1] == 0:
            m = t.args[0]
            return build(lambda j: ite(any_of(index(m, j)), fill(index(a, j), v), index(a, j)))
        if t.op == 'filt' and not isarr(v):
            w, (p, b) = tm.open_(t)
            if b is w and t.args[0] is n:
                return build(lambda j: ite(subst(p, {w: j}), store_sel(I, index(a, j), rest, v), index(a, j)))
        if not isarr(v):
            return build(lambda j: ite(any_of(ew(lambda x: eq(x, j), [t])), store_sel(I, index(a, j), rest, v), index(a, j)))
        return unk_fresh('store', a, t, v)
    return unk_fresh('store', a, v)


def masked(v, mask, n, j):
    """element of v (indexed over the true positions of mask) that goes to position j"""
    if v.op == 'filt' and v.args[0] is n:
        w, (p, b) = tm.open_(v)
        if p is index(mask, w) or tm.filt(n, w, p, w) is tm.filt(n, w, index(mask, w), w):
            return subst(b, {w: j})
    return unk_fresh('masked', v, mask)


def delitem(I, base, ix):
    if okind(I, base) == 'df':
        df_drop(I, base, [I.key(ix)])
        return
    if okind(I, base) == 'dict':
        o = I.obj(base)
        d = dict(o.c[0])
        k = I.key(ix)
        d.pop(k, None)
        I.mutated(base, 'item of a dict deleted')
        I.put(base, o.with_(c=(d, o.c[1])))
        return
    if okind(I, base) == 'list':
        b, tail = I.obj(base).c
        c = const_of(fz(I, ix)) if not isinstance(ix, tuple) else None
        if b is EMPTY and c is not None:
            tail = list(tail)
            del tail[int(c)]
            I.mutated(base, 'list element deleted')
            I.put(base, I.obj(base).with_(c=(b, tuple(tail))))
            return
        I.mutated(base, 'list element deleted')
        t = fz(I, base)
        n = length(t)
        from .interp import Slice
        if isinstance(ix, Slice) and ix.step is None:
            a, b = (None if x is None else fz(I, x) for x in (ix.lo, ix.hi))
            front = EMPTY if a is None or a is NONE else slice_(t, None, a, None)
            back = EMPTY if b is None or b is NONE else slice_(t, b, None, None)
            if front is EMPTY or back is EMPTY:
                I.put(base, I.obj(base).with_(c=(concat(front, back), ())))
                return
        k = fz(I, ix)
        if const_of(k) == -1:
            I.put(base, I.obj(base).with_(c=(slice_(t, None, num(-1), None), ())))
            return
        I.put(base, I.obj(base).with_(c=(unk_fresh('del', t, k), ())))
        return
    I.effect('delitem', fz(I, base), fz(I, ix))


# --------------------------------------------------------------------------
# dicts
# --------------------------------------------------------------------------
def extra_lookup(extra, k):
    return mk('getitem', mk('dict', (), extra), k)


def dict_get(I, ref, ix, default=None):
    o = I.obj(ref)
    d, extra = o.c
    k = I.key(ix)
    from .interp import Dead
    if I.isconstkey(k):
        if isinstance(o.x, tuple) and o.x[:1] == ('db',) and (k in d or default is None and not I.tries):
            I.event('lookup', o.x[1] + (k,), k in d, d.get(k))
        if k in d:
            v = d[k]
            if isinstance(v, T) and any(l.op == 'absent' for l in tm.leaves(v)):
                if default is not None:
                    df = fz(I, default)
                    return I.thaw(tm._leafmap(v, lambda l: df if l.op == 'absent' else l))
                I.may_raise(tm._leafmap(v, lambda l: boolc(l.op == 'absent')), 'KeyError')
                return I.thaw(tm._leafmap(v, lambda l: UNDEF if l.op == 'absent' else l))
            return v
        if extra is EMPTY:
            if default is not None:
                return default
            I.raise_('KeyError')
            raise Dead()
    elif extra is EMPTY and d:
        # symbolic key over constant entries
        kt = fz(I, ix)
        if kt.op == 'ite':
            return I.choose(kt.args[0], lambda: dict_get(I, ref, kt.args[1], default), lambda: dict_get(I, ref, kt.args[2], default))
        items = list(d.items())

        def go(i):
            if i == len(items):
                if default is not None:
                    return default
                if I.tries:
                    I.raise_('KeyError')
                    raise Dead()
                I.raise_('KeyError')
                raise Dead()
            return I.choose(seq(kt, I.keyval(items[i][0])), lambda: items[i][1], lambda: go(i + 1))
        return go(0)
    elif not d and extra is EMPTY:
        if default is not None:
            return default
        I.raise_('KeyError')
        raise Dead()
    kt = fz(I, ix)
    base = extra
    if d:
        base = mk('dict', tuple((a, fz(I, b)) for a, b in d.items()), extra)
        t = mk('getitem', base, kt)
    else:
        t = mk('getitem', extra, kt)
    has = mk('iskey', kt, extra)
    if default is not None:
        return I.thaw(ite(has, t, fz(I, default)))
    I.may_raise(bnot(has), 'KeyError')
    return I.thaw(t)


def dict_from_pairs(I, t):
    if t.op == 'vec':
        d = {}
        extra = EMPTY
        for x in t.args:
            k, v = index(x, ZERO), index(x, ONE)
            kk = k.args[0] if k.op == 'str' else k
            if I.isconstkey(kk):
                d[kk] = I.thaw(v)
            else:
                extra = concat(extra, vec(x))
        return I.alloc('dict', (d, extra))
    if t.op == 'concat' or t.op in ('filt', 'map', 'cmap'):
        return I.alloc('dict', ({}, t))
    return I.alloc('dict', ({}, t))


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
def newfile(I, path, mode, how='open'):
    from .interp import Ref
    r = I.alloc('file', {'path': path, 'mode': mode, 'cur': ZERO, 'open': TRUE})
    I.event('open', r.a, how, mode, path)
    return r


def file_lines(path, I=None):
    ls = mk('lines', path)
    text = (I.__dict__.get('texts') or {}).get(path)
    if text is not None:
        return vec(*text)
    n = (I.__dict__.get('nlines') or {}).get(path)              # a file of this very number of lines
    return ls if n is None else vec(*[index(ls, num(k)) for k in range(n)])


def file_iter(I, ref):
    from .interp import Seq
    o = I.obj(ref)
    ls = file_lines(o.c['path'], I)
    cur = o.c['cur']
    n = length(ls)
    c = dict(o.c)
    c['cur'] = n
    I.put(ref, o.with_(c=c))
    if cur is ZERO:
        return Seq(n, lambda k: index(ls, k), src=ls)
    return Seq(sub(n, cur), lambda k: index(ls, add(cur, k)))


def enter(I, v):
    return v


def exit(I, v):
    if okind(I, v) == 'file':
        close_file(I, v)


def close_file(I, ref):
    o = I.obj(ref)
    c = dict(o.c)
    c['open'] = FALSE
    I.put(ref, o.with_(c=c))


def file_method(I, ref, name, args, kw):
    o = I.obj(ref)
    path, cur = o.c['path'], o.c['cur']
    ls = file_lines(path, I)
    n = length(ls)

    def setcur(x):
        c = dict(o.c)
        c['cur'] = x
        I.put(ref, o.with_(c=c))
    if name == 'readlines':
        setcur(n)
        t = ls if cur is ZERO else slice_(ls, cur, None, None)
        return I.alloc('list', (t, ()))
    if name in ('read',):
        if args:
            return unk_fresh('read', path)
        setcur(n)
        return mk('readall', path) if cur is ZERO else unk_fresh('read', path)
    if name == 'readline':
        x = ite(lt(cur, n), index(ls, cur), string(''))
        setcur(ite(lt(cur, n), add(cur, ONE), cur))
        # advancing past the end does not matter: an empty read stays empty
        setcur(add(cur, ONE))
        return x
    if name == 'seek':
        if args and fz(I, args[0]) is ZERO:
            setcur(ZERO)
        else:
            setcur(unk_fresh('seek'))
        return ZERO
    if name in ('write', 'writelines'):
        I.event('write', ref.a)
        t = fz(I, args[0])
        if name == 'writelines':
            t = joinT(string(''), fz(I, tolist(I, args[0])))
        I.effect('write', path, t)
        return ZERO
    if name == 'close':
        close_file(I, ref)
        return NONE
    if name == 'find':
        return mk('find', mk('readall', path), fz(I, args[0]))
    if name == 'fileno':
        return mk('fileno', path)
    if name in ('flush', 'tell', '__enter__', '__exit__'):
        return ref if name == '__enter__' else NONE
    if name == 'name':
        return path
    return unk_fresh('file.' + name, path)


# string builder (io.StringIO)
def sio_method(I, ref, name, args, kw):
    o = I.obj(ref)
    if name == 'write':
        a = fz(I, args[0])
        if a.op == 'unk':
            pass
        I.put(ref, o.with_(c=concat(o.c, vec(a))))
        return ZERO
    if name == 'writelines':
        I.put(ref, o.with_(c=concat(o.c, fz(I, args[0]))))
        return NONE
    if name in ('getvalue', 'read'):
        return joinT(string(''), o.c)
    if name in ('close', 'seek', 'flush', '__enter__', '__exit__', 'truncate'):
        return NONE
    return unk_fresh('sio.' + name)


# --------------------------------------------------------------------------
# data frames
# --------------------------------------------------------------------------
def mkdf(n, cols, base=NONE):
    return mk('df', n, tuple(cols), base)


def df_hoist(t, f):
    """apply f to every df leaf of t"""
    if t.op == 'ite':
        return ite(t.args[0], df_hoist(t.args[1], f), df_hoist(t.args[2], f))
    return f(t)


def as_df(t):
    if t.op == 'df':
        return t
    return mkdf(mk('nrowsof', t), (), t)


def df_col(t, name):
    """column of a frame term"""
    if t.op == 'ite':
        return ite(t.args[0], df_col(t.args[1], name), df_col(t.args[2], name))
    if t.op == 'undef':
        return UNDEF
    if t.op in ('none', 'num'):
        return UNDEF
    t = as_df(t)
    for k, c in t.args[1]:
        if k == name or k is name:
            return c
    if t.args[2] is not NONE:
        nm = string(name) if isinstance(name, str) else name
        return mk('col', t.args[2], nm)
    if not isinstance(name, str):
        u = unk('column', t, name)
        return u
    return unk('no column ' + str(name), t)


tm.ARROPS |= {'col', 'callarr'}
tm.RANK['col'] = lambda a: 1
tm.LEN['col'] = lambda a: mk('nrowsof', a[0])
tm.RANK['uarr'] = lambda a: 1
tm.ELEM['col'] = 'num'


def df_set(t, name, c):
    def f(t):
        if t.op in ('undef',):
            return t
        t = as_df(t)
        n = t.args[0]
        cols = list(t.args[1])
        if n is ZERO and not cols and isarr(c):
            n = length(c)
        cc = c if isarr(c) else mapf(n, lambda k: c)
        for i, (k, _) in enumerate(cols):
            if k == name or k is name:
                cols[i] = (k, cc)
                return mkdf(n, cols, t.args[2])
        cols.append((name, cc))
        return mkdf(n, cols, t.args[2])
    return df_hoist(t, f)


def names_of(I, v):
    """list of column names, or None"""
    s = I.seq(v)
    c = const_of(s.n) if s.n is not None else None
    if c is None:
        return None
    return [I.key(s.get(num(i))) for i in range(int(c))]


def df_columns(I, ref):
    t = I.obj(ref).c
    if t.op == 'ite':
        # same columns on every branch?
        sets = {tuple(k for k, _ in as_df(l).args[1] if k != '<index>') for l in tm.leaves(t) if l.op == 'df'}
        bases = {as_df(l).args[2] for l in tm.leaves(t)}
        if len(sets) != 1 or bases != {NONE}:
            return unk_fresh('columns', t)
        return I.newlist([I.keyval(k) for k in sets.pop()])
    t = as_df(t)
    if t.args[2] is not NONE:
        if t.args[2].op == 'dfsym':
            a = t.args[2].args[0]
            extra = vec(*[I.keyval(k) for k, _ in t.args[1] if not _in_dfsym(k)])
            return I.alloc('list', (concat(a, extra), ()))
        return unk_fresh('columns', t)
    return I.newlist([I.keyval(k) for k, _ in t.args[1] if k != '<index>'])


def _in_dfsym(k):
    return False


def df_subscript(I, ref, ix):
    from .interp import Slice
    o = I.obj(ref)
    t = o.c
    if isinstance(ix, Slice):
        lo, hi, st = slice_bounds(I, ix)
        return I.alloc('df', df_rows(t, lambda c: slice_(c, lo, hi, st)), o.roots)
    if okind(I, ix) in ('list', 'arr') or isinstance(ix, tuple):
        ti = fz(I, ix)
        if isarr(ti) and ismask(ti):
            return I.alloc('df', df_rows(t, lambda c: get_sel(c, [('arr', ti)])))
        names = names_of(I, ix)
        if names is None:
            return unk_fresh('columns', t, ti)
        return I.alloc('df', df_hoist(t, lambda d: mkdf(as_df(d).args[0], [(k, df_col(d, k)) for k in names]) if d.op != 'undef' else d))
    k = I.key(ix)
    c = df_col(t, k)
    if not isinstance(k, str):
        c = df_symcol(t, k)
    elif lacking(c):
        from .interp import Dead
        I.misuse('no-column', k)
        I.raise_('KeyError')
        raise Dead()
    return wrap(I, c, roots=o.roots, x=('col', ref, k)) if isarr(c) else I.thaw(c)


def lacking(c):
    ls = [l for l in tm.leaves(c) if l.op != 'undef']
    return ls and all(l.op == 'unk' and str(l.args[0]).startswith('no column') for l in ls)


def df_symcol(t, k):
    """column by symbolic name"""
    t = as_df(t)
    r = None
    if t.args[2].op == 'dfsym':
        r = mk('symcol', t.args[2], k)
    else:
        return unk('column', t, k)
    for name, c in t.args[1]:
        r = ite(eq(k, string(name)) if isinstance(name, str) else eq(k, name), c, r)
    return r


tm.ARROPS |= {'symcol'}
tm.RANK['symcol'] = lambda a: 1
tm.LEN['symcol'] = lambda a: a[0].args[1]


def df_rows(t, f):
    def g(d):
        d = as_df(d)
        cols = [(k, f(c)) for k, c in d.args[1]]
        if d.args[2] is not NONE:
            return unk('rows', d, *[c for _, c in cols])
        n = length(cols[0][1]) if cols else d.args[0]
        return mkdf(n, cols)
    return df_hoist(t, g)


def df_store(I, ref, ix, v):
    o = I.obj(ref)
    I.mutated(ref, 'column of a data frame assigned')
    if okind(I, ix) in ('list', 'arr') or isinstance(ix, tuple):
        ti = fz(I, ix)
        if isarr(ti) and ismask(ti):
            tv = fz(I, v)
            I.put(ref, o.with_(c=df_rows(o.c, lambda c: store_sel(I, c, [('arr', ti)], tv))))
            return
        names = names_of(I, ix)
        tv = fz(I, v)
        if names is not None:
            t = o.c
            for i, k in enumerate(names):
                if tv.op == 'df':
                    x = tv.args[1][i][1] if i < len(tv.args[1]) else unk_fresh('column')
                elif rank(tv) == 2:
                    x = index(tm.transpose(tv), num(i))
                else:
                    x = tv
                t = df_set(t, k, x)
            I.put(ref, o.with_(c=t))
            return
        I.put(ref, o.with_(c=unk_fresh('frame', o.c, ti, tv)))
        return
    k = I.key(ix)
    tv = fz(I, v)
    if not isinstance(k, str) and as_df(o.c).args[2].op == 'dfsym':
        I.put(ref, o.with_(c=df_setsym(o.c, k, tv)))
        return
    I.put(ref, o.with_(c=df_set(o.c, k, tv)))


def df_setsym(t, k, v):
    t = as_df(t)
    base = t.args[2]
    return mkdf(t.args[0], t.args[1], mk('dfset', base, k, v))


def df_drop(I, ref, names):
    o = I.obj(ref)
    I.mutated(ref, 'column of a data frame removed')

    def f(d):
        d = as_df(d)
        return mkdf(d.args[0], [(k, c) for k, c in d.args[1] if k not in names], d.args[2] if d.args[2] is NONE else mk('without', d.args[2], *[string(x) if isinstance(x, str) else x for x in names]))
    I.put(ref, o.with_(c=df_hoist(o.c, f)))


class Loc:
    """df.loc / df.iloc / series.iloc accessor"""

    def __init__(self, ref, how):
        self.ref, self.how = ref, how
        self.name = how


def loc_get(I, l, ix):
    from .interp import Slice
    k = okind(I, l.ref)
    if k == 'df':
        t = I.obj(l.ref).c
        if isinstance(ix, tuple) and len(ix) == 2:
            r, c = ix
            if l.how in ('loc', 'at'):
                sub_ = df_subscript(I, l.ref, c)
            else:
                cc = fz(I, c)
                names = names_of(I, df_columns(I, l.ref))
                if names is None or const_of(cc) is None:
                    return unk_fresh('iloc', t)
                sub_ = df_subscript(I, l.ref, I.keyval(names[int(const_of(cc))]))
            if isinstance(r, Slice) and r.lo is None and r.hi is None and r.step is None:
                return sub_
            if okind(I, sub_) == 'df':
                if isinstance(r, Slice):
                    return df_subscript(I, sub_, r)
                return unk_fresh('loc', t)
            return subscript(I, sub_, r)
        if isinstance(ix, Slice):
            return df_subscript(I, l.ref, ix)
        ti = fz(I, ix)
        if isarr(ti):
            if ismask(ti):
                return df_subscript(I, l.ref, ix)
            return I.alloc('df', df_rows(t, lambda c: get_sel(c, [('arr', ti)])))
        return Row(t, ti)
    if isinstance(ix, tuple):
        return unk_fresh('loc')
    return subscript(I, l.ref, ix)


class Row:
    """one row of a data frame"""

    def __init__(self, t, k):
        self.t, self.k = t, k
        self.name = 'row'


def loc_set(I, l, ix, v):
    from .interp import Slice
    if okind(I, l.ref) == 'df':
        o = I.obj(l.ref)
        if isinstance(ix, tuple) and len(ix) == 2:
            r, c = ix
            if isinstance(r, Slice) and r.lo is None and r.hi is None:
                df_store(I, l.ref, c, v)
                return
            if l.how in ('loc', 'at') and okind(I, c) is None:
                k = I.key(c)
                col = df_col(o.c, k)
                sels = selectors(I, r)
                I.mutated(l.ref, 'rows of a data frame assigned')
                I.put(l.ref, o.with_(c=df_set(o.c, k, store_sel(I, col, sels, fz(I, v)))))
                return
        I.mutated(l.ref, 'rows of a data frame assigned')
        I.put(l.ref, o.with_(c=unk_fresh('frame', o.c, fz(I, v))))
        return
    store(I, l.ref, ix, v)
    o = I.obj(l.ref)
    if isinstance(o.x, tuple) and o.x and o.x[0] == 'col':
        d = I.obj(o.x[1])
        I.mutated(o.x[1], 'column of a data frame assigned')
        I.put(o.x[1], d.with_(c=df_set(d.c, o.x[2], o.c)))


from .lib2 import *          # noqa: E402,F401,F403
