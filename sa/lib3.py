"""Models of numpy, scipy, pandas and statsmodels."""
from . import terms as tm
from . import lib as L
from . import lib2 as L2
from .lib2 import fn, bind, given, Unmodelled, CALLS, F, NS
from .terms import (T, mk, sym, fresh, num, string, boolc, ite, band, bor, bnot, truthy, index, length, isarr, rank,
                    const_of, unk, unk_fresh, vec, concat, map_, mapf, filt, cmap, subst, ew, eq, lt, le, add, sub, mul, div,
                    slice_, TRUE, FALSE, NONE, UNDEF, EMPTY, ZERO, ONE, TWO, NAN, PI, Fr)

truthy = lambda t: tm.truthy(t)          # noqa: E731
index = lambda a, k: tm.index(a, k)      # noqa: E731

tm.RANK.update({'gauss': lambda a: rank(a[0])})
tm.LEN['gauss'] = lambda a: length(a[0])
tm.ELEM['gauss'] = 'num'
tm.LEN['fwf'] = lambda a: mk('nrows', a[0], a[1])
tm.ELEM['fwf'] = 'any'
tm.ARROPS |= {'fwfr', 'interpa', 'meanaxis', 'fitattr'}
tm.RANK['fwfr'] = lambda a: 1
tm.LEN['fwfr'] = lambda a: mk('nrows', a[0], a[1])
tm.ELEM['fwfr'] = 'str'
tm.NUMOPS |= {'nrows'}
for _o, _f in (('fft2', 0), ('ifft2', 0)):
    tm.INNERLEN[_o] = lambda a: length(index(a[0], ZERO))


def fz(I, v):
    return I.freeze(v)


def wrap(I, t, **k):
    return L.wrap(I, t, **k)


def newarr(I, t):
    """a fresh array object (no aliasing)"""
    return I.alloc('arr', t) if isarr(t) else t


def kconst(I, v, default=None):
    if v is None:
        return default
    t = fz(I, v)
    if t.op == 'none':
        return default
    c = const_of(t)
    if c is None:
        raise Unmodelled('symbolic option')
    return c


def strconst(I, v, default=None):
    if v is None:
        return default
    t = fz(I, v)
    if t.op == 'none':
        return default
    if t.op != 'str':
        raise Unmodelled('symbolic option')
    return t.args[0]


# --------------------------------------------------------------------------
# NaN
# --------------------------------------------------------------------------
def isnan(t):
    if t.op == 'ite':
        return tm._hoist(isnan, (t,))
    if t.op == 'nan':
        return TRUE
    if t.op in ('num', 'pi', 'inf', 'str', 'bool', 'none', 'len', 'count', 'cstr', 'datetime', 'fmt') or tm.is_int(t):
        return FALSE
    if t.op == 'poly':
        r = FALSE
        seen = set()
        for m, _ in t.args[0]:
            for a, _e in m:
                if a not in seen:
                    seen.add(a)
                    r = bor(r, isnan(a))
        return r
    if t.op in ('sin', 'cos', 'tan', 'exp', 'atan', 'abs', 'floor', 'sign', 'float', 'real', 'tofloat', 'timestamp') and len(t.args) == 1:
        return isnan(t.args[0])
    if t.op in ('atan2', 'mod', 'min', 'max', 'pow'):
        r = FALSE
        for a in t.args:
            r = bor(r, isnan(a) if isinstance(a, T) else FALSE)
        return r
    return mk('isnan', t)


tm.APP['isnan'] = isnan


@fn('numpy.isnan', 'math.isnan', 'pandas.isna', 'pandas.isnull')
def np_isnan(I, args, kw):
    return wrap(I, ew(isnan, [fz(I, args[0])]))


@fn('pandas.notna', 'pandas.notnull')
def pd_notna(I, args, kw):
    return wrap(I, ew(lambda x: bnot(isnan(x)), [fz(I, args[0])]))


@fn('numpy.isfinite', 'math.isfinite')
def np_isfinite(I, args, kw):
    return wrap(I, ew(lambda x: mk('isfinite', x) if x.op != 'num' else TRUE, [fz(I, args[0])]))


tm.BOOLOPS |= {'isfinite', 'isclose', 'dup', 'strin'}


@fn('numpy.isclose', 'math.isclose')
def np_isclose(I, args, kw):
    return wrap(I, ew(lambda x, y: tm.app('isclose', x, y), [fz(I, args[0]), fz(I, args[1])]))


# --------------------------------------------------------------------------
# elementwise numerical functions
# --------------------------------------------------------------------------
def _ew1(name, f):
    def g(I, args, kw):
        if kw and set(kw) - {'dtype'}:
            raise Unmodelled('keyword')
        if len(args) != 1:
            raise Unmodelled('arguments')
        return wrap(I, ew(f, [fz(I, args[0])]))
    CALLS[name] = g


def deg(x):
    return mul(x, div(num(180), PI))


def rad(x):
    return mul(x, div(PI, num(180)))


_EW = {'sin': tm.sin, 'cos': tm.cos, 'tan': tm.tan, 'exp': tm.exp, 'log': tm.log, 'sqrt': lambda x: tm.powT(x, num(Fr(1, 2))),
       'arcsin': lambda x: tm.app('asin', x), 'arccos': tm.acos, 'arctan': lambda x: tm.app('atan', x), 'asin': lambda x: tm.app('asin', x),
       'acos': tm.acos, 'atan': lambda x: tm.app('atan', x), 'floor': tm.floor, 'ceil': tm.ceil, 'deg2rad': rad, 'radians': rad,
       'rad2deg': deg, 'degrees': deg, 'square': lambda x: mul(x, x), 'sign': lambda x: tm.app('sign', x), 'negative': tm.neg,
       'log10': lambda x: tm.app('log10', x), 'exp2': lambda x: tm.powT(TWO, x), 'trunc': lambda x: tm.app('toint', x),
       'logical_not': lambda x: bnot(tm.truthy(x)), 'invert': lambda x: bnot(x) if tm.is_bool(x) else sub(num(-1), x),
       'reciprocal': lambda x: div(ONE, x), 'expm1': lambda x: sub(tm.exp(x), ONE), 'log1p': lambda x: tm.log(add(ONE, x)),
       'sinh': lambda x: mul(num(Fr(1, 2)), sub(tm.exp(x), tm.exp(tm.neg(x)))),
       'cosh': lambda x: mul(num(Fr(1, 2)), add(tm.exp(x), tm.exp(tm.neg(x)))),
       'tanh': lambda x: div(sub(tm.exp(x), tm.exp(tm.neg(x))), add(tm.exp(x), tm.exp(tm.neg(x)))),
       'conj': lambda x: tm.app('conj', x), 'conjugate': lambda x: tm.app('conj', x), 'positive': lambda x: x}
for _n, _g in _EW.items():
    _ew1('numpy.' + _n, _g)
for _n in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'asin', 'acos', 'atan', 'floor', 'ceil', 'radians', 'degrees', 'log10', 'sinh', 'cosh', 'tanh'):
    _ew1('math.' + _n, _EW[_n])
_ew1('scipy.special.erf', tm.erf)
_ew1('math.erf', tm.erf)
_ew1('scipy.special.erfc', lambda x: sub(ONE, tm.erf(x)))
_ew1('math.erfc', lambda x: sub(ONE, tm.erf(x)))
_ew1('scipy.special.erfcinv', lambda x: tm.app('erfcinv', x))
_ew1('scipy.special.erfinv', lambda x: tm.app('erfcinv', sub(ONE, x)))
_ew1('math.factorial', lambda x: tm.factorial(x))
_ew1('scipy.special.factorial', lambda x: tm.factorial(x))
_ew1('numpy.cbrt', lambda x: tm.powT(x, num(Fr(1, 3))))


@fn('math.log')
def m_log(I, args, kw):
    if len(args) != 1:
        return div(tm.log(fz(I, args[0])), tm.log(fz(I, args[1])))
    return wrap(I, ew(tm.log, [fz(I, args[0])]))


def _ew2(name, f):
    def g(I, args, kw):
        if kw or len(args) != 2:
            raise Unmodelled('arguments')
        return wrap(I, ew(f, [fz(I, args[0]), fz(I, args[1])]))
    CALLS[name] = g


def hyp(x, y):
    return tm.powT(add(mul(x, x), mul(y, y)), num(Fr(1, 2)))


def btruth(f):
    return lambda x, y: f(tm.truthy(x), tm.truthy(y))


for _n, _g in {'arctan2': tm.atan2, 'atan2': tm.atan2, 'hypot': hyp, 'add': lambda x, y: L.scalar_add(x, y), 'subtract': lambda x, y: L.scalar_sub(x, y),
               'multiply': mul, 'divide': div, 'true_divide': div, 'mod': tm.mod, 'remainder': tm.mod, 'floor_divide': tm.floordiv,
               'maximum': lambda x, y: tm.minmax('max', [x, y]), 'minimum': lambda x, y: tm.minmax('min', [x, y]),
               'fmax': lambda x, y: tm.minmax('max', [x, y]), 'fmin': lambda x, y: tm.minmax('min', [x, y]),
               'logical_and': btruth(band), 'logical_or': btruth(bor),
               'logical_xor': btruth(lambda a, b: ite(a, bnot(b), b)),
               'equal': L.seq, 'not_equal': lambda x, y: bnot(L.seq(x, y)), 'less': L.slt, 'greater': lambda x, y: L.slt(y, x),
               'less_equal': L.sle, 'greater_equal': lambda x, y: L.sle(y, x), 'bitwise_and': L.bitop(band, 'and'),
               'bitwise_or': L.bitop(bor, 'or'), 'right_shift': L.shr, 'left_shift': L.shl}.items():
    _ew2('numpy.' + _n, _g)
_ew2('math.atan2', tm.atan2)
_ew2('math.hypot', hyp)
_ew2('math.fmod', lambda x, y: tm.app('fmod', x, y))


def _opfn(name, f):
    def g(I, args, kw):
        return f(I, *args)
    CALLS['operator.' + name] = g


@fn('numpy.real')
def np_real(I, args, kw):
    return wrap(I, ew(real, [fz(I, args[0])]))


@fn('numpy.imag')
def np_imag(I, args, kw):
    return wrap(I, ew(lambda x: tm.app('imag', x), [fz(I, args[0])]))


def iscomplex(t):
    """does the atom take complex values?"""
    if t.op == 'iunit':
        return True
    if t.op == 'index':
        b = t
        while b.op == 'index':
            b = b.args[0]
        return b.op in ('fft', 'ifft', 'fft2', 'ifft2', 'unk')
    if t.op in ('unk', 'fold'):
        return True
    if t.op in ('sym', 'num', 'pi', 'str', 'len', 'bv', 'real', 'imag', 'abs', 'conj'):
        return t.op == 'conj'
    if t.op == 'poly':
        return any(iscomplex(a) for m, _ in t.args[0] for a, _e in m)
    return any(iscomplex(x) for x in tm.kids(t))


def real(x):
    if x.op == 'ite':
        return tm._hoist(real, (x,))
    if x.op == 'poly':
        tot = ZERO
        for m, c in x.args[0]:
            rp, cp = num(c), ONE
            for a, e in m:
                f = tm.powT(a, num(e)) if not isinstance(e, T) else tm.powT(a, e)
                if iscomplex(a):
                    cp = mul(cp, f)
                else:
                    rp = mul(rp, f)
            if cp is ONE:
                tot = add(tot, rp)
            elif cp.op == 'iunit':
                continue
            else:
                tot = add(tot, mul(rp, mk('real', cp)))
        return tot
    if not iscomplex(x):
        return x
    return mk('real', x)


tm.APP['real'] = real


@fn('numpy.nan_to_num')
def np_nan_to_num(I, args, kw):
    b = bind('x copy nan', args, kw)
    v = F(I, b.nan, ZERO)
    if given(b.copy) and fz(I, b.copy) is FALSE and L.okind(I, b.x) == 'arr':
        I.write_arr(b.x, ew(lambda x: ite(isnan(x), v, x), [fz(I, b.x)]), 'NaN elements replaced')
        return b.x
    return wrap(I, ew(lambda x: ite(isnan(x), v, x), [fz(I, b.x)]))


@fn('numpy.clip')
def np_clip(I, args, kw):
    b = bind('a lo hi', args, kw)
    t = fz(I, b.a)
    if given(b.lo):
        t = ew(lambda x, l: tm.minmax('max', [x, l]), [t, fz(I, b.lo)])
    if given(b.hi):
        t = ew(lambda x, h: tm.minmax('min', [x, h]), [t, fz(I, b.hi)])
    return wrap(I, t)


# --------------------------------------------------------------------------
# array creation
# --------------------------------------------------------------------------
INTD = {'int', 'int64', 'int32', 'i', 'i8', 'i4', 'integer', 'int_', 'intp', 'uint8', 'int16', 'int8', 'uint16', 'uint32'}


def dtypename(I, d):
    from .interp import Lib
    if d is None:
        return None
    if isinstance(d, Lib):
        return d.name.split('.')[-1]
    t = fz(I, d)
    if t.op == 'str':
        return t.args[0]
    if t.op == 'none':
        return None
    if t.op == 'dtype':
        return t.args[0]
    return '?'


def typed(I, t, d):
    """array term converted to dtype d"""
    if d in ('int',) or d in INTD:
        return ew(tm.toint, [t])
    if d in ('bool', 'bool_'):
        return ew(lambda x: tm.truthy(x), [t])
    if d in ('str', 'str_'):
        return ew(L.strof, [t])
    if d in ('float', 'float64', 'double', 'd', 'f8'):
        return ew(lambda x: x if tm.kind(x) == 'num' else (ite(x, ONE, ZERO) if tm.is_bool(x) else L2.tofloat(x)), [t])
    if d is None or d in ('complex', 'complex128', 'object', 'datetime', 'datetime64', 'datetime64[ns]', 'O'):
        return t
    return unk('dtype ' + str(d), t)


def shape_of(I, v):
    if isinstance(v, tuple):
        return [fz(I, x) for x in v]
    t = fz(I, v)
    if t.op == 'tup':
        return list(t.args)
    if t.op == 'vec':
        return list(t.args)
    if t.op == 'ite' and any(l.op in ('tup', 'vec') for l in tm.leaves(t)):
        raise Unmodelled('shape')
    if isarr(t):
        n = const_of(length(t))
        if n is None:
            raise Unmodelled('shape')
        return [index(t, num(i)) for i in range(int(n))]
    return [t]


def filled(dims, x):
    if not dims:
        return x
    r = filled(dims[1:], x)
    return tm._hoist(lambda n: full1(n, r), (dims[0],)) if dims[0].op == 'ite' else full1(dims[0], r)


def full1(n, x):
    c = const_of(n)
    if c is not None and 0 <= c <= tm.MAXVEC:
        return vec(*[x] * int(c))
    return mapf(n, lambda k: x)


def _creator(value):
    def g(I, args, kw):
        b = bind('shape dtype order', args, kw)
        d = dtypename(I, b.dtype)
        v = value
        if d in ('bool', 'bool_'):
            v = tm.truthy(v) if v is not UNDEF else v
        elif d in ('str', 'object', '?'):
            if value is not UNDEF:
                raise Unmodelled('dtype')
        t = filled(shape_of(I, b.shape), v)
        return I.alloc('arr', t, x=('int',) if d in INTD else None)
    return g


CALLS['numpy.zeros'] = _creator(ZERO)
CALLS['numpy.ones'] = _creator(ONE)
CALLS['numpy.empty'] = _creator(UNDEF)
CALLS['numpy.ndarray'] = _creator(UNDEF)


@fn('numpy.full')
def np_full(I, args, kw):
    b = bind('shape value dtype', args, kw)
    return I.alloc('arr', typed(I, filled(shape_of(I, b.shape), fz(I, b.value)), dtypename(I, b.dtype)))


def _like(value):
    def g(I, args, kw):
        b = bind('a value dtype' if value is None else 'a dtype', args, kw, ignore=('order', 'subok'))
        t = fz(I, b.a)
        v = value if value is not None else fz(I, b.value)
        d = dtypename(I, b.dtype)
        if d in ('bool', 'bool_'):
            v = tm.truthy(v)
        # zeros_like of an integer array is an integer array
        x = None
        if d in INTD or (d is None and allint(t)):
            x = ('int',)
        return I.alloc('arr', ew(lambda _: v, [t]), x=x) if isarr(t) else v
    return g


def allint(t):
    b = t
    while b.op in ('map', 'vec', 'concat'):
        if b.op == 'vec':
            if not b.args:
                return False
            return all(allint(x) for x in b.args)
        if b.op == 'concat':
            return all(allint(x) for x in b.args)
        b = tm.open_(b)[1][0]
    return tm.is_int(b)


CALLS['numpy.zeros_like'] = _like(ZERO)
CALLS['numpy.ones_like'] = _like(ONE)
CALLS['numpy.empty_like'] = _like(UNDEF)
CALLS['numpy.full_like'] = _like(None)


@fn('numpy.eye', 'numpy.identity')
def np_eye(I, args, kw):
    if len(args) != 1 or kw:
        raise Unmodelled('eye')
    n = fz(I, args[0])
    return I.alloc('arr', mapf(n, lambda i: mapf(n, lambda j: ite(eq(i, j), ONE, ZERO))))


@fn('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.atleast_1d', 'numpy.asarray_chkfinite')
def np_array(I, args, kw, copy=True):
    b = bind('a dtype', args, kw, ignore=('copy', 'order', 'ndmin', 'subok'))
    if 'ndmin' in kw:
        raise Unmodelled('ndmin')
    d = dtypename(I, b.dtype)
    k = L.okind(I, b.a)
    t = fz(I, b.a)
    if k == 'arr' and 'copy' in kw and fz(I, kw['copy']) in (FALSE, NONE) and (not d or typed(I, t, d) is t):
        return rearranged(I, b.a, t)
    if k == 'df':
        t = df_matrix(t)
    if t.op == 'tup':
        t = vec(*t.args)
    if t.op == 'vec' and t.args and all(x.op == 'tup' for x in t.args):
        t = vec(*[vec(*x.args) for x in t.args])
    if t.op == 'map' and t.args[2].op == 'tup':
        v, (bd,) = tm.open_(t)
        t = map_(t.args[0], v, vec(*bd.args))
    if t.op == 'keys' or t.op == 'dictvals':
        pass
    if not isarr(t):
        return typed(I, t, d) if d else t
    if d:
        t = typed(I, t, d)
    return I.alloc('arr', t, x=('int',) if d in INTD else None)


def np_asarray(I, args, kw):
    b = bind('a dtype', args, kw, ignore=('copy', 'order', 'subok'))
    if L.okind(I, b.a) == 'arr' and not given(b.dtype):
        o = I.obj(b.a)
        if isinstance(o.x, tuple) and o.x and o.x[0] == 'col':
            return I.alloc('arr', o.c, o.roots, ('ro',))
        return b.a
    if L.okind(I, b.a) == 'arr' and dtypename(I, b.dtype) in ('float', 'float64', 'double') and typed(I, I.obj(b.a).c, dtypename(I, b.dtype)) is I.obj(b.a).c and \
            I.obj(b.a).x != ('int',):
        return rearranged(I, b.a, I.obj(b.a).c)          # (the same array when it holds floats already)
    return np_array(I, args, kw)


CALLS['numpy.asarray'] = CALLS['numpy.asanyarray'] = CALLS['numpy.ascontiguousarray'] = np_asarray


@fn('numpy.atleast_1d')
def np_atleast(I, args, kw):
    t = fz(I, args[0])
    if isarr(t):
        return args[0] if L.okind(I, args[0]) == 'arr' else I.alloc('arr', t)
    if tm.kind(t) in ('num', 'str', 'bool', 'dt'):
        return I.alloc('arr', vec(t))
    return unk('atleast_1d', t)


@fn('numpy.copy')
def np_copy(I, args, kw):
    t = fz(I, args[0])
    return newarr(I, t)


@fn('numpy.arange')
def np_arange(I, args, kw):
    b = bind('a b c dtype', args, kw)
    xs = [fz(I, x) for x in (b.a, b.b, b.c) if given(x)]
    lo, hi, st = (ZERO, xs[0], ONE) if len(xs) == 1 else (xs[0], xs[1], ONE) if len(xs) == 2 else xs
    t = tm._hoist(tm.rangeT, (lo, hi, st)) if any(x.op == 'ite' for x in (lo, hi, st)) else tm.rangeT(lo, hi, st)
    if b.dtype is not None:
        t = typed(I, t, dtypename(I, b.dtype))
    n = const_of(length(t))
    if n is not None and n <= tm.MAXVEC:
        t = vec(*[index(t, num(i)) for i in range(int(n))])
    x = ('int',) if tm.is_int(lo) and tm.is_int(st) and b.dtype is None or dtypename(I, b.dtype) in INTD else None
    return I.alloc('arr', t, x=x)


@fn('numpy.linspace')
def np_linspace(I, args, kw):
    b = bind('a b n endpoint', args, kw)
    lo, hi = fz(I, b.a), fz(I, b.b)
    n = F(I, b.n, num(50))
    ep = F(I, b.endpoint, TRUE)
    if ep.op != 'bool':
        raise Unmodelled('endpoint')
    step = div(sub(hi, lo), sub(n, ONE) if ep is TRUE else n)
    return I.alloc('arr', rangen(n, lambda k: add(lo, mul(step, k))))


def rangen(n, f):
    c = const_of(n)
    if c is not None and 0 <= c <= tm.MAXVEC:
        return vec(*[f(num(i)) for i in range(int(c))])
    return mapf(n, f)


@fn('numpy.fromiter')
def np_fromiter(I, args, kw):
    b = bind('a dtype count', args, kw)
    return I.alloc('arr', typed(I, fz(I, b.a), dtypename(I, b.dtype)))


# --------------------------------------------------------------------------
# joining, reshaping
# --------------------------------------------------------------------------
def arrays_of(I, v):
    """list of array terms of a sequence of arrays"""
    if L.okind(I, v) == 'arr':
        t = fz(I, v)
        n = const_of(length(t))
        if n is None:
            return None, t
        return [index(t, num(i)) for i in range(int(n))], None
    s = I.seq(v)
    n = const_of(s.n) if s.n is not None else None
    if n is None:
        return None, fz(I, v)
    return [fz(I, s.get(num(i))) for i in range(int(n))], None


def catarrays(I, v):
    xs, t = arrays_of(I, v)
    if xs is None:
        if t.op == 'ite':
            return tm._hoist(lambda y: catterm(y), (t,))
        return catterm(t)
    return concat(*[x if isarr(x) else vec(x) for x in xs])


def catterm(t):
    """concatenation of the rows of t"""
    if t.op == 'map' or t.op == 'cmap' or t.op == 'filt':
        if t.op == 'filt':
            v, (p, b) = tm.open_(t)
            return cmap(t.args[0], v, ite(p, b, EMPTY))
        v, (b,) = tm.open_(t)
        if t.op == 'cmap':
            return cmap(t.args[0], v, catterm(b))
        return cmap(t.args[0], v, b if isarr(b) else vec(b))
    if t.op == 'concat':
        return concat(*[catterm(x) for x in t.args])
    if t.op == 'vec':
        return concat(*[x if isarr(x) else vec(x) for x in t.args])
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return cmap(n, k, index(t, k))


@fn('numpy.append')
def np_append(I, args, kw):
    b = bind('a v axis', args, kw)
    x, y = fz(I, b.a), fz(I, b.v)
    if given(b.axis):
        return stackaxis(I, [x, y], int(kconst(I, b.axis)))
    x, y = L.flat(x), L.flat(y)
    return I.alloc('arr', concat(x if isarr(x) else vec(x), y if isarr(y) else vec(y)))


def stackaxis(I, xs, ax):
    r = max(rank(x) or 0 for x in xs)
    if ax == 0 or r == 1:
        return I.alloc('arr', concat(*[x if isarr(x) else vec(x) for x in xs]))
    if ax in (1, -1) and r == 2:
        n = length(xs[0])
        return I.alloc('arr', rangen(n, lambda k: concat(*[index(x, k) for x in xs])))
    raise Unmodelled('axis')


@fn('numpy.hstack', 'numpy.r_')
def np_hstack(I, args, kw):
    xs, t = arrays_of(I, args[0])
    if xs is None:
        return wrap(I, catarrays(I, args[0]))
    r = max([rank(x) or 0 for x in xs] + [0])
    return stackaxis(I, xs, 0 if r <= 1 else 1)


@fn('numpy.concatenate')
def np_concat(I, args, kw):
    b = bind('xs axis', args, kw)
    xs, t = arrays_of(I, b.xs)
    ax = int(kconst(I, b.axis, Fr(0)))
    if xs is None:
        if ax != 0:
            raise Unmodelled('axis')
        return wrap(I, catarrays(I, b.xs))
    return stackaxis(I, xs, ax)


@fn('numpy.vstack', 'numpy.row_stack')
def np_vstack(I, args, kw):
    xs, t = arrays_of(I, args[0])
    if xs is None:
        return wrap(I, t)
    rs = []
    for x in xs:
        r = rank(x) or 0
        rs.append(vec(vec(x)) if r == 0 else vec(x) if r == 1 else x)
    return I.alloc('arr', concat(*rs))


@fn('numpy.stack')
def np_stack(I, args, kw):
    b = bind('xs axis', args, kw)
    xs, t = arrays_of(I, b.xs)
    ax = int(kconst(I, b.axis, Fr(0)))
    t = vec(*xs) if xs is not None else t
    if ax == 0:
        return I.alloc('arr', t)
    if ax in (1, -1) and rank(t) == 2:
        return I.alloc('arr', tm.transpose(t))
    raise Unmodelled('axis')


@fn('numpy.column_stack')
def np_colstack(I, args, kw):
    xs, t = arrays_of(I, args[0])
    if xs is None:
        raise Unmodelled('column_stack')
    if all((rank(x) or 0) == 1 for x in xs):
        return I.alloc('arr', tm.transpose(vec(*xs)))
    n = length(xs[0])
    return I.alloc('arr', rangen(n, lambda k: concat(*[index(x, k) if rank(x) == 2 else vec(index(x, k)) for x in xs])))


@fn('numpy.transpose')
def np_transpose(I, args, kw):
    if len(args) != 1 or kw:
        raise Unmodelled('axes')
    return rearranged(I, args[0], tm.transpose(fz(I, args[0])))


@fn('numpy.flipud')
def np_flipud(I, args, kw):
    t = fz(I, args[0])
    return wrap(I, slice_(t, None, None, num(-1)))


@fn('numpy.fliplr')
def np_fliplr(I, args, kw):
    t = fz(I, args[0])
    return wrap(I, L.rows(t, lambda r: slice_(r, None, None, num(-1))))


@fn('numpy.flip')
def np_flip(I, args, kw):
    b = bind('a axis', args, kw)
    t = fz(I, b.a)
    ax = kconst(I, b.axis)
    if rank(t) == 1 or ax == 0:
        return wrap(I, slice_(t, None, None, num(-1)))
    r = L.rows(t, lambda r: slice_(r, None, None, num(-1)))
    if ax in (1, -1):
        return wrap(I, r)
    if ax is None and rank(t) == 2:
        return wrap(I, slice_(r, None, None, num(-1)))
    raise Unmodelled('axis')


@fn('numpy.roll')
def np_roll(I, args, kw):
    b = bind('a s axis', args, kw)
    t, s = fz(I, b.a), fz(I, b.s)
    if rank(t) != 1:
        raise Unmodelled('roll')
    n = length(t)
    c = const_of(s)
    if c == 1:
        return wrap(I, concat(vec(index(t, sub(n, ONE))), slice_(t, None, num(-1), None)))
    if c == -1:
        return wrap(I, concat(slice_(t, ONE, None, None), vec(index(t, ZERO))))
    return wrap(I, mapf(n, lambda k: index(t, tm.mod(sub(k, s), n))))


@fn('numpy.ravel')
def np_ravel(I, args, kw):
    return rearranged(I, args[0], L.flat(fz(I, args[0])))


def rearranged(I, ref, t):
    """an array that shares its elements with another one"""
    if L.okind(I, ref) != 'arr' or not tm.isarr(t):
        return wrap(I, t)
    if I.obj(ref).c is t:
        return I.alloc('arr', t, I.obj(ref).roots, ('through', ref, lambda I, old, new: new))

    def back(I, old, new):
        if rank(old) == 2 and rank(new) == 1:
            n, m = length(old), length(index(old, ZERO))
            return reshape(I, new, [n, m])
        if rank(old) == 1 and rank(new) == 2:
            return L.flat(new)
        if rank(old) == 2 and rank(new) == 2:
            return tm.transpose(new)
        return unk('rearranged', old, new)
    return I.alloc('arr', t, I.obj(ref).roots, ('through', ref, back))


@fn('numpy.copyto')
def np_copyto(I, args, kw):
    b = bind('dst src casting where', args, kw, ignore=('casting',))
    d, v = fz(I, b.dst), fz(I, b.src)
    if L.okind(I, b.dst) != 'arr':
        raise Unmodelled('copyto')
    t = v if tm.isarr(v) else L.fill(d, v)
    if given(b.where) and fz(I, b.where) is not TRUE:
        w = fz(I, b.where)
        t = ew(lambda c, x, y: ite(tm.truthy(c), x, y), [w, t, d])
    I.write_arr(b.dst, t, 'array overwritten')
    return NONE


@fn('numpy.putmask', 'numpy.place')
def np_putmask(I, args, kw):
    b = bind('a mask values', args, kw)
    v = fz(I, b.values)
    if L.okind(I, b.a) != 'arr' or tm.isarr(v) and const_of(length(v)) != 1:
        raise Unmodelled('values')
    if tm.isarr(v):
        v = index(v, ZERO)
    I.write_arr(b.a, ew(lambda c, x: ite(tm.truthy(c), v, x), [fz(I, b.mask), fz(I, b.a)]), 'array elements replaced')
    return NONE


@fn('numpy.put', 'numpy.fill_diagonal', 'numpy.random.shuffle', 'random.shuffle', 'numpy.add.at', 'numpy.subtract.at', 'numpy.multiply.at')
def np_put(I, args, kw):
    if args and L.okind(I, args[0]) == 'arr':
        t = fz(I, args[0])
        I.write_arr(args[0], unk('put', t, *[fz(I, x) for x in args[1:]]), 'array elements replaced')
        return NONE
    raise Unmodelled('put')


@fn('numpy.squeeze')
def np_squeeze(I, args, kw):
    t = fz(I, args[0])
    if L.okind(I, args[0]) == 'arr' and rank(t) == 1:
        return rearranged(I, args[0], t)
    if rank(t) == 2:
        if const_of(length(t)) == 1:
            return wrap(I, index(t, ZERO))
        if const_of(length(index(t, ZERO))) == 1:
            return wrap(I, L.flat(t))
    return wrap(I, t)


@fn('numpy.expand_dims')
def np_expand(I, args, kw):
    b = bind('a axis', args, kw)
    t, ax = fz(I, b.a), kconst(I, b.axis)
    if ax == 0:
        return wrap(I, vec(t))
    if rank(t) == 1 and ax in (1, -1):
        return wrap(I, L.rows(t, lambda x: vec(x)))
    raise Unmodelled('axis')


def reshape(I, t, shp):
    if t.op == 'ite':
        return tm._hoist(lambda x: reshape(I, x, shp), (t,))
    dims = shape_of(I, shp) if not isinstance(shp, list) else shp
    cs = [const_of(d) for d in dims]
    f = L.flat(t)
    if len(dims) == 1:
        return f
    if len(dims) == 2:
        if cs[0] == -1 and cs[1] == 1:
            return L.rows(f, lambda x: vec(x))
        if cs[0] == 1 and cs[1] == -1:
            return vec(f)
        n, m = dims
        if cs[1] == -1:
            if rank(t) == 2 and length(t) is n:
                return t
            m = mk('floordiv', L.total(t), n) if not (f.op == 'ravel' and length(f.args[0]) is n) else length(index(f.args[0], ZERO))
        if cs[0] == -1:
            return unk('reshape', t, *dims)
        if f.op == 'ravel' and length(f.args[0]) is n and length(index(f.args[0], ZERO)) is m:
            return f.args[0]
        if rank(t) == 2 and length(t) is n and length(index(t, ZERO)) is m:
            return t
        return mapf(n, lambda i: mapf(m, lambda j: index(f, add(mul(m, i), j))))
    return unk('reshape', t, *dims)


@fn('numpy.reshape')
def np_reshape(I, args, kw):
    b = bind('a shape', args, kw)
    return wrap(I, reshape(I, fz(I, b.a), b.shape))


@fn('numpy.tile')
def np_tile(I, args, kw):
    b = bind('a reps', args, kw)
    t, r = fz(I, b.a), fz(I, b.reps)
    dims = list(r.args) if r.op in ('tup', 'vec') else [r]
    if rank(t) == 0:
        return I.alloc('arr', filled(dims, t))
    if rank(t) == 1 and len(dims) == 2 and const_of(dims[1]) == 1:
        return I.alloc('arr', filled([dims[0]], t))
    if rank(t) == 1 and len(dims) == 1:
        n = length(t)
        if const_of(dims[0]) is not None:
            return I.alloc('arr', concat(*[t] * int(const_of(dims[0]))))
        return I.alloc('arr', mapf(mul(n, dims[0]), lambda k: index(t, tm.mod(k, n))))
    raise Unmodelled('tile')


@fn('numpy.repeat')
def np_repeat(I, args, kw):
    b = bind('a n', args, kw)
    t, n = fz(I, b.a), fz(I, b.n)
    if not isarr(t) and not isarr(n):
        return I.alloc('arr', full1(n, t))
    if isarr(t) and rank(t) == 1 and not isarr(n):
        return I.alloc('arr', mapf(mul(length(t), n), lambda k: index(t, tm.floordiv(k, n))))
    raise Unmodelled('repeat')


@fn('numpy.broadcast_to')
def np_bcast(I, args, kw):
    b = bind('a shape', args, kw)
    t = fz(I, b.a)
    dims = shape_of(I, b.shape)
    return I.alloc('arr', L.fill(filled(dims, UNDEF), t))


@fn('numpy.meshgrid')
def np_meshgrid(I, args, kw):
    ix = strconst(I, kw.get('indexing'), 'xy')
    if len(args) != 2 or set(kw) - {'indexing'}:
        raise Unmodelled('meshgrid')
    x, y = fz(I, args[0]), fz(I, args[1])
    if ix == 'xy':
        return (I.alloc('arr', rangen(length(y), lambda i: x)), I.alloc('arr', rangen(length(y), lambda i: full1(length(x), index(y, i)))))
    return (I.alloc('arr', rangen(length(x), lambda i: full1(length(y), index(x, i)))), I.alloc('arr', rangen(length(x), lambda i: y)))


@fn('numpy.pad')
def np_pad(I, args, kw):
    b = bind('a w mode', args, kw)
    t = fz(I, b.a)
    mode = strconst(I, b.mode, 'constant')
    w = fz(I, b.w)
    if rank(t) != 1:
        raise Unmodelled('pad')
    l, r = (w.args[0], w.args[1]) if w.op in ('tup', 'vec') and len(w.args) == 2 else (w, w)
    if mode == 'edge':
        return wrap(I, concat(full1(l, index(t, ZERO)), t, full1(r, index(t, sub(length(t), ONE)))))
    if mode == 'constant':
        return wrap(I, concat(full1(l, ZERO), t, full1(r, ZERO)))
    raise Unmodelled('pad')


@fn('numpy.delete')
def np_delete(I, args, kw):
    b = bind('a k', args, kw)
    t, k = fz(I, b.a), fz(I, b.k)
    n = length(t)
    c = const_of(k)
    if rank(t) == 1 and c is not None:
        if c < 0:
            k = add(n, k)
        return wrap(I, concat(slice_(t, None, k, None), slice_(t, add(k, ONE), None, None)) if c not in (0, -1) else
                    slice_(t, ONE, None, None) if c == 0 else slice_(t, None, num(-1), None))
    raise Unmodelled('delete')


@fn('numpy.insert')
def np_insert(I, args, kw):
    b = bind('a k v', args, kw)
    t, k, v = fz(I, b.a), fz(I, b.k), fz(I, b.v)
    if rank(t) == 1 and const_of(k) == 0 and not isarr(v):
        return wrap(I, concat(vec(v), t))
    raise Unmodelled('insert')


@fn('numpy.ix_', 'numpy.mgrid', 'numpy.ogrid')
def np_ix(I, args, kw):
    raise Unmodelled('ix_')


# --------------------------------------------------------------------------
# selection, reductions
# --------------------------------------------------------------------------
@fn('numpy.where')
def np_where(I, args, kw):
    if len(args) == 3:
        c, a, b = (fz(I, x) for x in args)
        return wrap(I, ew(lambda x, y, z: ite(tm.truthy(x), y, z), [c, a, b]))
    return nonzero(I, fz(I, args[0]))


def nonzero(I, t):
    if t.op == 'ite':
        return I.choose(t.args[0], lambda: nonzero(I, t.args[1]), lambda: nonzero(I, t.args[2]))
    if rank(t) == 2:
        m = ew(lambda x: tm.truthy(x), [t])
        return (I.alloc('arr', mk('where2', m, 0)), I.alloc('arr', mk('where2', m, 1)))
    if rank(t) != 1:
        raise Unmodelled('where')
    return (I.alloc('arr', indices(t)),)


def indices(t):
    """indices of the true elements"""
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return filt(n, k, tm.truthy(index(t, k)), k)


@fn('numpy.nonzero')
def np_nonzero(I, args, kw):
    return nonzero(I, fz(I, args[0]))


@fn('numpy.flatnonzero')
def np_flatnonzero(I, args, kw):
    return I.alloc('arr', indices(fz(I, args[0])))


@fn('numpy.argwhere')
def np_argwhere(I, args, kw):
    t = fz(I, args[0])
    if rank(t) != 1:
        raise Unmodelled('argwhere')
    return I.alloc('arr', L.rows(indices(t), lambda x: vec(x)))


@fn('numpy.count_nonzero')
def np_count(I, args, kw):
    t = fz(I, args[0])
    return L.tm_sum(ew(lambda x: ite(tm.truthy(x), ONE, ZERO), [t]))


@fn('numpy.select')
def np_select(I, args, kw):
    b = bind('c v default', args, kw)
    cs, _ = arrays_of(I, b.c)
    vs, _ = arrays_of(I, b.v)
    if cs is None or vs is None:
        raise Unmodelled('select')
    r = F(I, b.default, ZERO)
    for c, v in reversed(list(zip(cs, vs))):
        r = ew(lambda x, y, z: ite(tm.truthy(x), y, z), [c, v, r])
    return wrap(I, r)


@fn('numpy.diff')
def np_diff(I, args, kw):
    b = bind('a n axis prepend append', args, kw)
    t = fz(I, b.a)
    if given(b.prepend):
        p = fz(I, b.prepend)
        t = concat(p if isarr(p) else vec(p), t)
    if given(b.append):
        p = fz(I, b.append)
        t = concat(t, p if isarr(p) else vec(p))
    n = int(kconst(I, b.n, Fr(1)))
    ax = kconst(I, b.axis, Fr(-1))
    for _ in range(n):
        t = diff1(t, ax)
    return wrap(I, t)


def diff1(t, ax):
    if t.op == 'ite':
        return tm._hoist(lambda x: diff1(x, ax), (t,))
    if rank(t) == 2 and ax in (1, -1):
        return L.rows(t, lambda r: diff1(r, 0))
    if rank(t) == 2:
        raise Unmodelled('diff')
    return rangen(sub(length(t), ONE), lambda k: L.scalar_sub(index(t, add(k, ONE)), index(t, k)))


def axis_of(I, b, t):
    if given(b.axis):
        ax = kconst(I, b.axis)
        if rank(t) == 1:
            return None
        return int(ax) if ax >= 0 else (1 if ax == -1 else 0)
    return None


def boolnum(t):
    return ew(lambda x: ite(x, ONE, ZERO) if tm.is_bool(x) else x, [t])


@fn('numpy.sum')
def np_sum(I, args, kw):
    b = bind('a axis dtype', args, kw, ignore=('keepdims',))
    if 'keepdims' in kw:
        raise Unmodelled('keepdims')
    t = L2.as_array(I, b.a)
    return wrap(I, L.tm_sum(boolnum(t), axis_of(I, b, t)))


@fn('numpy.nansum')
def np_nansum(I, args, kw):
    b = bind('a axis', args, kw)
    t = fz(I, b.a)
    return wrap(I, L.tm_sum(ew(lambda x: ite(isnan(x), ZERO, x), [t]), axis_of(I, b, t)))


@fn('numpy.mean', 'numpy.average', 'statistics.mean', 'statistics.fmean')
def np_mean(I, args, kw):
    b = bind('a axis', args, kw)
    t = fz(I, b.a)
    return wrap(I, mean(boolnum(t), axis_of(I, b, t)))


def mean(t, ax=None):
    if t.op == 'ite':
        return tm._hoist(lambda x: mean(x, ax), (t,))
    if not isarr(t):
        return t
    if t.op == 'ravel':
        t = t.args[0]
    if ax is None:
        return div(L.tm_sum(t), L.total(t))
    n = length(t) if ax == 0 else length(index(t, ZERO))
    return ew(lambda x: div(x, n), [L.tm_sum(t, ax)])


@fn('numpy.nanmean')
def np_nanmean(I, args, kw):
    t = fz(I, args[0])
    if kw or len(args) > 1:
        raise Unmodelled('axis')
    return div(L.tm_sum(ew(lambda x: ite(isnan(x), ZERO, x), [t])), L.tm_sum(ew(lambda x: ite(isnan(x), ZERO, ONE), [t])))


@fn('numpy.std', 'numpy.var')
def np_std(I, args, kw):
    raise Unmodelled('std')


def _red(op):
    def g(I, args, kw):
        b = bind('a axis', args, kw)
        t = fz(I, b.a)
        ax = axis_of(I, b, t)
        if ax is not None:
            return wrap(I, L.rows(tm.transpose(t) if ax == 0 else t, lambda r: L.reduce_minmax(op, r)))
        return L.reduce_minmax(op, t) if isarr(t) else t
    return g


for _n in ('min', 'max'):
    CALLS['numpy.' + _n] = CALLS['numpy.a' + _n] = _red(_n)
CALLS['numpy.nanmin'] = _red('min')
CALLS['numpy.nanmax'] = _red('max')


@fn('numpy.ptp')
def np_ptp(I, args, kw):
    t = fz(I, args[0])
    return sub(L.reduce_minmax('max', t), L.reduce_minmax('min', t))


@fn('numpy.prod')
def np_prod(I, args, kw):
    t = fz(I, args[0])
    if kw or len(args) > 1 or rank(t) != 1:
        raise Unmodelled('prod')
    if t.op == 'vec':
        return tm.muln(*t.args) if t.args else ONE
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return tm.prod_(n, k, index(t, k))


@fn('numpy.cumsum')
def np_cumsum(I, args, kw):
    t = fz(I, args[0])
    if kw or len(args) > 1 or rank(t) != 1:
        raise Unmodelled('cumsum')

    def f(k):
        j = fresh('j', 'num', int=True, lo=Fr(0), ub=add(k, ONE))
        return tm.sum_(add(k, ONE), j, index(t, j))
    return wrap(I, rangen(length(t), f))


def arg_minmax(op, t):
    if t.op == 'ite':
        return tm._hoist(lambda x: arg_minmax(op, x), (t,))
    if rank(t) != 1:
        return unk('arg' + op, t)
    n = length(t)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    return tm.rmin_(n, k, index(t, k), 'arg' + op)


@fn('numpy.argmin', 'numpy.nanargmin')
def np_argmin(I, args, kw):
    if len(args) != 1 or kw:
        raise Unmodelled('axis')
    t = fz(I, args[0])
    return argmin_idx(t, 'min')


@fn('numpy.argmax', 'numpy.nanargmax')
def np_argmax(I, args, kw):
    if len(args) != 1 or kw:
        raise Unmodelled('axis')
    t = fz(I, args[0])
    b = t
    # first true position
    if rank(t) == 1 and L.ismask(t):
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return ite(L.any_of(t), tm.first_(n, k, tm.truthy(index(t, k))), ZERO)
    return argmin_idx(t, 'max')


def argmin_idx(t, op):
    if t.op == 'ite':
        return tm._hoist(lambda x: argmin_idx(x, op), (t,))
    return arg_minmax(op, t)


@fn('numpy.searchsorted')
def np_searchsorted(I, args, kw):
    b = bind('a v side', args, kw)
    s = strconst(I, b.side, 'left')
    a, v = fz(I, b.a), fz(I, b.v)
    if a.op == 'map' and s in ('left', 'right'):
        # the beginning of a sorted array
        f = tm.index(a, tm.num(0))
        b0 = f.args[0] if f.op == 'index' and f.args[1] is tm.num(0) else None
        if b0 is not None and b0.op == 'sym' and tm.SYM[b0].get('sorted') and a is tm.slice_(b0, tm.num(0), a.args[0], None):
            return wrap(I, ew(lambda x: tm.minmax('min', [mk('searchsorted', b0, x, string(s)), a.args[0]]), [v]))
    return wrap(I, ew(lambda x: mk('searchsorted', a, x, string(s)), [v]))


@fn('numpy.digitize')
def np_digitize(I, args, kw):
    raise Unmodelled('digitize')


@fn('numpy.unwrap')
def np_unwrap(I, args, kw):
    b = bind('p discont axis', args, {k: v for k, v in kw.items() if k != 'period'})
    t = fz(I, b.p)
    if given(b.discont) or given(b.axis) or rank(t) != 1:
        raise Unmodelled('unwrap')
    return wrap(I, tm.app('unwrap', t, F(I, kw['period']) if 'period' in kw else mul(num(2), tm.PI)))


tm.ARROPS |= {'unwrap'}
tm.RANK['unwrap'] = lambda a: 1
tm.LEN['unwrap'] = lambda a: length(a[0])
tm.ELEM['unwrap'] = 'num'


@fn('numpy.argsort')
def np_argsort(I, args, kw):
    t = fz(I, args[0])
    return wrap(I, tm.app('argsort', t))


@fn('numpy.unique')
def np_unique(I, args, kw):
    b = bind('a return_index return_inverse return_counts', args, kw)
    for x in (b.return_inverse, b.return_counts):
        if given(x) and fz(I, x) is not FALSE:
            raise Unmodelled('unique')
    t = L.flat(fz(I, b.a))
    ui = tm.app('uniqidx', t)
    u = L.rows(ui, lambda k: index(t, k)) if ui.op != 'ite' else tm._hoist(lambda q: L.rows(q, lambda k: index(t, k)), (ui,))
    if given(b.return_index) and fz(I, b.return_index) is not FALSE:
        return (I.alloc('arr', u), I.alloc('arr', ui))
    return I.alloc('arr', u)


@fn('numpy.take')
def np_take(I, args, kw):
    b = bind('a k axis', args, kw)
    if given(b.axis):
        raise Unmodelled('axis')
    return wrap(I, L.get_sel(fz(I, b.a), L.selectors(I, b.k)))


@fn('numpy.isin', 'numpy.in1d')
def np_isin(I, args, kw):
    a, b = fz(I, args[0]), fz(I, args[1])
    return wrap(I, ew(lambda x: L.any_of(ew(lambda y: L.seq(y, x), [b])), [a]))


@fn('numpy.array_equal')
def np_array_equal(I, args, kw):
    raise Unmodelled('array_equal')


@fn('numpy.ndim')
def np_ndim(I, args, kw):
    r = rank(fz(I, args[0]))
    if r is None:
        raise Unmodelled('ndim')
    return num(r)


@fn('numpy.shape')
def np_shape(I, args, kw):
    return shape(I, fz(I, args[0]))


def shape(I, t):
    r = rank(t)
    if r == 0:
        return ()
    out = []
    x = t
    for _ in range(r or 1):
        out.append(length(x))
        x = index(x, ZERO) if x.op != 'map' else tm.open_(x)[1][0]
    return tuple(out)


@fn('numpy.size')
def np_size(I, args, kw):
    t = fz(I, args[0])
    return L.total(t) if isarr(t) else ONE


@fn('numpy.copyto')
def np_copyto(I, args, kw):
    b = bind('dst src', args, kw)
    L.store(I, b.dst, _fullslice(), b.src)
    return NONE


def _fullslice():
    from .interp import Slice
    return Slice(None, None, None)


@fn('numpy.put', 'numpy.place', 'numpy.putmask')
def np_put(I, args, kw):
    b = bind('a k v', args, kw)
    L.store(I, b.a, b.k, b.v)
    return NONE


@fn('numpy.vectorize')
def np_vectorize(I, args, kw):
    from .interp import Py
    f = args[0]

    def run(I2, a, k):
        if len(a) != 1 or k:
            raise Unmodelled('vectorize')
        t = fz(I2, a[0])
        if not isarr(t):
            return I2.call(f, [t], {})
        r = L2.mapcall(I2, f, [a[0]])
        return I2.alloc('arr', fz(I2, r))
    return Py('vectorized', run)


# --------------------------------------------------------------------------
# linear algebra, transforms, filters
# --------------------------------------------------------------------------
@fn('numpy.matmul', 'numpy.dot')
def np_matmul(I, args, kw):
    if len(args) != 2 or kw:
        raise Unmodelled('matmul')
    a, b = fz(I, args[0]), fz(I, args[1])
    if not isarr(a) or not isarr(b):
        return wrap(I, ew(mul, [a, b]))
    return wrap(I, hoist2(L.matmul, a, b))


def hoist2(f, a, b):
    if a.op == 'ite' or b.op == 'ite':
        return tm._hoist(lambda x, y: hoist2(f, x, y), (a, b))
    return f(a, b)


@fn('numpy.inner', 'numpy.vdot')
def np_inner(I, args, kw):
    return L.matmul(fz(I, args[0]), fz(I, args[1]))


@fn('numpy.outer')
def np_outer(I, args, kw):
    a, b = fz(I, args[0]), fz(I, args[1])
    return wrap(I, L.rows(a, lambda x: ew(lambda y: mul(x, y), [b])))


@fn('numpy.cross')
def np_cross(I, args, kw):
    if kw:
        raise Unmodelled('axis')
    a, b = fz(I, args[0]), fz(I, args[1])
    return wrap(I, hoist2(cross, a, b))


def cross(a, b):
    ra, rb = rank(a), rank(b)
    if ra == 1 and rb == 1:
        x = [index(a, num(i)) for i in range(3)]
        y = [index(b, num(i)) for i in range(3)]
        return vec(*[sub(mul(x[(i + 1) % 3], y[(i + 2) % 3]), mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)])
    n = length(a) if ra == 2 else length(b)
    return rangen(n, lambda k: cross(index(a, k) if ra == 2 else a, index(b, k) if rb == 2 else b))


@fn('numpy.linalg.norm')
def np_norm(I, args, kw):
    b = bind('a axis', args, kw)
    t = fz(I, b.a)
    sq = ew(lambda x: mul(x, x), [t])
    s = L.tm_sum(sq, axis_of(I, b, t)) if given(b.axis) else L.tm_sum(sq)
    return wrap(I, ew(lambda x: tm.powT(x, num(Fr(1, 2))), [s]))


@fn('numpy.einsum')
def np_einsum(I, args, kw):
    sp = strconst(I, args[0]).replace(' ', '')
    ops = [fz(I, a) for a in args[1:]]
    if sp == 'ij,j->i' or sp == 'ij,j':
        return wrap(I, L.matmul(ops[0], ops[1]))
    if sp in ('ij,ij->i',):
        n = length(ops[0])
        return wrap(I, rangen(n, lambda k: L.matmul(index(ops[0], k), index(ops[1], k))))
    if sp in ('i,i->', 'i,i'):
        return L.matmul(*ops)
    raise Unmodelled('einsum')


def _fft(op):
    def g(I, args, kw):
        b = bind('a n', args, kw)
        if given(b.n):
            raise Unmodelled('n')
        t = fz(I, b.a)
        if rank(t) == 2 and op in ('fft', 'ifft'):
            raise Unmodelled('axis')
        return wrap(I, hoistapp(op, t))
    return g


def hoistapp(op, *a):
    return tm.app(op, *a)


for _n in ('fft', 'ifft', 'fft2', 'ifft2'):
    CALLS['numpy.fft.' + _n] = _fft(_n)
    CALLS['scipy.fft.' + _n] = _fft(_n)


@fn('numpy.fft.fftfreq')
def np_fftfreq(I, args, kw):
    b = bind('n d', args, kw)
    n, d = fz(I, b.n), F(I, b.d, ONE)
    return I.alloc('arr', tm._hoist(fftfreq, (n, d)) if n.op == 'ite' or d.op == 'ite' else fftfreq(n, d))


def fftfreq(n, d):
    return rangen(n, lambda k: div(ite(lt(mul(TWO, k), n), k, sub(k, n)), mul(n, d)))


@fn('numpy.fft.fftshift', 'numpy.fft.ifftshift', 'numpy.fft.rfft', 'numpy.fft.irfft', 'numpy.fft.rfftfreq')
def np_fftshift(I, args, kw):
    raise Unmodelled('fftshift')


@fn('numpy.convolve', 'scipy.signal.convolve', 'scipy.signal.fftconvolve')
def np_convolve(I, args, kw):
    b = bind('a v mode', args, kw)
    mode = strconst(I, b.mode, 'full')
    a, v = fz(I, b.a), fz(I, b.v)
    if rank(a) != 1 or rank(v) != 1:
        raise Unmodelled('convolve')
    return wrap(I, tm._hoist(lambda x, y: convolve(x, y, mode), (a, v)) if a.op == 'ite' or v.op == 'ite' else convolve(a, v, mode))


def convolve(a, v, mode):
    # numpy convolves with the longer array first
    n, m = length(a), length(v)
    if const_of(n) is not None and (const_of(m) is None or const_of(m) > const_of(n)):
        a, v, n, m = v, a, m, n
    c1, b1 = tm.scalar_factor(a)
    c2, b2 = const_factor(v)
    c = mul(c1, c2)
    r = mk('convolve', b1, b2, mode)
    return ew(mul, [c, r]) if c is not ONE else r


def const_factor(v):
    """v = c * w with the first element of w one, for vectors of constants"""
    if v.op == 'vec' and v.args and all(x.op == 'num' for x in v.args):
        x = next((x for x in v.args if x.args[0] != 0), None)
        if x is not None and x is not ONE:
            return x, vec(*[div(y, x) for y in v.args])
        return ONE, v
    if v.op == 'vec' and v.args:
        x = v.args[0]
        if x.op != 'num' or x.args[0] != 0:
            return x, vec(*[div(y, x) for y in v.args])
    return tm.scalar_factor(v)


tm.APP['convolve'] = lambda a, v, mode: convolve(a, v, mode) if isinstance(mode, str) else None
tm.LINEAR.pop('convolve', None)


def _convlen(a):
    n, m = length(a[0]), length(a[1])
    if a[2] == 'same':
        return n
    if a[2] == 'full':
        return sub(add(n, m), ONE)
    return add(sub(n, m), ONE)


tm.LEN['convolve'] = _convlen


@fn('numpy.interp')
def np_interp(I, args, kw):
    b = bind('x xp fp left right period', args, kw)
    extra = [F(I, v, NONE) for v in (b.left, b.right, b.period)]
    x, xp, fp = fz(I, b.x), fz(I, b.xp), fz(I, b.fp)
    return wrap(I, interp(x, xp, fp, extra))


def interp(x, xp, fp, extra):
    if any(t.op == 'ite' for t in (x, xp, fp)):
        return tm._hoist(lambda a, b, c: interp(a, b, c, extra), (x, xp, fp))
    return ew(lambda e: mk('interp1', e, xp, fp, *extra), [x])


@fn('scipy.signal.firwin')
def sp_firwin(I, args, kw):
    b = bind('numtaps cutoff width window pass_zero scale nyq fs', args, kw)
    if given(b.nyq):
        raise Unmodelled('nyq')
    fs = F(I, b.fs, TWO)
    if fs is NONE:
        fs = TWO
    cutoff = fz(I, b.cutoff)
    # the cut-off only matters relative to the sampling rate
    rel = ew(lambda x: div(mul(TWO, x), fs), [cutoff])
    if rel.op == 'vec' and len(rel.args) == 1:
        rel = rel.args[0]
    win = fz(I, b.window) if b.window is not None else string('hamming')
    pz = F(I, b.pass_zero, TRUE)
    if pz.op == 'str' and pz.args[0] == 'lowpass':
        pz = TRUE
    sc = F(I, b.scale, TRUE)
    return wrap(I, tm.app('firwin', fz(I, b.numtaps), rel, win, pz, sc, F(I, b.width, NONE)))


@fn('scipy.signal.lfilter')
def sp_lfilter(I, args, kw):
    b = bind('b a x axis zi', args, kw)
    if given(b.zi) or (given(b.axis) and kconst(I, b.axis) != -1):
        raise Unmodelled('lfilter')
    bb, a, x = fz(I, b.b), fz(I, b.a), fz(I, b.x)
    if not isarr(a) and a.op != 'ite':
        a = vec(a)
    if not isarr(bb) and bb.op != 'ite':
        bb = vec(bb)
    return wrap(I, tm.app('lfilter', bb, a, x))


@fn('scipy.signal.filtfilt')
def sp_filtfilt(I, args, kw):
    raise Unmodelled('filtfilt')


@fn('scipy.ndimage.gaussian_filter', 'scipy.ndimage.gaussian_filter1d')
def sp_gauss(I, args, kw):
    raise Unmodelled('gaussian_filter')


@fn('statsmodels.api.add_constant', 'statsmodels.tools.add_constant', 'statsmodels.tools.tools.add_constant')
def sm_addconst(I, args, kw):
    b = bind('data prepend has_constant', args, kw)
    p = F(I, b.prepend, TRUE)
    if given(b.has_constant):
        raise Unmodelled('has_constant')
    t = fz(I, b.data)
    if t.op == 'df':
        n = t.args[0]
        c = ('const', full1(n, ONE))
        cols = [c] + list(t.args[1]) if p is TRUE else list(t.args[1]) + [c]
        return I.alloc('df', L.mkdf(n, cols, t.args[2]))
    n = length(t)
    one = lambda r: concat(vec(ONE), r) if p is TRUE else concat(r, vec(ONE))   # noqa: E731
    if rank(t) == 1:
        return I.alloc('arr', rangen(n, lambda k: one(vec(index(t, k)))))
    return I.alloc('arr', rangen(n, lambda k: one(index(t, k))))


@fn('statsmodels.api.OLS', 'statsmodels.regression.linear_model.OLS')
def sm_ols(I, args, kw):
    b = bind('endog exog', args, kw, ignore=())
    return mk('ols', fz(I, b.endog), fz(I, b.exog))


@fn('numpy.linalg.lstsq', 'numpy.polyfit', 'numpy.linalg.solve', 'numpy.linalg.inv')
def np_lstsq(I, args, kw):
    raise Unmodelled('lstsq')


# --------------------------------------------------------------------------
# attributes and methods of arrays / series
# --------------------------------------------------------------------------
def np_astype(I, t, args, kw):
    b = bind('dtype copy', args, kw, ignore=('errors',))
    return wrap(I, typed(I, t, dtypename(I, b.dtype)))


class Acc:
    """.str / .dt accessor of a series"""

    def __init__(self, ref, how):
        self.ref, self.how = ref, how
        self.name = how


def arr_attr(I, ref, name):
    o = I.obj(ref)
    if o.kind == 'list':
        return None
    t = o.c
    if name == 'T':
        r = tm.transpose(t)
        if rank(t) == 1:
            return ref
        return rearranged(I, ref, r)
    if name == 'shape':
        return shape(I, t)
    if name == 'size':
        return L.total(t)
    if name == 'ndim':
        return num(rank(t) or 1)
    if name == 'real':
        return wrap(I, ew(real, [t]))
    if name == 'imag':
        return wrap(I, ew(lambda x: tm.app('imag', x), [t]))
    if name in ('values', 'array'):
        x = o.x if isinstance(o.x, tuple) and o.x else None
        if x and x[0] == 'col':
            return I.alloc('arr', t, o.roots, ('ro',))
        return ref
    if name in ('iloc', 'loc', 'at', 'iat'):
        return L.Loc(ref, name)
    if name in ('str', 'dt'):
        return Acc(ref, name)
    if name == 'dtype':
        return mk('dtypeof', t)
    if name == 'flat':
        return wrap(I, L.flat(t))
    if name == 'empty':
        return tm.eq0(length(t))
    if name == 'index':
        return I.alloc('arr', tm.rangeT(ZERO, length(t)))
    if name == 'name':
        x = o.x if isinstance(o.x, tuple) and o.x else None
        return I.keyval(x[2]) if x and x[0] == 'col' else NONE
    return None


def delegate(npname):
    def g(I, ref, args, kw):
        return CALLS[npname](I, [ref] + list(args), kw)
    return g


ARRM = {'sum': 'numpy.sum', 'mean': 'numpy.mean', 'min': 'numpy.min', 'max': 'numpy.max', 'ravel': 'numpy.ravel',
        'any': 'numpy.any', 'all': 'numpy.all', 'argmin': 'numpy.argmin', 'argmax': 'numpy.argmax',
        'cumsum': 'numpy.cumsum', 'clip': 'numpy.clip', 'dot': 'numpy.dot', 'transpose': 'numpy.transpose', 'squeeze': 'numpy.squeeze',
        'repeat': 'numpy.repeat', 'nonzero': 'numpy.nonzero', 'prod': 'numpy.prod', 'take': 'numpy.take', 'argsort': 'numpy.argsort',
        'searchsorted': 'numpy.searchsorted', 'ptp': 'numpy.ptp', 'conj': 'numpy.conj', 'conjugate': 'numpy.conj', 'isna': 'numpy.isnan',
        'isnull': 'numpy.isnan', 'notna': 'pandas.notna', 'notnull': 'pandas.notna', 'abs': 'numpy.abs', 'isin': 'numpy.isin',
        'unique': None, 'idxmin': 'numpy.argmin', 'idxmax': 'numpy.argmax', 'round': 'numpy.round'}

_BIN = {'mul': mul, 'multiply': mul, 'add': L.scalar_add, 'sub': L.scalar_sub, 'subtract': L.scalar_sub, 'div': div, 'truediv': div,
        'divide': div, 'mod': tm.mod, 'floordiv': tm.floordiv, 'pow': tm.powT, 'rmul': mul, 'radd': lambda a, b: L.scalar_add(b, a),
        'rsub': lambda a, b: L.scalar_sub(b, a), 'eq': L.seq, 'ne': lambda a, b: bnot(L.seq(a, b)), 'lt': L.slt, 'le': L.sle,
        'gt': lambda a, b: L.slt(b, a), 'ge': lambda a, b: L.sle(b, a)}


def arr_method(I, ref, name, args, kw):
    o = I.obj(ref)
    t = o.c
    m = ARRM.get(name)
    if m:
        return CALLS[m](I, [ref] + list(args), kw)
    if name in _BIN and len(args) == 1 and not kw:
        return wrap(I, ew(_BIN[name], [t, fz(I, args[0])]))
    if name == 'reshape':
        if kw:
            raise Unmodelled('order')
        shp = args[0] if len(args) == 1 else tuple(args)
        return rearranged(I, ref, reshape(I, t, shp))
    if name == 'flatten':
        return wrap(I, L.flat(t))
    if name == 'view' and not args and not kw:
        return rearranged(I, ref, t)
    if name == 'copy':
        return I.alloc('arr', t, x=('int',) if o.x == ('int',) else None)
    if name in ('to_numpy', '__array__'):
        if kw or args:
            raise Unmodelled('dtype')
        x = o.x if isinstance(o.x, tuple) and o.x else None
        return I.alloc('arr', t, o.roots, ('ro',)) if x and x[0] == 'col' else ref
    if name == 'astype':
        b = bind('dtype copy errors', args, kw)
        d = dtypename(I, b.dtype)
        if given(b.copy) and fz(I, b.copy) is FALSE and typed(I, t, d) is t:
            return rearranged(I, ref, t)
        return I.alloc('arr', typed(I, t, d), x=('int',) if d in INTD else None)
    if name in ('tolist', 'to_list'):
        return I.listof(t)
    if name == 'fill':
        I.write_arr(ref, L.fill(t, fz(I, args[0])), 'array filled')
        return NONE
    if name == 'item':
        return index(L.flat(t), F(I, args[0], ZERO) if args else ZERO)
    if name == 'sort':
        I.write_arr(ref, tm.app('sorted', t), 'array sorted')
        return NONE
    if name in ('apply', 'map') and len(args) == 1 and not kw:
        f = args[0]
        if L.okind(I, f) == 'dict':
            raise Unmodelled('map')
        r = L2.mapcall(I, f, [ref])
        return I.alloc('arr', fz(I, r))
    if name == 'fillna' and len(args) == 1 and not kw:
        v = fz(I, args[0])
        return wrap(I, ew(lambda x: ite(isnan(x), v, x), [t]))
    if name == 'where' and len(args) in (1, 2):
        v = fz(I, args[1]) if len(args) == 2 else NAN
        return wrap(I, ew(lambda c, x, y: ite(tm.truthy(c), x, y), [fz(I, args[0]), t, v] if True else None))
    if name == 'mask' and len(args) in (1, 2):
        v = fz(I, args[1]) if len(args) == 2 else NAN
        return wrap(I, ew(lambda c, x, y: ite(tm.truthy(c), y, x), [fz(I, args[0]), t, v]))
    if name == 'diff' and not args and not kw:
        return wrap(I, concat(vec(NAN), diff1(t, 0)))
    if name in ('reset_index',):
        d = kw.get('drop')
        if d is not None and fz(I, d) is TRUE:
            return I.alloc('arr', t)
        raise Unmodelled('reset_index')
    if name == 'duplicated' and not args and not kw:
        m = first_of_kind([t], length(t))
        return wrap(I, ew(tm.bnot, [m]))
    if name in ('head',):
        n = fz(I, args[0]) if args else num(5)
        return wrap(I, slice_(t, None, n, None))
    if name == 'items' or name == 'iteritems':
        from .interp import Seq
        return Seq(length(t), lambda k: (k, I.thaw(index(t, k))))
    if name == 'rename':
        return ref
    if name == 'unique':
        raise Unmodelled('unique')
    if name == 'nunique':
        raise Unmodelled('nunique')
    if name == 'get':
        return L.subscript(I, ref, args[0])
    if name in ('count',) and not args and not kw:
        return L.tm_sum(ew(lambda x: ite(isnan(x), ZERO, ONE), [t]))
    if name == 'join':
        return L2.joinT(string(','), t)
    if name == 'to_frame':
        x = o.x if isinstance(o.x, tuple) and o.x else None
        nm = fz(I, args[0]).args[0] if args else (x[2] if x and x[0] == 'col' else None)
        if nm is None:
            raise Unmodelled('to_frame')
        return I.alloc('df', L.mkdf(length(t), [(nm, t)]))
    raise Unmodelled(name)


def acc_attr(I, acc, name):
    from .interp import Bound
    t = I.obj(acc.ref).c
    if acc.how == 'dt' and name in L2.DTARGS:
        return wrap(I, ew(lambda x: L2.dtfield(name, x), [t]))
    return Bound(acc, name)


def acc_method(I, acc, name, args, kw):
    t = I.obj(acc.ref).c
    if acc.how == 'str':
        if name == 'extract':
            b = bind('pat flags expand', args, kw)
            p = L2.Pat(fz(I, b.pat))
            if p.ng is None or given(b.flags):
                raise Unmodelled('extract')
            ex = F(I, b.expand, TRUE)

            def col(j):
                return ew(lambda x: extract(p, x, j), [t])
            if ex is FALSE and p.ng == 1:
                return wrap(I, col(0))
            return I.alloc('df', L.mkdf(length(t), [(num(j), col(j)) for j in range(p.ng)]))
        if name in ('contains', 'match') and False:
            pass
        if name == 'get' and len(args) == 1:
            return wrap(I, ew(lambda x: index(x, fz(I, args[0])), [t]))
        if name in ('split', 'rsplit', 'findall') and ('expand' in kw):
            raise Unmodelled('expand')
        if name == 'len':
            return wrap(I, ew(length, [t]))
        if name == 'slice':
            b = bind('start stop step', args, kw)
            if given(b.step):
                raise Unmodelled('step')
            return wrap(I, ew(lambda x: L.strslice(x, F(I, b.start, None), F(I, b.stop, None)), [t]))
        if name in ('contains',):
            rx = kw.pop('regex', None) if kw else None
            b = bind('pat', args, kw)
            if rx is not None and fz(I, rx) is FALSE:
                p = fz(I, b.pat)
                return wrap(I, ew(lambda x: L.contains(p, x), [t]))
            raise Unmodelled('contains')
        if name == 'replace':
            b = bind('a b', args, {k: v for k, v in kw.items() if k != 'regex'})
            if 'regex' in kw and fz(I, kw['regex']) is not FALSE:
                raise Unmodelled('regex')
            return wrap(I, ew(lambda x: L2.replace_term(x, fz(I, b.a), fz(I, b.b)), [t]))
        if name == 'cat':
            b = bind('other sep', args, kw)
            if b.other is None:
                raise Unmodelled('cat')
            s = F(I, b.sep, string(''))
            return wrap(I, ew(lambda x, y: L.cat(x, s, y), [t, fz(I, b.other)]))
        if name in L2.STRM:
            def one(x):
                r = L2.str_method(I, x, name, args, kw)
                return fz(I, r)
            return wrap(I, ew(one, [t]))
        raise Unmodelled(name)
    if acc.how == 'dt':
        if name in ('tz_localize', 'tz_convert', 'total_seconds', 'timestamp', 'strftime'):
            def two(x):
                if name == 'tz_localize':
                    return L2.tzlocalize(x, L2.tzarg(fz(I, args[0])))
                if name == 'tz_convert':
                    return L2.tzconvert(x, L2.tzarg(fz(I, args[0])))
                return fz(I, L2.dt_method(I, x, name, args, kw))
            return wrap(I, ew(two, [t]))
        raise Unmodelled(name)
    raise Unmodelled(name)


def extract(p, x, j):
    """group j of the first match of p in x (missing when there is none)"""
    f = L2.findall_term(None, p, x)
    m = mk('match', f, p.ng)
    return ite(tm.truthy(f), L2.match_group(m, num(j + 1)), NAN)


# --------------------------------------------------------------------------
# data frames
# --------------------------------------------------------------------------
def df_matrix(t):
    """2-d array of a frame"""
    if t.op == 'ite':
        return tm._hoist(df_matrix, (t,))
    t = L.as_df(t)
    if t.args[2] is not NONE or not t.args[1]:
        return unk('matrix', t)
    return tm.transpose(vec(*[c for _, c in t.args[1]]))


def df_attr(I, ref, name):
    o = I.obj(ref)
    t = o.c
    if name == 'columns':
        return L.df_columns(I, ref)
    if name == 'shape':
        n = L2.b_len(I, [ref], {})
        cols = L.df_columns(I, ref)
        return (n, L2.b_len(I, [cols], {}))
    if name == 'empty':
        return tm.eq0(L2.b_len(I, [ref], {}))
    if name in ('iloc', 'loc', 'at', 'iat'):
        return L.Loc(ref, name)
    if name == 'values':
        return I.alloc('arr', df_matrix(t), o.roots, ('ro',))
    if name == 'index':
        n = L2.b_len(I, [ref], {})
        return I.alloc('arr', tm.rangeT(ZERO, n))
    if name == 'T':
        return unk('df.T', t)
    if name == 'size':
        return unk('df.size', t)
    names = set()
    for l in tm.leaves(t):
        if l.op == 'df':
            names |= {k for k, _ in l.args[1]}
    if name in names:
        return L.df_subscript(I, ref, string(name))
    if t.op == 'sym' and tm.SYM[t].get('cols') and name in tm.SYM[t]['cols']:
        return L.df_subscript(I, ref, string(name))
    if name in DFM:
        return None
    if any(l.op != 'df' or l.args[2] is not NONE for l in tm.leaves(t)):
        return L.df_subscript(I, ref, string(name))
    return None


DFM = {'pop', 'drop', 'rename', 'assign', 'insert', 'copy', 'head', 'iterrows', 'itertuples', 'apply', 'map', 'mul', 'reset_index',
       'set_index', 'sort_values', 'to_numpy', 'drop_duplicates', 'dropna', 'fillna', 'get', 'keys', 'items', 'mean', 'sum', 'astype',
       'update', 'to_dict', 'join', 'merge', 'append', 'tail', 'abs', 'min', 'max', 'isna', 'pipe', 'query', 'filter', 'add', 'sub', 'div',
       'interpolate', 'rolling', 'groupby', 'describe', 'transform', 'agg', 'where', 'mask', 'count', 'any', 'all', 'iloc'}


def same(I, ref, t, inplace):
    """result of a frame operation: in place or new"""
    if inplace is not None and fz(I, inplace) is TRUE:
        I.mutated(ref, 'data frame changed in place')
        I.put(ref, I.obj(ref).with_(c=t))
        return NONE
    return I.alloc('df', t)


def names_list(I, v):
    if L.okind(I, v) in ('list', 'arr') or isinstance(v, tuple):
        r = L.names_of(I, v)
        if r is None:
            raise Unmodelled('columns')
        return r
    k = I.key(v)
    return [k]


def df_method(I, ref, name, args, kw):
    o = I.obj(ref)
    t = o.c
    if name == 'pop':
        c = L.df_subscript(I, ref, args[0])
        L.df_drop(I, ref, [I.key(args[0])])
        if L.okind(I, c) == 'arr':
            return I.alloc('arr', I.obj(c).c)
        return c
    if name == 'copy':
        return I.alloc('df', t)
    if name == 'get':
        return L.df_subscript(I, ref, args[0])
    if name == 'keys':
        return L.df_columns(I, ref)
    if name == 'drop':
        b = bind('labels axis index columns level inplace', args, kw, ignore=('errors',))
        if b.columns is not None:
            names = names_list(I, b.columns)
        elif given(b.axis) and fz(I, b.axis) in (ONE, string('columns')):
            names = names_list(I, b.labels)
        else:
            r = unk('drop rows', t, F(I, b.labels, NONE), F(I, b.index, NONE))
            return same(I, ref, L.df_hoist(t, lambda x: opaque_rows(x, r)), b.inplace)
        tmp = I.alloc('df', t)
        for n in names:
            if not isinstance(n, (str, T)):
                raise Unmodelled('drop')
        L.df_drop(I, tmp, names)
        return same(I, ref, I.obj(tmp).c, b.inplace)
    if name == 'rename':
        b = bind('mapper columns inplace', args, kw, ignore=('axis',))
        m = b.columns if b.columns is not None else b.mapper
        if L.okind(I, m) != 'dict' or (b.columns is None and 'axis' not in kw):
            raise Unmodelled('rename')
        d, extra = I.obj(m).c
        if extra is not EMPTY:
            raise Unmodelled('rename')
        mp = {k: fz(I, v).args[0] for k, v in d.items() if fz(I, v).op == 'str'}
        if len(mp) != len(d):
            raise Unmodelled('rename')

        def f(x):
            x = L.as_df(x)
            if x.args[2] is not NONE:
                return unk('rename', x)
            return L.mkdf(x.args[0], [(mp.get(k, k), c) for k, c in x.args[1]])
        return same(I, ref, L.df_hoist(t, f), b.inplace)
    if name == 'assign':
        new = I.alloc('df', t)
        for k, v in kw.items():
            if isinstance(v, T) or L.okind(I, v):
                L.df_store(I, new, string(k), v)
            else:
                L.df_store(I, new, string(k), I.call(v, [new], {}))
        return new
    if name == 'insert':
        b = bind('loc column value allow_duplicates', args, kw)
        k = I.key(b.column)
        loc = const_of(fz(I, b.loc))
        tv = fz(I, b.value)
        I.mutated(ref, 'column inserted into a data frame')
        if loc is not None and t.op == 'df' and t.args[2] is NONE and (not 0 <= loc <= len(t.args[1]) or b.allow_duplicates is None and any(c[0] == k for c in t.args[1])):
            I.raise_('ValueError' if loc < 0 or loc <= len(t.args[1]) else 'IndexError')
            from .interp import Dead
            raise Dead()
        if loc is None or not isinstance(k, str):
            t2 = L.df_set(t, k, tv) if isinstance(k, str) else unk_fresh('insert', t, tv)
            I.put(ref, o.with_(c=t2))
            return NONE

        def g(x):
            x = L.df_set(x, k, tv)
            cols = [c for c in x.args[1] if c[0] != k]
            new = [c for c in x.args[1] if c[0] == k]
            cols[int(loc):int(loc)] = new
            return L.mkdf(x.args[0], cols, x.args[2])
        I.put(ref, o.with_(c=L.df_hoist(t, g)))
        return NONE
    if name == 'reset_index':
        b = bind('level drop inplace', args, kw)
        if given(b.level):
            raise Unmodelled('reset_index')
        if given(b.drop) and fz(I, b.drop) is TRUE:
            t2 = L.df_hoist(t, lambda x: L.mkdf(x.args[0], [c for c in x.args[1] if c[0] != '<index>'], x.args[2]) if x.op == 'df' else x)
        elif all(x.op in ('df', 'undef') and (x.op == 'undef' or x.args[2] is NONE) for x in tm.leaves(t)):
            t2 = L.df_hoist(t, lambda x: x if x.op == 'undef' else L.mkdf(
                x.args[0], [('index', dict(x.args[1]).get('<index>', tm.rangeT(ZERO, x.args[0])))] + [c for c in x.args[1] if c[0] != '<index>']))
        else:
            t2 = unk('reset_index', t)
        return same(I, ref, t2, b.inplace)
    if name in ('iterrows', 'itertuples'):
        from .interp import Seq
        n = L2.b_len(I, [ref], {})
        if name == 'iterrows':
            return Seq(n, lambda k: (k, L.Row(t, k)))
        return Seq(n, lambda k: L.Row(t, k))
    if name == 'head':
        n = fz(I, args[0]) if args else num(5)
        return I.alloc('df', L.df_rows(t, lambda c: slice_(c, None, n, None)))
    if name == 'to_numpy':
        return I.alloc('arr', df_matrix(t))
    if name in ('mul', 'multiply', 'add', 'sub', 'div') and len(args) == 1 and not kw:
        tv = fz(I, args[0])
        if not isarr(tv) and tv.op != 'df':
            return I.alloc('df', L.df_hoist(t, lambda x: L.mkdf(x.args[0], [(k, ew(lambda y: _BIN[name](y, tv), [c])) for k, c in x.args[1]])
                                            if x.op == 'df' and x.args[2] is NONE else unk('df.' + name, x, tv)))
    if name == 'apply' and len(args) == 1 and not set(kw) & {'axis', 'raw', 'result_type', 'by_row', 'engine', 'engine_kwargs', 'func'}:
        if t.op == 'df' and t.args[2] is NONE and t.args[1]:
            cols = []
            if 'args' in kw:
                raise Unmodelled('args of apply')
            for k, c in t.args[1]:
                r = I.call(args[0], [I.alloc('arr', c)], dict(kw))
                cols.append((k, fz(I, r)))
            if all(isarr(c) for _, c in cols):
                return I.alloc('df', L.mkdf(t.args[0], cols))
        raise Unmodelled('apply')
    if name == 'astype':
        raise Unmodelled('astype')
    if name == 'items':
        if t.op == 'df' and t.args[2] is NONE:
            return I.newlist([(I.keyval(k), L.df_subscript(I, ref, I.keyval(k))) for k, _ in t.args[1]])
        raise Unmodelled('items')
    if name == 'pipe':
        return I.call(args[0], [ref] + list(args[1:]), kw)
    if name in ('drop_duplicates', 'dropna', 'sort_values') and all(x.op == 'undef' or x.op == 'df' and x.args[2] is NONE for x in tm.leaves(t)):
        r, ip = df_select(I, t, name, args, kw)
        if r is not None:
            return same(I, ref, r, ip)
    if name in ('drop_duplicates', 'dropna', 'sort_values', 'fillna', 'set_index', 'sort_index'):
        ip = kw.get('inplace')
        r = unk('df.' + name, t, *[fz(I, a) for a in args], *[mk('kw', k, fz(I, v)) for k, v in sorted(kw.items()) if k != 'inplace'])
        if t.op != 'df' and all(x.op in ('undef', 'num') or x.op == 'df' and x.args[2] is NONE for x in tm.leaves(t)):
            return same(I, ref, L.df_hoist(t, lambda x: opaque_rows(x, r, x.args[0] if name.startswith('sort') and x.op == 'df' else None)), ip)
        return same(I, ref, mk('df', mk('nrowsof', r), tuple((k, mk('col', r, string(k) if isinstance(k, str) else k)) for k, _ in t.args[1])
                               if t.op == 'df' else (), NONE if t.op == 'df' else r), ip)
    raise Unmodelled(name)


def opaque_rows(x, r, n=None):
    """a frame of the same columns and rows that are not modelled"""
    if x.op != 'df' or x.args[2] is not NONE:
        return x if x.op in ('undef', 'num') else mk('df', mk('nrowsof', r), (), r)
    return mk('df', n or mk('nrowsof', r), tuple((k, mk('col', r, string(k) if isinstance(k, str) else k)) for k, _ in x.args[1]), NONE)


def first_of_kind(cols, n):
    """mask: no earlier row has the same values"""
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)

    def same_as(j):
        r = TRUE
        for c in cols:
            r = tm.band(r, L.seq(index(c, j), index(c, k)))
        return r
    j = fresh('j', 'num', int=True, lo=Fr(0), ub=k)
    return tm.map_(n, k, tm.bnot(tm.any_(k, j, same_as(j))))


def df_select(I, t, name, args, kw):
    """rows of a frame of known columns, kept or reordered; the rows keep their numbers unless told otherwise"""
    b = bind({'drop_duplicates': 'subset keep inplace ignore_index', 'dropna': 'axis how subset inplace ignore_index',
              'sort_values': 'by axis ascending inplace ignore_index kind'}[name], args, kw, ignore=('na_position',))
    if name != 'drop_duplicates' and given(b.axis) and fz(I, b.axis) not in (ZERO, string('index')):
        return None, None
    if name == 'dropna' and given(b.how) and fz(I, b.how) is not string('any') or \
            name == 'drop_duplicates' and given(b.keep) and fz(I, b.keep) is not string('first') or \
            name == 'sort_values' and given(b.ascending) and fz(I, b.ascending) is not TRUE:
        return None, None
    by = b.by if name == 'sort_values' else b.subset
    names = names_list(I, by) if given(by) else None
    if name == 'sort_values' and (names is None or len(names) != 1) or any(not isinstance(x, str) for x in names or ()):
        return None, None
    fresh_ = F(I, b.ignore_index, FALSE) is TRUE

    def f(x):
        if x.op == 'undef':
            return x
        n, d = x.args[0], dict(x.args[1])
        d.setdefault('<index>', tm.rangeT(ZERO, n))
        cols = [d.get(k) for k in (names or [k for k in d if k != '<index>'])]
        if any(c is None for c in cols):
            return UNDEF
        if name == 'sort_values':
            p = tm.app('argsort', cols[0])
            g = lambda c: L.rows(p, lambda k: index(c, k))
        else:
            if name == 'dropna':
                k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
                bad = tm.FALSE
                for c in cols:
                    bad = tm.bor(bad, isnan(index(c, k)))
                m = tm.map_(n, k, tm.bnot(bad))
            else:
                m = first_of_kind(cols, n)
            g = lambda c: L.get_sel(c, [('arr', m)])
        out = [(k, g(c)) for k, c in d.items() if not (k == '<index>' and fresh_)]
        return L.mkdf(length(out[0][1]), out)
    return L.df_hoist(t, f), b.inplace


def row_get(I, row, key):
    k = I.key(key)
    if L.isstr(fz(I, key)) and not isinstance(k, str):
        return unk('row', row.t, row.k)
    if not isinstance(k, str):
        c = const_of(fz(I, key))
        if c is not None and row.t.op == 'df' and row.t.args[2] is NONE:
            cols = row.t.args[1]
            if 0 <= c < len(cols):
                return I.thaw(index(cols[int(c)][1], row.k))
        return unk('row', row.t, row.k)
    c = L.df_col(row.t, k)
    return I.thaw(index(c, row.k))


# ---- construction
@fn('pandas.DataFrame')
def pd_dataframe(I, args, kw):
    b = bind('data index columns', args, kw, ignore=('copy', 'dtype'))
    if 'dtype' in kw and given(kw['dtype']):
        raise Unmodelled('dtype')
    if given(b.index):
        raise Unmodelled('index')
    names = None
    symcols = None
    if given(b.columns):
        names = L.names_of(I, b.columns)
        if names is None:
            symcols = fz(I, b.columns)
            if symcols.op == 'ite':
                raise Unmodelled('columns')
    if not given(b.data):
        return I.alloc('df', L.mkdf(ZERO, [(n, EMPTY) for n in names or []]))
    k = L.okind(I, b.data)
    if k == 'dict':
        d, extra = I.obj(b.data).c
        if extra is not EMPTY:
            raise Unmodelled('dict')
        cols = [(n, fz(I, v)) for n, v in d.items()]
        if names is not None:
            dd = dict(cols)
            if any(n not in dd for n in names):
                raise Unmodelled('columns')
            cols = [(n, dd[n]) for n in names]
        cols = [(n, vec(*c.args) if c.op == 'tup' else c) for n, c in cols]
        ns = [length(c) for _, c in cols if isarr(c)]
        if not ns:
            if not cols:
                return I.alloc('df', L.mkdf(ZERO, []))
            raise Unmodelled('scalars')
        n = ns[0]
        return I.alloc('df', L.mkdf(n, [(nm, c if isarr(c) else full1(n, c)) for nm, c in cols]))
    if k == 'df':
        t = I.obj(b.data).c
        if names is not None:
            return L.df_subscript(I, b.data, b.columns)
        return I.alloc('df', t)
    t = fz(I, b.data)
    if t.op == 'ite' and isarr(t):
        return I.choose(t.args[0], lambda: pd_dataframe(I, [I.thaw(t.args[1])], dict(columns=b.columns)),
                        lambda: pd_dataframe(I, [I.thaw(t.args[2])], dict(columns=b.columns)))
    if t.op == 'tup':
        t = vec(*t.args)
    if not isarr(t):
        raise Unmodelled('data')
    n = length(t)
    if symcols is not None:
        return I.alloc('df', L.mkdf(n, [], mk('dfsym', symcols, n, t)))
    if names is None:
        raise Unmodelled('columns')
    if t is EMPTY:
        return I.alloc('df', L.mkdf(ZERO, [(nm, EMPTY) for nm in names]))
    if rank(t) == 1 and (t.op not in ('map', 'vec') or not is_row(t)):
        if len(names) == 1:
            return I.alloc('df', L.mkdf(n, [(names[0], t)]))
        return I.alloc('df', L.mkdf(n, [(nm, L.rows(t, lambda r, i=i: index(r, num(i)))) for i, nm in enumerate(names)]))
    return I.alloc('df', L.mkdf(n, [(nm, L.rows(t, lambda r, i=i: index(r, num(i)))) for i, nm in enumerate(names)]))


def is_row(t):
    x = t.args[2] if t.op == 'map' else t.args[0]
    return x.op == 'tup' or isarr(x)


@fn('pandas.Series', 'pandas.Index')
def pd_series(I, args, kw):
    b = bind('data index', args, kw, ignore=('name',))
    if given(b.index):
        raise Unmodelled('index')
    t = fz(I, b.data)
    return newarr(I, t)


@fn('pandas.concat')
def pd_concat(I, args, kw):
    b = bind('objs axis ignore_index', args, kw, ignore=('sort', 'copy', 'join'))
    if 'join' in kw:
        raise Unmodelled('join')
    ax = b.axis
    ax = ZERO if ax is None else fz(I, ax)
    ign = F(I, b.ignore_index, FALSE)
    if L.okind(I, b.objs) == 'dict':
        raise Unmodelled('keys')
    tt = fz(I, b.objs)
    if tt.op in ('ite', 'concat') and tt.op != 'unk' and ax in (ZERO, string('index')):
        r = concat_pieces(tt, ign)
        if r.op != 'unk':
            return I.alloc('df', r)
    s = I.seq(b.objs)
    n = const_of(s.n) if s.n is not None else None
    if ax is ONE or ax is string('columns'):
        if n is None:
            raise Unmodelled('axis')
        cols, m = [], None
        for i in range(int(n)):
            v = s.get(num(i))
            t = fz(I, v)
            if t.op != 'df':
                raise Unmodelled('axis')
            if t.args[2] is not NONE:
                raise Unmodelled('axis')
            m = t.args[0] if m is None else m
            cols.extend(t.args[1])
        return I.alloc('df', L.mkdf(m, cols))
    if ax is not ZERO and ax is not string('index'):
        raise Unmodelled('axis')
    if n is not None:
        ts = [fz(I, s.get(num(i))) for i in range(int(n))]
        r = concat_dfs(ts, ign)
    else:
        t = fz(I, b.objs)
        r = concat_sym(t, ign)
    if isarr(r) and r.op != 'df':
        return I.alloc('arr', r)
    return I.alloc('df', r)


def concat_pieces(t, ign):
    """concatenation of a list whose elements are there or not, or of lists one after the other"""
    if t.op == 'ite':
        return ite(t.args[0], concat_pieces(t.args[1], ign), concat_pieces(t.args[2], ign))
    if t is EMPTY or t.op in ('vec', 'tup') and not t.args:
        return UNDEF                        # nothing to concatenate
    if t.op in ('vec', 'tup'):
        return concat_dfs(list(t.args), ign)
    if t.op == 'concat':
        ps = [p for p in t.args if not (p is EMPTY or p.op in ('vec', 'tup') and not p.args)]
        if any(p.op == 'ite' for p in ps):
            i = [p.op for p in ps].index('ite')
            c, x, y = ps[i].args
            return ite(c, concat_pieces(tm.concat(*(ps[:i] + [x] + ps[i+1:])), ign), concat_pieces(tm.concat(*(ps[:i] + [y] + ps[i+1:])), ign))
        ts = []
        for p in ps:
            ts += list(p.args) if p.op in ('vec', 'tup') else [concat_sym(p, ign)]
        if any(x.op == 'unk' for x in ts):
            return unk('concat', t)
        if not ts:
            return UNDEF
        return concat_dfs(ts, ign)
    return concat_sym(t, ign)


def concat_dfs(ts, ign):
    if any(t.op == 'ite' for t in ts):
        return tm._hoist(lambda *x: concat_dfs(list(x), ign), ts)
    if all(isarr(t) and t.op != 'df' for t in ts):
        return concat(*ts)
    ts = [L.as_df(t) if t.op != 'undef' else t for t in ts]
    if any(t.op != 'df' or t.args[2] is not NONE for t in ts):
        return unk('concat', *ts)
    names = [k for k, _ in ts[0].args[1]]
    for t in ts[1:]:
        names += [k for k, _ in t.args[1] if k not in names]
    n = ZERO
    for t in ts:
        n = add(n, t.args[0])
    cols = []
    for k in names:
        ps = []
        for t in ts:
            d = dict(t.args[1])
            ps.append(d[k] if k in d else full1(t.args[0], NAN))
        cols.append((k, concat(*ps)))
    if ign is not TRUE and len(ts) != 1:
        cols.append(('<index>', concat(*[tm.rangeT(ZERO, t.args[0]) for t in ts])))
    return L.mkdf(n, cols)


def framelike(t):
    return t.op == 'df' or (t.op == 'ite' and (framelike(t.args[1]) or framelike(t.args[2])))


def concat_sym(t, ign):
    """concatenation of a symbolic sequence of frames"""
    if t.op == 'ite':
        return tm._hoist(lambda x: concat_sym(x, ign), (t,))
    if t.op == 'concat' or t.op == 'vec':
        return unk('concat', t)
    if t.op == 'map':
        n, g = t.args[0], lambda w: ite(TRUE, tm.open_with(t, w)[0], EMPTY)
        v, (b,) = tm.open_(t)
        pred = TRUE
    elif t.op == 'filt':
        n = t.args[0]
        v, (pred, b) = tm.open_(t)
    else:
        n = length(t)
        v = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        b, pred = index(t, v), TRUE
        if tm.kind(b) != 'df' and b.op != 'df':
            if isarr(b):
                return cmap(n, v, b)
            b = L.as_df(b)
            return unk('concat', t)

    ls = [l for l in tm.leaves(b) if l.op not in ('undef',)]
    if all(isarr(l) and l.op != 'df' for l in ls) and ls:
        return cmap(n, v, ite(pred, b, EMPTY))
    if not ls:
        return UNDEF
    fr = [L.as_df(l) for l in ls]
    if any(f.args[2] is not NONE for f in fr):
        # frames of unknown columns
        return mk('df', mk('nrowsof', mk('concatdf', t)), tuple(), mk('concatdf', t)) if len(fr) > 1 or True and not fr[0].args[1] else \
            concat_known(n, v, pred, b, fr, ign, t)
    return concat_known(n, v, pred, b, fr, ign, t)


def concat_known(n, v, pred, b, fr, ign, t):
    names = []
    for f in fr:
        names += [k for k, _ in f.args[1] if k not in names]

    def colof(f, k):
        f = L.as_df(f)
        d = dict(f.args[1])
        return d[k] if k in d else full1(f.args[0], NAN)
    cols = [(k, cmap(n, v, ite(pred, tm._leafmap(b, lambda l: colof(l, k) if l.op != 'undef' else UNDEF), EMPTY))) for k in names]
    if ign is not TRUE:
        cols.append(('<index>', cmap(n, v, ite(pred, tm._leafmap(b, lambda l: tm.rangeT(ZERO, L.as_df(l).args[0]) if l.op != 'undef' else UNDEF), EMPTY))))
    total = tm.sum_(n, v, ite(pred, tm._leafmap(b, lambda l: L.as_df(l).args[0] if l.op != 'undef' else UNDEF), ZERO))
    return L.mkdf(total, cols)


HARMLESS = {'engine', 'low_memory', 'memory_map'}
SEMOPT = {'skiprows', 'comment', 'header', 'nrows', 'skipfooter', 'na_values', 'quotechar', 'encoding', 'on_bad_lines', 'keep_default_na',
          'na_filter', 'skip_blank_lines', 'quoting', 'thousands', 'decimal', 'dtype', 'index_col', 'skipinitialspace', 'encoding_errors',
          'escapechar', 'colspecs', 'widths', 'parse_dates', 'date_format', 'infer_nrows'}
OPTDEFAULT = {'skiprows': (NONE, ZERO), 'header': (NONE,), 'comment': (NONE,), 'nrows': (NONE,), 'skipfooter': (ZERO,), 'dtype': (NONE,),
              'na_values': (NONE,), 'on_bad_lines': (string('error'),), 'index_col': (NONE,), 'encoding': (NONE, string('utf-8')),
              'quotechar': (string('"'),), 'keep_default_na': (TRUE,), 'na_filter': (TRUE,), 'skip_blank_lines': (TRUE,),
              'skipinitialspace': (FALSE,), 'parse_dates': (NONE, FALSE), 'encoding_errors': (string('strict'),)}


def read_table(I, op, args, kw, sepdefault):
    kw = dict(kw)
    if not args and 'filepath_or_buffer' in kw:
        args = [kw.pop('filepath_or_buffer')]
    if len(args) == 2 and op == 'csv':
        kw['sep'] = args[1]
        args = args[:1]
    if len(args) != 1:
        raise Unmodelled('arguments')
    path = fz(I, args[0])
    if L.okind(I, args[0]) == 'file':
        path = I.obj(args[0]).c['path']
    if L.okind(I, args[0]) == 'sio':
        path = mk('buffer', L2.joinT(string(''), I.obj(args[0]).c))
    sep = kw.pop('delimiter', None)
    if not given(sep):
        sep = kw.pop('sep', None)
    else:
        kw.pop('sep', None)
    opts = []
    if op == 'csv':
        st = F(I, sep, None)
        if st is None or st is NONE:
            st = string(sepdefault)
        if 'delim_whitespace' in kw:
            if fz(I, kw.pop('delim_whitespace')) is TRUE:
                st = string(r'\s+')
        opts.append(('sep', st))
    names = kw.pop('names', None)
    usecols = kw.pop('usecols', None)
    conv = kw.pop('converters', None)
    for k in list(kw):
        if k in HARMLESS:
            kw.pop(k)
        elif k in SEMOPT:
            t = fz(I, kw.pop(k))
            if t in OPTDEFAULT.get(k, ()):
                continue
            opts.append((k, t))
        else:
            raise Unmodelled('keyword ' + k)
    if not given(names):
        raise Unmodelled('names')
    nm = L.names_of(I, names)
    if nm is None or not all(isinstance(x, str) for x in nm):
        raise Unmodelled('names')
    o = mk('opts', tuple(sorted(opts, key=lambda z: z[0])))
    if given(usecols):
        s = I.seq(usecols)
        c = const_of(s.n)
        if c is None:
            raise Unmodelled('usecols')
        us = [fz(I, s.get(num(i))) for i in range(int(c))]
        if all(u.op == 'num' for u in us):
            idx = sorted(set(int(u.args[0]) for u in us))
            if len(idx) == len(nm):
                cols = list(zip(nm, idx))
            elif len(nm) > len(idx):
                cols = [(nm[i], i) for i in idx if i < len(nm)]
            else:
                raise Unmodelled('usecols')
        elif all(u.op == 'str' for u in us):
            sel = {u.args[0] for u in us}
            cols = [(n, i) for i, n in enumerate(nm) if n in sel]
        else:
            raise Unmodelled('usecols')
    else:
        cols = [(n, i) for i, n in enumerate(nm)]
    cv = {}
    if given(conv):
        if L.okind(I, conv) != 'dict' or I.obj(conv).c[1] is not EMPTY:
            raise Unmodelled('converters')
        for k, f in I.obj(conv).c[0].items():
            cv[k if isinstance(k, str) else int(const_of(k))] = f
    I.event('read', op, path)
    out = []
    n = mk('nrows', path, o)
    for name, i in cols:
        f = cv.get(name, cv.get(i))
        if f is None:
            out.append((name, mk(op, path, o, i)))
        else:
            raw = mk(op + 'r', path, o, i)
            r = L2.mapcall(I, f, [I.alloc('arr', raw)])
            out.append((name, fz(I, r)))
    return I.alloc('df', L.mkdf(n, out))


@fn('pandas.read_csv')
def pd_read_csv(I, args, kw):
    return read_table(I, 'csv', args, kw, ',')


@fn('pandas.read_table')
def pd_read_table(I, args, kw):
    return read_table(I, 'csv', args, kw, '\t')


@fn('pandas.read_fwf')
def pd_read_fwf(I, args, kw):
    return read_table(I, 'fwf', args, kw, '')


DATEPARTS = ('year', 'month', 'day', 'hour', 'minute', 'second')


@fn('pandas.to_datetime')
def pd_to_datetime(I, args, kw):
    b = bind('arg errors dayfirst yearfirst utc format exact unit', args, kw, ignore=('cache', 'infer_datetime_format'))
    opts = []
    for k in ('errors', 'dayfirst', 'yearfirst', 'exact', 'unit'):
        if given(b[k]):
            t = fz(I, b[k])
            if (k, t) in (('errors', string('raise')), ('dayfirst', FALSE), ('yearfirst', FALSE), ('exact', TRUE)):
                continue
            opts.append(mk('kw', k, t))
    utc = F(I, b.utc, FALSE)
    if utc is NONE:
        utc = FALSE
    f = F(I, b.format, NONE)
    t = fz(I, b.arg)
    if framelike(t):
        return wrap(I, tm._hoist(lambda x: frame_dates(x, utc, opts), (t,)) if t.op == 'ite' else frame_dates(t, utc, opts))
    if L.okind(I, b.arg) == 'dict':
        raise Unmodelled('dict')

    def one(x):
        if x.op == 'todt' and utc is x.args[1] and not opts and f is NONE:
            return x
        return mk('todt', x, utc, f, *opts)
    return wrap(I, hoistew(one, t))


def hoistew(f, t):
    def g(x):
        if x.op == 'ite':
            return tm._hoist(g, (x,))
        return f(x)
    return ew(g, [t])


def frame_dates(t, utc, opts):
    d = dict(t.args[1]) if t.op == 'df' else {}
    d = {k.rstrip('s') if isinstance(k, str) else k: c for k, c in d.items()}
    if any(k not in d for k in DATEPARTS[:3]) or opts:
        return unk('to_datetime', t)
    cols = [d.get(k) for k in DATEPARTS]
    extra = [k for k in d if k not in DATEPARTS]
    if extra:
        return unk('to_datetime', t)
    n = t.args[0]
    return mapf(n, lambda k: mk('dtparts', utc, *[index(c, k) if c is not None else ZERO for c in cols]))


@fn('pandas.to_numeric')
def pd_to_numeric(I, args, kw):
    b = bind('arg errors downcast', args, kw)
    if given(b.downcast):
        raise Unmodelled('downcast')
    e = F(I, b.errors, string('raise'))
    t = fz(I, b.arg)
    if isarr(t) or e.op == 'str' and e.args[0] == 'coerce':
        if e.op == 'str' and e.args[0] == 'coerce':
            return wrap(I, ew(lambda x: tonum(x, 'coerce'), [t]))
        w = fresh('k', 'num', int=True, lo=Fr(0))
        x = index(t, w)
        bad = FALSE if tm.kind(x) == 'num' else bnot(mk('isnumstr', x))
        if bad is not FALSE:
            I.may_raise(tm.any_(tm.length(t), w, bad), 'ValueError')
        return wrap(I, ew(lambda x: tonum(x, 'raise'), [t]))
    if e.op == 'str' and e.args[0] == 'raise':
        if tm.kind(t) == 'num':
            return t
        I.may_raise(bnot(mk('isnumstr', t)), 'ValueError')
        return mk('tonum', t, string('raise'))
    raise Unmodelled('errors')


def tonum(x, how):
    if x.op == 'ite':
        return tm._hoist(lambda y: tonum(y, how), (x,))
    if x.op in ('nan', 'num'):
        return x
    if tm.kind(x) == 'num':
        return x
    return mk('tonum', x, string(how))


@fn('pandas.Timestamp', 'pandas.Timedelta', 'pandas.date_range', 'pandas.merge')
def pd_ts(I, args, kw):
    raise Unmodelled('Timestamp')


__all__ = ['arr_method', 'arr_attr', 'df_method', 'df_attr', 'row_get', 'Acc', 'acc_method', 'acc_attr', 'np_astype', 'isnan', 'reshape', 'shape']
