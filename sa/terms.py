"""Hash-consed value-graph terms and their normal form.

A term is an operator with arguments; equal terms are one object.  Numbers are
exact rationals, numeric terms are polynomials with rational exponents over
atoms, conditions are ordered decision diagrams, arrays are index functions
(`map`), small vectors (`vec`), concatenations, filters and so on.  All
construction goes through the normalising constructors of this module, so that
two programs that compute the same thing by different arrangements of the same
operations get the same term.  Nothing here evaluates a program.
"""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(20000)

_tab = {}
_n = [0]


class Overflow(Exception):
    pass


class T:
    __slots__ = ('op', 'args', 'id', 'h', 'fs', 'nl')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        _n[0] += 1
        t.id = _n[0]
        h = 0
        fs = None
        for a in _kids(args):
            if a.h > h:
                h = a.h
            if a.fs:
                fs = a.fs if fs is None else (fs if a.fs <= fs else fs | a.fs)
        if op == 'sym':
            fs = frozenset((t,))
        if op in BINDERS:
            h += 1
        t.h, t.fs = h, fs or frozenset()
        t.nl = (args[1].nl + args[2].nl) if op == 'ite' else 1
        _tab[k] = t
    return t


def _kids(args):
    for a in args:
        if type(a) is T:
            yield a
        elif type(a) is tuple:
            yield from _kids(a)


def kids(t):
    return _kids(t.args)


# binders: (n, bv, body...) ; the bound variable is bv(level)
BINDERS = {'map', 'filt', 'cmap', 'sum', 'any', 'first', 'count', 'prod', 'fold', 'foldv', 'rmin', 'rmax', 'last'}


# --------------------------------------------------------------------------
# leaves
# --------------------------------------------------------------------------
def num(x):
    if type(x) is float:
        x = Fr(repr(x))
    return mk('num', Fr(x))


def const_of(t):
    return t.args[0] if t.op == 'num' else None


ZERO, ONE, TWO = mk('num', Fr(0)), mk('num', Fr(1)), mk('num', Fr(2))
TRUE, FALSE, NONE = mk('bool', True), mk('bool', False), mk('none')
NAN, INF = mk('nan'), mk('inf')
PI = mk('pi')
UNDEF = mk('undef')
EMPTY = mk('vec')

SYM = {}     # sym term -> meta dict
_fresh = [0]


def sym(name, kind='num', **meta):
    t = mk('sym', name)
    if t not in SYM:
        meta['kind'] = kind
        SYM[t] = meta
    return t


def fresh(prefix, kind='num', **meta):
    _fresh[0] += 1
    return sym('%s#%d' % (prefix, _fresh[0]), kind, **meta)


def string(s):
    return mk('str', s)


def boolc(b):
    return TRUE if b else FALSE


def unk(tag, *args):
    """A value the analyser does not model; keeps its inputs for dependence."""
    return mk('unk', tag, *args)


def unk_fresh(tag, *args):
    _fresh[0] += 1
    return mk('unk', '%s#%d' % (tag, _fresh[0]), *args)


# --------------------------------------------------------------------------
# kinds, ranks
# --------------------------------------------------------------------------
NUMOPS = {'num', 'poly', 'pi', 'nan', 'inf', 'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'atan2',
          'abs', 'floor', 'mod', 'pow', 'erf', 'erfcinv', 'sum', 'count', 'first', 'len', 'int', 'float',
          'rmin', 'rmax', 'argmin', 'argmax', 'max', 'min', 'factorial', 'prod', 'bv', 'round', 'find', 'ord',
          'timestamp', 'searchsorted', 'last', 'sign', 'bit', 'iunit', 'ceil', 'dtfield', 'tdfield', 'log10', 'grp'}
STROPS = {'str', 'cat', 'lstrip', 'rstrip', 'strip', 'sslice', 'fmt', 'join', 'replace', 'upper', 'lower', 'resub',
          'group', 'strof', 'readall', 'decode', 'binstr', 'readline', 'part', 'pathjoin', 'rempre', 'chr', 'dirname', 'zfill', 'ljust', 'rjust'}
BOOLOPS = {'bool', 'lt0', 'le0', 'eq0', 'eq', 'in', 'any', 'startswith', 'endswith', 'isnan', 'isfloat', 'isint_t',
           'truthy', 'raises', 'istype', 'matches', 'isnone', 'hasattr', 'isdigit', 'callable'}
ARROPS = {'vec', 'map', 'filt', 'concat', 'cmap', 'split', 'lines', 'findall', 'rev', 'lfilter', 'fft', 'ifft', 'fft2',
          'ifft2', 'convolve', 'unique', 'uniqidx', 'interp', 'reshape', 'firwin', 'csv', 'groups', 'sort', 'argsort',
          'chars', 'gauss', 'readlines', 'fwf', 'keysof'}
# operator -> (rank of result) when it is not derivable
RANK = {'lfilter': lambda a: rank(a[2]), 'fft': lambda a: rank(a[0]), 'ifft': lambda a: rank(a[0]),
        'fft2': lambda a: 2, 'ifft2': lambda a: 2, 'convolve': lambda a: 1, 'unique': lambda a: 1,
        'uniqidx': lambda a: 1, 'interp': lambda a: rank(a[0]), 'reshape': lambda a: len(a) - 1, 'firwin': lambda a: 1,
        'csv': lambda a: 1, 'fwf': lambda a: 1, 'split': lambda a: 1, 'findall': lambda a: 1, 'groups': lambda a: 1, 'lines': lambda a: 1,
        'sort': lambda a: 1, 'argsort': lambda a: 1, 'chars': lambda a: 1, 'readlines': lambda a: 1, 'keysof': lambda a: 1}
LEN = {'lfilter': lambda a: length(a[2]), 'fft': lambda a: length(a[0]), 'ifft': lambda a: length(a[0]),
       'fft2': lambda a: length(a[0]), 'ifft2': lambda a: length(a[0]), 'convolve': lambda a: length(a[0]),
       'interp': lambda a: length(a[0]), 'reshape': lambda a: a[1], 'firwin': lambda a: a[0],
       'sort': lambda a: length(a[0]), 'argsort': lambda a: length(a[0]),
       'uniqidx': lambda a: mk('nunique', a[0]), 'unique': lambda a: mk('nunique', a[0])}
INNERLEN = {'fft2': lambda a: length(index(a[0], ZERO)), 'ifft2': lambda a: length(index(a[0], ZERO)),
            'reshape': lambda a: a[2] if len(a) > 2 else None}


def kind(t):
    op = t.op
    if op in NUMOPS or op == 'nunique':
        return 'num'
    if op in STROPS:
        return 'str'
    if op in BOOLOPS:
        return 'bool'
    if op in ARROPS:
        return 'arr'
    if op == 'sym':
        return SYM[t]['kind']
    if op == 'ite':
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        if t.args[1].op in ('undef', 'nan'):
            return b
        if t.args[2].op in ('undef', 'nan'):
            return a
        return 'any'
    if op == 'none':
        return 'none'
    if op == 'index':
        return elemkind(t.args[0])
    if op in ('datetime', 'strptime', 'fromtimestamp', 'todt'):
        return 'dt'
    if op == 'df':
        return 'df'
    if op == 'tup':
        return 'tup'
    if op == 'fold':
        return kind(t.args[2])
    return 'any'


ELEM = {'split': 'str', 'lines': 'str', 'findall': 'str', 'groups': 'str', 'chars': 'str', 'lfilter': 'num', 'fft': 'num', 'ifft': 'num',
        'convolve': 'num', 'unique': 'num', 'uniqidx': 'num', 'interp': 'num', 'firwin': 'num', 'sort': 'num',
        'argsort': 'num', 'csv': 'any', 'readlines': 'str', 'fft2': 'arr', 'ifft2': 'arr', 'keysof': 'str'}


def elemkind(a):
    op = a.op
    if op == 'findall':
        return 'any'
    if op in ELEM:
        return ELEM[op]
    if op == 'reshape':
        return 'arr' if len(a.args) > 2 else 'num'
    if op == 'map':
        return kind(a.args[2])
    if op == 'filt':
        return kind(a.args[3])
    if op in ('vec',):
        return kind(a.args[0]) if a.args else 'any'
    if op == 'concat':
        return elemkind(a.args[0])
    if op in ('cmap', 'fold'):
        return elemkind(a.args[2])
    if op == 'sym':
        m = SYM[a]
        if m['kind'] == 'arr':
            if m.get('rank', 1) > 1:
                return 'arr'
            return m.get('elem', 'num')
        if m['kind'] == 'str':
            return 'str'
        return 'any'
    if op == 'ite':
        x, y = elemkind(a.args[1]), elemkind(a.args[2])
        return x if x == y else 'any'
    if op == 'index':
        # rows of a symbolic matrix
        b = a
        d = 0
        while b.op == 'index':
            b = b.args[0]
            d += 1
        r = rank(b)
        if r is not None and b.op in ('sym', 'fft2', 'ifft2', 'reshape'):
            return 'arr' if r - d > 1 else (SYM[b].get('elem', 'num') if b.op == 'sym' else 'num')
        if b.op == 'findall':
            return 'str'
        return 'any'
    return 'any'


def rank(t):
    op = t.op
    if op == 'map':
        r = rank(t.args[2])
        return None if r is None else 1 + r
    if op == 'filt':
        r = rank(t.args[3])
        return None if r is None else 1 + r
    if op == 'vec':
        if not t.args:
            return 1
        r = rank(t.args[0])
        return None if r is None else 1 + r
    if op == 'concat':
        return max((rank(x) or 1) for x in t.args)
    if op in ('cmap', 'fold'):
        return rank(t.args[2])
    if op == 'index':
        r = rank(t.args[0])
        return None if r is None else max(r - 1, 0)
    if op in RANK:
        return RANK[op](t.args)
    if op == 'sym':
        m = SYM[t]
        if m['kind'] == 'arr':
            return m.get('rank', 1)
        return 0
    if op == 'ite':
        return rank(t.args[1]) if t.args[1].op not in ('undef', 'nan') else rank(t.args[2])
    if op == 'df':
        return 2
    return 0


def isarr(t):
    return (rank(t) or 0) > 0


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
# dict: monomial -> coeff ; monomial: tuple of (atom, exponent) sorted by atom id
def P(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, Fr(1)),): Fr(1)}


def fromP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=_mkey)))


def _mkey(mc):
    return tuple((-1 if a.op == 'num' else a.id, e) for a, e in mc[0])


def _padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if not r[m]:
            del r[m]
    return r


MAXTERMS = 200


def group(d):
    """a long sum as one opaque factor, so that products stay small"""
    if len(d) <= 12:
        return d
    c, m, base = content(fromP(d))
    if base.op != 'poly':
        return d
    r = dict(m)
    r[mk('grp', base)] = Fr(1)
    return {tuple(sorted(r.items(), key=lambda x: x[0].id)): c}


def _pmul(a, b):
    if len(a) * len(b) > MAXTERMS:
        a, b = group(a), group(b)
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in _mmul(m1, m2).items():
                r[m] = r.get(m, 0) + c * c1 * c2
    return {m: c for m, c in r.items() if c}


_mm = {}


def _mmul(m1, m2):
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        r = _mm[k] = _mnorm(d)
    return r


def _mnorm(d):
    """monomial given as dict atom->exp -> polynomial dict in normal form"""
    coeff = Fr(1)
    out = {}
    extra = None   # polynomial factors to multiply in
    expsum = None
    for a, e in d.items():
        if e == 0:
            continue
        op = a.op
        if op == 'num':       # prime root
            f = e.numerator // e.denominator
            coeff *= a.args[0] ** f
            e -= f
            if e:
                out[a] = e
        elif op == 'exp':
            x = pscale(a.args[0], e)
            expsum = x if expsum is None else add(expsum, x)
        elif op == 'iunit' and e.denominator == 1:
            k = int(e) % 4
            if k >= 2:
                coeff = -coeff
            if k % 2:
                out[a] = Fr(1)
        elif op == 'abs' and e.denominator == 1 and e % 2 == 0:
            extra = _pmul(extra or {(): Fr(1)}, P(power(a.args[0], e)))
        elif op == 'sin' and e.denominator == 1 and e >= 2:
            h, r = divmod(int(e), 2)
            c = mk('cos', a.args[0])
            q = {(): Fr(1), ((c, Fr(2)),): Fr(-1)}
            for _ in range(h):
                extra = _pmul(extra or {(): Fr(1)}, q)
            if r:
                out[a] = out.get(a, 0) + 1
        elif op == 'poly' and e >= 1:
            k = e.numerator // e.denominator
            n = len(a.args[0])
            if n ** k <= 64:
                q = P(a)
                for _ in range(k):
                    extra = _pmul(extra or {(): Fr(1)}, q)
                e -= k
                if e:
                    out[a] = e
            else:
                out[a] = e
        else:
            out[a] = e
    if expsum is not None and expsum is not ZERO:
        ea = exp(expsum)
        if ea.op == 'exp':
            out[ea] = Fr(1)
        else:
            extra = _pmul(extra or {(): Fr(1)}, P(ea))
    m = tuple(sorted(out.items(), key=lambda x: x[0].id))
    r = {m: coeff}
    if extra is not None:
        r = _pmul(r, extra)
    return r


def pscale(t, c):
    return fromP({m: v * c for m, v in P(t).items()})


def _isnum(t):
    return t.op in ('num', 'poly') or kind(t) in ('num', 'any', 'bool') or t.op in ('index', 'sym', 'unk', 'dfcol', 'nan')


def _hoist(f, args):
    """f applied to args, with conditionals pulled out"""
    c = None
    n = 1
    for a in args:
        if type(a) is T and a.op == 'ite':
            n *= a.nl
            if c is None or a.args[0].id < c.id:
                c = a.args[0]
    if c is None:
        return None
    if n > 3000:
        raise Overflow('too many cases')
    hi = [restrict(a, c, True) if type(a) is T else a for a in args]
    lo = [restrict(a, c, False) if type(a) is T else a for a in args]
    return ite(c, f(*hi), f(*lo))


def _spine(a):
    return a.op == 'ite'


def nanprop(*a):
    return any(x.op == 'nan' for x in a)


def add(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return _hoist(add, (a, b))
    if a.op == 'undef' or b.op == 'undef':
        return UNDEF
    if nanprop(a, b):
        return NAN
    if a.op == 'bool':
        a = ONE if a is TRUE else ZERO
    if b.op == 'bool':
        b = ONE if b is TRUE else ZERO
    return fromP(_padd(P(a), P(b)))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return _hoist(mul, (a, b))
    if a.op == 'undef' or b.op == 'undef':
        return UNDEF
    if nanprop(a, b):
        return NAN
    if a.op == 'bool':
        a = ONE if a is TRUE else ZERO
    if b.op == 'bool':
        b = ONE if b is TRUE else ZERO
    if a.op == 'num' and not (b.op == 'poly' and False):
        if a.args[0] == 1:
            return b
        return pscale(b, a.args[0])
    if b.op == 'num':
        return pscale(a, b.args[0])
    return fromP(_pmul(P(a), P(b)))


def addn(*xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def muln(*xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def div(a, b):
    return mul(a, power(b, Fr(-1)))


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _numpow(c, e):
    """Fraction c > 0 to fractional e -> poly dict with one monomial"""
    d = {}
    for p, k in _primes(c.numerator).items():
        d[num(p)] = d.get(num(p), 0) + k * e
    for p, k in _primes(c.denominator).items():
        d[num(p)] = d.get(num(p), 0) - k * e
    return _mnorm(d)


def nonneg(t):
    if t.op == 'sym':
        m = SYM[t]
        return bool(m.get('nonneg') or (m.get('lo') is not None and m['lo'] >= 0))
    return t.op in ('bv', 'len', 'count', 'abs', 'exp', 'pi', 'first', 'nunique', 'factorial') or \
        (t.op == 'num' and t.args[0] >= 0)


def power(b, e):
    """b ** e with e a Fraction"""
    e = Fr(e)
    if b.op == 'ite':
        return _hoist(lambda x: power(x, e), (b,))
    if b.op == 'undef':
        return UNDEF
    if b.op == 'nan':
        return NAN
    if e == 0:
        return ONE
    if e == 1:
        return b
    if b.op == 'bool':
        b = ONE if b is TRUE else ZERO
    d = P(b)
    if not d:
        return ZERO if e > 0 else mk('inf')
    if len(d) == 1:
        (m, c), = d.items()
        r = {(): Fr(1)}
        if e.denominator == 1:
            r = {(): c ** int(e)}
        elif c > 0:
            r = _numpow(c, e)
        else:
            return fromP({((b if len(m) or True else b, e),): Fr(1)}) if not m else \
                mul(fromP(_numpow(-c, e)), fromP({((fromP({m: Fr(-1)}), e),): Fr(1)}))
        dd = {}
        for a, x in m:
            ne = x * e
            if x.denominator == 1 and x % 2 == 0 and not (ne.denominator == 1 and ne % 2 == 0) and not nonneg(a):
                a = absT(a)
                if a.op == 'poly':
                    a2 = P(a)
                    r = _pmul(r, P(power(a, ne)))
                    continue
            dd[a] = dd.get(a, 0) + ne
        return fromP(_pmul(r, _mnorm(dd)))
    # a sum
    if e.denominator == 1 and e > 0:
        if len(d) ** int(e) <= 64:
            r = d
            for _ in range(int(e) - 1):
                r = _pmul(r, d)
            return fromP(r)
        return mk('poly', ((((b, e),), Fr(1)),))
    c, m, base = content(b, signed=(e.denominator == 1))
    r = {(): Fr(1)}
    if c != 1:
        r = {(): c ** int(e)} if e.denominator == 1 else _numpow(c, e)
    if m:
        r = _pmul(r, P(power(fromP({m: Fr(1)}), e)))
    if base.op != 'poly' or len(base.args[0]) == 1:
        return fromP(_pmul(r, P(power(base, e))))
    return fromP(_pmul(r, _mnorm({base: e})))


def content(t, signed=True):
    """t = c * m * base"""
    d = P(t)
    items = sorted(d.items(), key=_mkey)
    lead = items[0][1]
    c = lead if signed else abs(lead)
    com = dict(items[0][0])
    for m, _ in items[1:]:
        mm = dict(m)
        for a in list(com):
            if a not in mm:
                del com[a]
            else:
                com[a] = min(com[a], mm[a])
        if not com:
            break
    com = {a: e for a, e in com.items() if e}
    # do not pull bare sums out
    m = tuple(sorted(com.items(), key=lambda x: x[0].id))
    inv = {a: -e for a, e in com.items()}
    if com:
        r = {}
        for mm, cc in d.items():
            x = dict(mm)
            for a, e in inv.items():
                x[a] = x.get(a, 0) + e
                if not x[a]:
                    del x[a]
            k = tuple(sorted(x.items(), key=lambda x: x[0].id))
            r[k] = r.get(k, 0) + cc / c
        base = fromP(r)
    else:
        base = fromP({mm: cc / c for mm, cc in d.items()})
    if base.op == 'poly' and not com:
        # the leading coefficient may have changed place only if com changed it
        pass
    elif base.op == 'poly':
        l2 = sorted(P(base).items(), key=_mkey)[0][1]
        if (signed and l2 != 1) or (not signed and abs(l2) != 1):
            k = l2 if signed else abs(l2)
            base = fromP({mm: cc / k for mm, cc in P(base).items()})
            c *= k
    return c, m, base


def powT(b, e):
    """b ** e for terms"""
    if e.op == 'ite' or b.op == 'ite':
        return _hoist(powT, (b, e))
    if e.op == 'num':
        return power(b, e.args[0])
    if b.op == 'undef' or e.op == 'undef':
        return UNDEF
    if b is ONE:
        return ONE
    if b is mk('expo'):
        return exp(e)
    # integer parts of the exponent
    d = P(e)
    k = d.get((), Fr(0))
    if k and k.denominator == 1:
        rest = fromP({m: c for m, c in d.items() if m})
        return mul(powT(b, rest), power(b, k))
    if b.op == 'exp':
        return exp(mul(b.args[0], e))
    if b.op == 'poly' and len(b.args[0]) == 1:
        (m, c), = b.args[0]
        if len(m) > 1 or c != 1:
            r = ONE if c == 1 else mk('pow', num(c), e)
            for a, x in m:
                r = mul(r, powT(a, mul(num(x), e)))
            return r
    return mk('pow', b, e)


# --------------------------------------------------------------------------
# elementary functions (scalar)
# --------------------------------------------------------------------------
def _lead_neg(t):
    d = P(t)
    if not d:
        return False
    return sorted(d.items(), key=_mkey)[0][1] < 0


def _pi_multiple(t):
    d = P(t)
    if not d:
        return Fr(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ((PI, Fr(1)),):
            return c
    return None


def fn(op, x):
    return FN[op](x)


def _h1(f):
    def g(x):
        if x.op == 'ite':
            return _hoist(g, (x,))
        if x.op == 'nan':
            return NAN
        if x.op == 'undef':
            return UNDEF
        return f(x)
    return g


@_h1
def sin(x):
    k = _pi_multiple(x)
    if k is not None and (2 * k).denominator == 1:
        return num([0, 1, 0, -1][int(2 * k) % 4])
    if _lead_neg(x):
        return neg(sin(neg(x)))
    if x.op == 'asin':
        return x.args[0]
    if x.op == 'acos':
        return power(sub(ONE, power(x.args[0], 2)), Fr(1, 2))
    if x.op == 'atan':
        y = x.args[0]
        return div(y, power(add(ONE, power(y, 2)), Fr(1, 2)))
    if x.op == 'atan2':
        y, z = x.args
        return div(y, power(add(power(y, 2), power(z, 2)), Fr(1, 2)))
    return mk('sin', x)


@_h1
def cos(x):
    k = _pi_multiple(x)
    if k is not None and (2 * k).denominator == 1:
        return num([1, 0, -1, 0][int(2 * k) % 4])
    if _lead_neg(x):
        return cos(neg(x))
    if x.op == 'acos':
        return x.args[0]
    if x.op == 'asin':
        return power(sub(ONE, power(x.args[0], 2)), Fr(1, 2))
    if x.op == 'atan':
        y = x.args[0]
        return power(add(ONE, power(y, 2)), Fr(-1, 2))
    if x.op == 'atan2':
        y, z = x.args
        return div(z, power(add(power(y, 2), power(z, 2)), Fr(1, 2)))
    return mk('cos', x)


@_h1
def tan(x):
    if x.op == 'atan':
        return x.args[0]
    return div(sin(x), cos(x))


@_h1
def exp(x):
    if x is ZERO:
        return ONE
    if x.op == 'log':
        return x.args[0]
    return mk('exp', x)


def _odd(name, special=None):
    @_h1
    def g(x):
        if x is ZERO:
            return ZERO
        if _lead_neg(x):
            return neg(g(neg(x)))
        if special:
            r = special(x)
            if r is not None:
                return r
        return mk(name, x)
    return g


atan = _odd('atan')
asin = _odd('asin')
erf = _odd('erf')
sign = _odd('sign')


@_h1
def acos(x):
    return mk('acos', x)


@_h1
def log(x):
    if x is ONE:
        return ZERO
    if x.op == 'exp':
        return x.args[0]
    return mk('log', x)


def atan2(y, x):
    if y.op == 'ite' or x.op == 'ite':
        return _hoist(atan2, (y, x))
    if nanprop(y, x):
        return NAN
    # common positive rational factor
    return mk('atan2', y, x)


@_h1
def absT(x):
    if x.op == 'num':
        return num(abs(x.args[0]))
    if nonneg(x):
        return x
    if x.op == 'abs':
        return x
    lo, hi = interval(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return neg(x)
    d = P(x)
    if len(d) == 1:
        (m, c), = d.items()
        r = num(abs(c))
        for a, e in m:
            if a.op == 'poly' or nonneg(a) or e.denominator != 1 or (e % 2 == 0):
                if a.op == 'poly' and e.denominator == 1 and e % 2:
                    r = mul(r, power(mk('abs', a), e))
                else:
                    r = mul(r, power(a, e))
            else:
                r = mul(r, power(mk('abs', a), e))
        return r
    if _lead_neg(x):
        return absT(neg(x))
    if x.op == 'poly':
        c = abs(sorted(d.items(), key=_mkey)[0][1])
        if c != 1:
            return mul(num(c), absT(pscale(x, 1 / c)))
    return mk('abs', x)


def is_int(t):
    op = t.op
    if op == 'num':
        return t.args[0].denominator == 1
    if op in ('len', 'count', 'first', 'int', 'bv', 'floor', 'argmin', 'argmax', 'nunique', 'ord', 'find', 'searchsorted', 'factorial', 'last', 'round', 'ceil', 'bit'):
        return True
    if op == 'sym':
        return bool(SYM[t].get('int'))
    if op in ('doymonth', 'doyday'):
        return True
    if op == 'mod':
        return is_int(t.args[0]) and is_int(t.args[1])
    if op == 'abs':
        return is_int(t.args[0])
    if op == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)
                   for m, c in t.args[0])
    if op == 'index':
        a = t.args[0]
        if a.op == 'sym':
            return bool(SYM[a].get('elemint'))
        if a.op in ('uniqidx', 'argsort'):
            return True
        return elems_int(a)
    if op == 'ite':
        return is_int(t.args[1]) and is_int(t.args[2])
    if op in ('rmin', 'rmax'):
        return is_int(t.args[2])
    if op in ('min', 'max'):
        return all(is_int(a) for a in t.args[0])
    return False


def elems_int(a):
    """every element of the array is an integer"""
    op = a.op
    if op == 'sym':
        return bool(SYM[a].get('elemint'))
    if op in ('uniqidx', 'argsort'):
        return True
    if op == 'filt':
        return is_int(a.args[3])
    if op == 'map':
        return is_int(a.args[-1])
    if op == 'vec':
        return all(is_int(x) for x in a.args)
    if op == 'concat':
        return all(elems_int(x) for x in (a.args[0] if len(a.args) == 1 and type(a.args[0]) is tuple else a.args))
    if op == 'ite':
        return elems_int(a.args[1]) and elems_int(a.args[2])
    return False


@_h1
def floor(x):
    if x.op == 'num':
        return num(x.args[0].numerator // x.args[0].denominator)
    if is_int(x):
        return x
    # pull integer parts out
    d = P(x)
    ip = {m: c for m, c in d.items() if c.denominator == 1 and all(e.denominator == 1 and e > 0 and is_int(a) for a, e in m)}
    k = d.get((), Fr(0))
    fl = Fr(k.numerator // k.denominator)
    if () in d:
        ip[()] = fl
        if not fl:
            del ip[()]
    if ip:
        rest = fromP(_padd(d, {m: -c for m, c in ip.items()}))
        return add(fromP(ip), mk('floor', rest) if rest is not ZERO else ZERO)
    return mk('floor', x)


@_h1
def ceil(x):
    return neg(floor(neg(x)))


@_h1
def toint(x):
    """int(x) for a number"""
    if is_int(x):
        return x
    if x.op == 'num':
        return num(int(x.args[0]))
    if kind(x) == 'num':
        lo, hi = interval(x)
        if lo is not None and lo >= 0:
            return floor(x)
        if x.op == 'floor':
            return x
    if x is TRUE:
        return ONE
    if x is FALSE:
        return ZERO
    if x.op == 'str':
        try:
            return num(int(x.args[0]))
        except ValueError:
            pass
    return mk('int', x)


@_h1
def tofloat(x):
    if kind(x) == 'num':
        return x
    if x.op == 'str':
        try:
            return num(Fr(x.args[0].strip()))
        except (ValueError, ZeroDivisionError):
            pass
    if x.op == 'index' and kind(x) == 'num':
        return x
    if x.op == 'sym' and SYM[x]['kind'] in ('num',):
        return x
    return mk('float', x)


def mod(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return _hoist(mod, (a, b))
    if nanprop(a, b):
        return NAN
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if b.op == 'num' and is_int(a) and b.args[0].denominator == 1:
        k = b.args[0]
        if k == 1:
            return ZERO
        if k > 0:
            d = {m: (c % k) for m, c in P(a).items()}
            a = fromP(d)
            if a.op == 'num':
                return num(a.args[0] % k)
            lo, hi = interval(a)
            if lo is not None and lo >= 0 and hi is not None and hi < k:
                return a
    if a is b:
        return ZERO
    return mk('mod', a, b)


def floordiv(a, b):
    if a.op == 'ite' or b.op == 'ite':
        return _hoist(floordiv, (a, b))
    return floor(div(a, b))


def minmax(op, xs):
    """min/max of a list of scalar terms"""
    xs = list(xs)
    for i, x in enumerate(xs):
        if x.op == 'ite':
            return _hoist(lambda *a: minmax(op, a), xs)
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.args[0])
        else:
            out.append(x)
    keep = []
    for x in sorted(set(out), key=lambda x: x.id):
        dom = False
        for y in out:
            if y is x:
                continue
            lo, hi = interval(sub(x, y))
            if op == 'min' and lo is not None and lo >= 0 and not (lo == 0 and hi == 0 and y.id > x.id):
                dom = True
            if op == 'max' and hi is not None and hi <= 0 and not (lo == 0 and hi == 0 and y.id > x.id):
                dom = True
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk(op, tuple(keep))


FN = {'sin': sin, 'cos': cos, 'tan': tan, 'exp': exp, 'log': log, 'atan': atan, 'asin': asin, 'acos': acos, 'abs': absT,
      'floor': floor, 'ceil': ceil, 'erf': erf, 'sign': sign, 'toint': toint, 'tofloat': tofloat,
      'sqrt': lambda x: power(x, Fr(1, 2))}


# --------------------------------------------------------------------------
# intervals of numeric terms (constants; lengths and bound variables >= 0)
# --------------------------------------------------------------------------
def _atom_iv(a):
    if a.op == 'index' and a.args[0].op == 'sym' and 'elemlo' in SYM[a.args[0]]:
        m = SYM[a.args[0]]
        return m['elemlo'], m['elemhi']
    op = a.op
    if op == 'sym':
        m = SYM[a]
        return m.get('lo'), m.get('hi')
    if op in ('len', 'count', 'bv', 'first', 'nunique', 'abs', 'ord', 'argmin', 'argmax', 'searchsorted', 'last'):
        return Fr(0), None
    if op in ('exp',):
        return Fr(0), None
    if op == 'pi':
        return Fr(314159, 100000), Fr(314160, 100000)
    if op in ('sin', 'cos'):
        return Fr(-1), Fr(1)
    if op == 'factorial':
        return Fr(1), None
    if op == 'dtfield':
        return {'hour': (Fr(0), Fr(23)), 'minute': (Fr(0), Fr(59)), 'second': (Fr(0), Fr(59)), 'microsecond': (Fr(0), Fr(999999)),
                'month': (Fr(1), Fr(12)), 'day': (Fr(1), Fr(31))}.get(a.args[0], (None, None))
    if op == 'tdfield':
        return {'seconds': (Fr(0), Fr(86399)), 'microseconds': (Fr(0), Fr(999999))}.get(a.args[0], (None, None))
    if op == 'mod' and a.args[1].op == 'num' and a.args[1].args[0] > 0:
        return Fr(0), a.args[1].args[0] - (1 if is_int(a) else 0)
    if op == 'bit':
        return Fr(0), Fr(1)
    if op == 'num':
        return a.args[0], a.args[0]
    if op == 'floor':
        lo, hi = interval(a.args[0])
        return (None if lo is None else Fr(lo.numerator // lo.denominator)), (None if hi is None else Fr(hi.numerator // hi.denominator))
    if op in ('min', 'max'):
        ivs = [interval(x) for x in a.args[0]]
        if op == 'min':
            los = [x[0] for x in ivs]
            his = [x[1] for x in ivs if x[1] is not None]
            return (None if any(x is None for x in los) else min(los)), (min(his) if his else None)
        los = [x[0] for x in ivs if x[0] is not None]
        his = [x[1] for x in ivs]
        return (max(los) if los else None), (None if any(x is None for x in his) else max(his))
    if op == 'poly':
        return interval(a)
    if op == 'index' and a.args[0].op == 'filt':
        return interval(a.args[0].args[3]) if False else (Fr(0), None) if is_int(a) and a.args[0].args[3].op == 'bv' else (None, None)
    return None, None


_iv = {}


def interval(t, depth=0):
    if t.op == 'num':
        return t.args[0], t.args[0]
    k = t
    if k in _iv:
        return _iv[k]
    r = _interval(t, depth)
    _iv[k] = r
    return r


def _interval(t, depth):
    d = P(t)
    # replace bounded symbols by their symbolic bounds when that helps
    lo = _bound(d, -1, depth)
    hi = _bound(d, +1, depth)
    return lo, hi


def _bound(d, side, depth):
    """constant bound of polynomial d from above (side=1) or below (-1)"""
    b = _bound0(d, side)
    if b is not None or depth > 4:
        return b
    # substitute symbols having a symbolic upper bound
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym':
            meta = SYM[m[0][0]]
            ub = meta.get('ub')       # exclusive, integer symbol
            if ub is not None and (c > 0) == (side > 0):
                nd = {k: v for k, v in d.items() if k != m}
                nd = _padd(nd, P(pscale(sub(ub, ONE), c)))
                b = _bound(nd, side, depth + 1)
                if b is not None:
                    return b
    return None


def _bound0(d, side):
    tot = Fr(0)
    for m, c in d.items():
        lo, hi = Fr(1), Fr(1)
        ok = True
        for a, e in m:
            if e.denominator != 1:
                if e > 0:
                    alo, ahi = _atom_iv(a)
                    al, ah = Fr(0), None
                    if ahi is not None and alo is not None and alo >= 0:
                        ah = None
                    lo, hi = _ivmul((lo, hi), (al, ah))
                    continue
                return None
            alo, ahi = _atom_iv(a)
            if e < 0:
                if alo is not None and alo > 0:
                    alo, ahi = (None if ahi is None else 1 / ahi), 1 / alo
                    if alo is None:
                        alo = Fr(0)
                else:
                    if alo is not None and alo >= 0:
                        alo, ahi = Fr(0), None
                    else:
                        return None
                e = -e
            if e % 2 == 0:
                x = _ivmul((alo, ahi), (alo, ahi))
                x = (max(Fr(0), x[0]) if x[0] is not None else Fr(0), x[1])
                alo, ahi = x
                e = e // 2
            for _ in range(int(e)):
                lo, hi = _ivmul((lo, hi), (alo, ahi))
                if lo is None and hi is None:
                    return None
        if c < 0:
            lo, hi = hi, lo
        v = hi if side > 0 else lo
        if v is None:
            return None
        tot += c * v
    return tot


def _ivmul(a, b):
    (al, ah), (bl, bh) = a, b
    if al is not None and al >= 0 and bl is not None and bl >= 0:
        return al * bl, (None if ah is None or bh is None else ah * bh)
    if None in (al, ah, bl, bh):
        return None, None
    v = [al * bl, al * bh, ah * bl, ah * bh]
    return min(v), max(v)


# --------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------
def is_bool(t):
    return t.op in BOOLOPS or (t.op == 'ite' and is_bool(t.args[1]) and is_bool(t.args[2]))


def _orient(p):
    """p -> (positive scale) leading coefficient +-1"""
    d = P(p)
    items = sorted(((m, c) for m, c in d.items() if m), key=_mkey)
    c = abs(items[0][1])
    if is_int(p):
        from math import gcd
        g = 0
        for m, cc in items:
            g = gcd(g, abs(int(cc)))
        c = Fr(g)
    if c != 1:
        d = {m: v / c for m, v in d.items()}
    return d, items[0][1] > 0


def _count_plus(p):
    """(count term, sign, constant) of a polynomial that is one count plus a constant"""
    if p.op == 'count':
        return p, 1, 0
    if p.op != 'poly' or len(p.args[0]) > 2:
        return None
    k, hit = 0, None
    for m, c in p.args[0]:
        if not m:
            k = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'count' and abs(c) == 1:
            hit = (m[0][0], c)
        else:
            return None
    return hit and hit + (k,)


def some(cnt):
    """a count is positive"""
    v, (pred,) = open_(cnt)
    return any_(cnt.args[0], v, pred)


def lt0(p):
    if p.op == 'ite':
        return _hoist(lt0, (p,))
    q = _count_plus(p)
    if q and q[1:] == (1, -1):
        return bnot(some(q[0]))
    if q and q[1:] == (-1, 0):
        return some(q[0])
    if p.op in ('nan', 'undef'):
        return FALSE
    lo, hi = interval(p)
    if hi is not None and hi < 0:
        return TRUE
    if lo is not None and lo >= 0:
        return FALSE
    intp = is_int(p)
    d, pos = _orient(p)
    if intp:
        # integer: sum m + k < 0 ; make k integral
        k = d.get((), Fr(0))
        d[()] = Fr(-((-k.numerator) // k.denominator))  # ceil(k)
        if not d[()]:
            del d[()]
        if not pos:
            # p<0 with negative lead: q=-p>0 <=> not(q-1<0)
            q = {m: -c for m, c in d.items()}
            q[()] = q.get((), Fr(0)) - 1
            if not q[()]:
                del q[()]
            return bnot(mk('lt0', fromP(q)))
        return mk('lt0', fromP(d))
    if not pos:
        q = {m: -c for m, c in d.items()}
        return bnot(mk('le0', fromP(q)))
    return mk('lt0', fromP(d))


def le0(p):
    if p.op == 'ite':
        return _hoist(le0, (p,))
    if p.op in ('nan', 'undef'):
        return FALSE
    if is_int(p):
        return lt0(sub(p, ONE))
    lo, hi = interval(p)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    d, pos = _orient(p)
    if not pos:
        return bnot(mk('lt0', fromP({m: -c for m, c in d.items()})))
    return mk('le0', fromP(d))


def eq0(p):
    if p.op == 'ite':
        return _hoist(eq0, (p,))
    q = _count_plus(p)
    if q and q[2] == 0:
        return bnot(some(q[0]))
    if p.op in ('nan', 'undef'):
        return FALSE
    if p.op == 'num':
        return boolc(p.args[0] == 0)
    lo, hi = interval(p)
    if (hi is not None and hi < 0) or (lo is not None and lo > 0):
        return FALSE
    # x + const where x integral etc.
    d, pos = _orient(p)
    k = d.get((), Fr(0))
    if is_int(fromP({m: c for m, c in d.items() if m})) and k.denominator != 1:
        return FALSE
    if len(d) == 1:
        (m, c), = d.items()
        # product of atoms is zero iff one of them is; sqrt etc
        r = FALSE
        if len(m) > 1 or m[0][1] != 1:
            for a, e in m:
                if e > 0:
                    r = bor(r, eq0(a))
            return r
        if m[0][0].op == 'abs':
            return eq0(m[0][0].args[0])
    if not pos:
        d = {m: -c for m, c in d.items()}
    # mod(i,2)-1 == 0
    f = fromP(d)
    if len(d) == 2 and k:
        (m, c), = [(m, c) for m, c in d.items() if m]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and m[0][0].args[1] is TWO and is_int(m[0][0].args[0]) \
                and d.get((), 0) == -c:
            return bnot(mk('eq0', m[0][0]))
    return mk('eq0', f)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


CONSTS = {'num', 'str', 'bool', 'none', 'nan'}


def eq(a, b):
    if a is b:
        return FALSE if a.op == 'nan' else TRUE
    if a.op == 'ite' or b.op == 'ite':
        return _hoist(eq, (a, b))
    if a.op in CONSTS and b.op in CONSTS:
        if {a.op, b.op} == {'num', 'bool'}:
            f = lambda x: x.args[0] if x.op == 'num' else int(x.args[0])
            return boolc(f(a) == f(b))
        return FALSE
    ka, kb = kind(a), kind(b)
    if ka == 'num' and kb == 'num':
        return eq0(sub(a, b))
    if {ka, kb} == {'num', 'str'} or (ka == 'none' and kb in ('num', 'str', 'arr')) or (kb == 'none' and ka in ('num', 'str', 'arr')):
        return FALSE
    if {ka, kb} == {'num', 'any'} and (a.op == 'num' or b.op == 'num'):
        pass
    if b.id < a.id or b.op in CONSTS and a.op not in CONSTS:
        pass
    if a.op in CONSTS and b.op not in CONSTS:
        a, b = b, a
    elif b.op not in CONSTS and b.id < a.id:
        a, b = b, a
    # emptiness of strings
    if b.op == 'str' and b.args[0] == '':
        return bnot(truthy(a))
    if a.op == 'bool' or b.op == 'bool':
        if is_bool(a):
            return a if b is TRUE else bnot(a)
    return mk('eq', a, b)


def truthy(t):
    if t.op == 'ite':
        return _hoist(truthy, (t,))
    if is_bool(t):
        return t
    if t.op == 'none' or t.op == 'undef':
        return FALSE
    if t.op == 'str':
        return boolc(t.args[0] != '')
    k = kind(t)
    if k == 'num':
        return bnot(eq0(t))
    if k == 'arr':
        return bnot(eq0(length(t)))
    if k == 'tup':
        return boolc(len(t.args) > 0)
    if t.op == 'cat':
        for a in t.args:
            if a.op == 'str' and a.args[0]:
                return TRUE
    if t.op == 'index' and t.args[0].op == 'lines':
        return TRUE                     # a line of a file has at least its end
    if t.op == 'sym' and SYM[t].get('truthy') is not None:
        return boolc(SYM[t]['truthy'])
    if k in ('dt', 'df') or t.op in ('callable_t',):
        return TRUE
    return mk('truthy', t)


def bnot(a):
    return ite(a, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


_imp = {}


def implies(c, v, d):
    """does condition c having value v decide condition d?  True/False/None"""
    if c is d:
        return v
    k = (c, v, d)
    if k in _imp:
        return _imp[k]
    r = _implies(c, v, d)
    _imp[k] = r
    return r


def _numcond(c, v):
    """c=v as list of ('lt'|'le'|'eq'|'ne', poly) facts  poly REL 0"""
    if c.op == 'lt0':
        return [('lt', c.args[0])] if v else [('le', neg(c.args[0]))]
    if c.op == 'le0':
        return [('le', c.args[0])] if v else [('lt', neg(c.args[0]))]
    if c.op == 'eq0':
        return [('eq', c.args[0])] if v else [('ne', c.args[0])]
    return []


def _implies(c, v, d):
    if c.op == 'eq' and d.op == 'eq' and v:
        if c.args[1].op in CONSTS and d.args[1].op in CONSTS and c.args[0] is d.args[0]:
            return False    # different constants (same one would be identical)
        return None
    if c.op == 'eq' and v and c.args[1].op in CONSTS and not c.args[0].op == 'unk' and d.fs and c.args[0] is not d:
        # substitute the constant
        if d.op in ('truthy', 'startswith', 'in', 'endswith') and d.args[0] is c.args[0]:
            if d.op == 'truthy':
                x = truthy(c.args[1])
                return True if x is TRUE else False if x is FALSE else None
        return None
    if c.op == 'truthy' and not v and d.op == 'eq' and d.args[0] is c.args[0] and d.args[1].op == 'str':
        return False if d.args[1].args[0] != '' else None
    if c.op == 'isnone' and v and d.op in ('truthy',) and d.args[0] is c.args[0]:
        return False
    if c.op == 'isnone' and v and d.op == 'istype' and d.args[0] is c.args[0]:
        return False
    if c.op == 'truthy' and v and d.op == 'isnone' and d.args[0] is c.args[0]:
        return False
    if c.op == 'istype' and v and d.op == 'istype' and d.args[0] is c.args[0]:
        return False if d.args[1] != c.args[1] else True
    if c.op == 'istype' and v and d.op == 'isnone' and d.args[0] is c.args[0]:
        return False
    if c.op == 'eq' and v and d.op == 'isnone' and d.args[0] is c.args[0]:
        return c.args[1].op == 'none'
    f = _numcond(c, v)
    g = _numcond(d, True)
    if not f or not g:
        return None
    (r, p), = f
    (s, q), = g
    # try q = p*k + const,  k in {1,-1}
    for k in (1, -1):
        df = sub(q, p if k == 1 else neg(p))
        lo, hi = interval(df)
        if lo is None and hi is None:
            continue
        # p REL 0 gives bound on k*p
        plo, phi, sl, sh = None, None, False, False   # strictness flags
        if r == 'eq':
            plo = phi = Fr(0)
        elif r in ('lt', 'le'):
            if k == 1:
                phi, sh = Fr(0), r == 'lt'
            else:
                plo, sl = Fr(0), r == 'lt'
        elif r == 'ne':
            if s == 'eq' and lo == 0 and hi == 0:
                return False
            continue
        ql = None if plo is None or lo is None else plo + lo
        qh = None if phi is None or hi is None else phi + hi
        if s == 'lt':
            if qh is not None and (qh < 0 or (qh == 0 and sh)):
                return True
            if ql is not None and ql >= 0:
                return False
        elif s == 'le':
            if qh is not None and qh <= 0:
                return True
            if ql is not None and (ql > 0 or (ql == 0 and sl)):
                return False
        elif s == 'eq':
            if qh is not None and (qh < 0 or (qh == 0 and sh)):
                return False
            if ql is not None and (ql > 0 or (ql == 0 and sl)):
                return False
            if ql is not None and qh is not None and ql == 0 and qh == 0 and not sl and not sh:
                return True
    return None


_rs = {}


def restrict(t, c, v):
    """t under the assumption that the atomic condition c has value v (only the
    decision spine of t is simplified)"""
    if t is c:
        return boolc(v)
    if t.op != 'ite':
        if t.op in BOOLOPS and t.op != 'bool':
            r = implies(c, v, t)
            if r is not None:
                return boolc(r)
        return t
    k = (t, c, v)
    r = _rs.get(k)
    if r is None:
        d, a, b = t.args
        if d is c:
            r = restrict(a if v else b, c, v)
        else:
            i = implies(c, v, d)
            if i is not None:
                r = restrict(a if i else b, c, v)
            else:
                x, y = restrict(a, c, v), restrict(b, c, v)
                r = t if (x is a and y is b) else ite(d, x, y)
        _rs[k] = r
    return r


def _top(t):
    if t.op == 'ite':
        return t.args[0]
    return None


_it = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    k = (c, a, b)
    r = _it.get(k)
    if r is None:
        r = _it[k] = _ite(c, a, b)
    return r


def _ite(c, a, b):
    if c.op != 'ite' and not is_bool(c):
        c = truthy(c)
        return ite(c, a, b)
    if c.op != 'ite' and c.op == 'any':
        # a value built from the (then empty) filter equals b: the test is redundant
        r = _any_redundant(c, a, b)
        if r is not None:
            return r
    m = c.args[0] if c.op == 'ite' else c
    for x in (a, b):
        if x.op == 'ite' and x.args[0].id < m.id:
            m = x.args[0]
        elif x.op in BOOLOPS and x.op != 'bool' and x.id < m.id:
            m = x
    if m is c:
        hi, lo = restrict(a, m, True), restrict(b, m, False)
    else:
        hi = ite(restrict(c, m, True), restrict(a, m, True), restrict(b, m, True))
        lo = ite(restrict(c, m, False), restrict(a, m, False), restrict(b, m, False))
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return m
    # x == const ? const : x
    if m.op == 'eq0' and lo.op not in ('ite',) and kind(lo) == 'num' and kind(hi) == 'num' and hi.op != 'ite':
        d = sub(hi, lo)
        if d is m.args[0] or neg(d) is m.args[0]:
            return lo
    r = mk('ite', m, hi, lo)
    if r.nl > 4000:
        raise Overflow('too many cases')
    return r


def _any_redundant(c, a, b):
    n, bv, p = c.args
    hit = []
    for s in subterms(a):
        if s.op in ('filt', 'count') and s.args[0] is n and s.args[1] is bv and s.args[2] is p:
            hit.append(s)
    if hit:
        mp = {s: (EMPTY if s.op == 'filt' else ZERO) for s in hit}
        if rewrite(a, mp) is b:
            return a
    return None


def leaves(t):
    if t.op == 'ite':
        yield from leaves(t.args[1])
        yield from leaves(t.args[2])
    else:
        yield t


def cases(t, conds=()):
    """(conditions, leaf) pairs of a decision term"""
    if t.op == 'ite':
        yield from cases(t.args[1], conds + ((t.args[0], True),))
        yield from cases(t.args[2], conds + ((t.args[0], False),))
    else:
        yield conds, t


def spine_conds(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            acc.add(x.args[0])
            st += [x.args[1], x.args[2]]
    return acc


# --------------------------------------------------------------------------
# generic traversal / substitution (rebuilds through the constructors)
# --------------------------------------------------------------------------
def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def subst(t, mp):
    """replace symbols (free) by terms"""
    keys = frozenset(mp)
    memo = {}

    def go(x):
        if not (x.fs & keys):
            return x
        r = memo.get(x)
        if r is None:
            if x in mp:
                r = mp[x]
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def rewrite(t, mp):
    """replace whole (closed) subterms by terms"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x in mp:
                r = mp[x]
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def transform(t, f):
    """bottom-up: f(term) -> term or None, applied after rebuilding"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = rebuild(x, go)
            z = f(y)
            r = memo[x] = z if z is not None else y
        return r
    return go(t)


def rebuild(x, go):
    op = x.op
    a = x.args
    if op in ('sym', 'num', 'str', 'bool', 'none', 'pi', 'nan', 'inf', 'undef', 'bv', 'iunit', 'expo'):
        return x
    if op == 'poly':
        memo = {}
        r = {}
        changed = False
        tot = ZERO
        acc = {}
        plain = {}
        for m, c in a[0]:
            if all(memo.setdefault(at, go(at)) is at for at, _ in m):
                plain[m] = c
            else:
                changed = True
                f = num(c)
                for at, e in m:
                    f = mul(f, power(memo[at], e) if at in memo else power(go(at), e))
                if f.op in ('num', 'poly') or (f.op not in ('ite', 'undef', 'nan', 'bool')):
                    for m2, c2 in P(f).items():
                        v = acc.get(m2, 0) + c2
                        if v:
                            acc[m2] = v
                        else:
                            acc.pop(m2, None)
                else:
                    tot = add(tot, f)
        if not changed:
            return x
        return add(add(tot, fromP(acc)), fromP(plain))
    if op == 'ite':
        return ite(go(a[0]), go(a[1]), go(a[2]))
    if op in BINDERS:
        n = go(a[0])
        v, bodies = open_(x)
        return BIND[op](n, v, *[go(b) for b in bodies])
    na = _mapargs(a, go)
    if na == a and all(p is q for p, q in zip(na, a)):
        return x
    return build(op, *na)


def _mapargs(a, go):
    return tuple(go(y) if type(y) is T else (_mapargs(y, go) if type(y) is tuple else y) for y in a)


_openmemo = {}


def open_(x):
    """binder term -> (fresh symbol, bodies)"""
    r = _openmemo.get(x)
    if r is None:
        n, bv = x.args[0], x.args[1]
        vs = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        bodies = tuple(_subst_bv(b, bv, vs) for b in x.args[2:])
        r = _openmemo[x] = (vs, bodies)
    return r


def open_with(x, v):
    vs, bodies = open_(x)
    return tuple(subst(b, {vs: v}) for b in bodies)


def _subst_bv(t, bv, v):
    memo = {}

    def go(x):
        if x is bv:
            return v
        r = memo.get(x)
        if r is None:
            if not _has_bv(x, bv):
                r = x
            elif x.op in BINDERS:
                n = go(x.args[0])
                w, bodies = open_(x)
                # opening may have lost the outer bv identity: substitute in opened bodies
                r = BIND[x.op](n, w, *[_subst_bv(b, bv, v) for b in bodies])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


_hb = {}


def _has_bv(t, bv):
    k = (t, bv)
    r = _hb.get(k)
    if r is None:
        if t is bv:
            r = True
        else:
            r = any(_has_bv(y, bv) for y in kids(t))
        _hb[k] = r
    return r


def close(op, n, v, *bodies):
    """bind symbol v in bodies"""
    h = max([b.h for b in bodies] + [n.h])
    # the level must not clash with bound variables used free inside (none: all outer ones are symbols)
    bv = mk('bv', h + 1)
    nb = tuple(_close_subst(b, v, bv) for b in bodies)
    return mk(op, n, bv, *nb)


def _close_subst(t, v, bv):
    """replace symbol v by bv, renaming without renormalising binders below"""
    memo = {}

    def go(x):
        if v not in x.fs:
            return x
        if x is v:
            return bv
        r = memo.get(x)
        if r is None:
            if x.op in BINDERS:
                r = mk(x.op, *_mapargs(x.args, go))
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def vec(*xs):
    return mk('vec', *xs)


def uses_only_indexed(body, v):
    """If v occurs in body only as index(A, v): the set of those A, else None"""
    out = set()
    memo = {}

    def go(x):
        if v not in x.fs:
            return True
        r = memo.get(x)
        if r is None:
            if x is v:
                r = False
            elif x.op == 'index' and x.args[1] is v and v not in x.args[0].fs:
                out.add(x.args[0])
                r = True
            else:
                r = all(go(y) for y in kids(x))
            memo[x] = r
        return r
    return out if go(body) else None


MAXVEC = 40


def map_(n, v, body):
    """array of n elements, element v is body"""
    if n.op == 'ite':
        return _hoist(lambda m: map_(m, v, body), (n,))
    if n is ZERO:
        return EMPTY
    c = const_of(n)
    if c is not None and c.denominator == 1 and 0 <= c <= MAXVEC:
        return vec(*[subst(body, {v: num(i)}) for i in range(int(c))])
    if body.op == 'ite':
        for cnd in sorted(spine_conds(body), key=lambda t: t.id):
            if v not in cnd.fs:
                return ite(cnd, map_(n, v, restrict(body, cnd, True)), map_(n, v, restrict(body, cnd, False)))
    if body.op == 'index' and body.args[1] is v and v not in body.args[0].fs and length(body.args[0]) is n:
        return body.args[0]
    if v in body.fs:
        s = uses_only_indexed(body, v)
        if s:
            s = list(s)
            f0 = s[0]
            if f0.op == 'filt' and all(f.op == 'filt' and f.args[:3] == f0.args[:3] for f in s) and n is length(f0):
                w = fresh('k', 'num', int=True, lo=Fr(0), ub=f0.args[0])
                mp = {}
                pred = None
                for f in s:
                    pr, b = open_with(f, w)
                    pred = pr
                    mp[index_raw(f, v)] = b
                return filt(f0.args[0], w, pred, rewrite(body, mp))
            if f0.op == 'concat' and all(f.op == 'concat' and [length(p) for p in f.args] == [length(p) for p in f0.args] for f in s) \
                    and n is length(f0):
                pieces = []
                for j in range(len(f0.args)):
                    ln = length(f0.args[j])
                    w = fresh('k', 'num', int=True, lo=Fr(0), ub=ln)
                    mp = {index_raw(f, v): index(f.args[j], w) for f in s}
                    pieces.append(map_(ln, w, rewrite(body, mp)))
                return concat(*pieces)
            if f0.op == 'cmap' and all(f.op == 'cmap' and f.args[:2] == f0.args[:2] for f in s) and n is length(f0):
                w = fresh('k', 'num', int=True, lo=Fr(0), ub=f0.args[0])
                bs = {f: open_with(f, w)[0] for f in s}
                ls = {length(b) for b in bs.values()}
                if len(ls) == 1:
                    ln = ls.pop()
                    u = fresh('k', 'num', int=True, lo=Fr(0), ub=ln)
                    mp = {index_raw(f, v): index(b, u) for f, b in bs.items()}
                    return cmap(f0.args[0], w, map_(ln, u, rewrite(body, mp)))
    return close('map', n, v, body)


def mapf(n, f, prefix='k'):
    v = fresh(prefix, 'num', int=True, lo=Fr(0), ub=n)
    return map_(n, v, f(v))


def index_raw(a, k):
    return mk('index', a, k)


def index(a, k):
    if a.op == 'ite' or k.op == 'ite':
        return _hoist(index, (a, k))
    op = a.op
    c = const_of(k)
    if op == 'undef':
        return UNDEF
    if op in ('vec', 'tup'):
        if c is not None and c.denominator == 1:
            i = int(c)
            if -len(a.args) <= i < len(a.args):
                return a.args[i]
        if a.args and all(x is a.args[0] for x in a.args):
            return a.args[0]
        return mk('index', a, k)
    if op in ('num', 'poly'):
        return mk('index', a, k)
    if c is not None and c < 0:
        if kind(a) in ('arr', 'any') or op in ('index',):
            k = add(length(a), k)
    if op == 'map':
        return open_with(a, k)[0]
    if op == 'concat':
        c = const_of(k)
        if c is not None and c >= 0:
            off = 0
            for p in a.args:
                ln = const_of(length(p))
                if ln is None:
                    if off == c or True:
                        # inside this piece (pieces are assumed non-empty when of unknown length)
                        if c == off:
                            return index(p, ZERO)
                    break
                if c < off + ln:
                    return index(p, num(c - off))
                off += ln
        else:
            d = sub(k, length(a))
            dc = const_of(d)
            if dc is not None and dc < 0:
                p = a.args[-1]
                ln = const_of(length(p))
                if ln is None and dc == -1:
                    return index(p, sub(length(p), ONE))
                if ln is not None and -dc <= ln:
                    return index(p, num(ln + dc))
    return mk('index', a, k)


_ln = {}


def length(a):
    r = _ln.get(a)
    if r is None:
        r = _ln[a] = _length(a)
    return r


def _length(a):
    op = a.op
    if op == 'ite':
        return _hoist(length, (a,))
    if op in ('vec', 'tup'):
        return num(len(a.args))
    if op == 'map':
        return a.args[0]
    if op == 'concat':
        return addn(*[length(p) for p in a.args])
    if op == 'filt':
        n, bv, p = a.args[:3]
        return mk('count', n, bv, p)
    if op == 'cmap':
        v, (b,) = open_(a)
        return sum_(a.args[0], v, length(b))
    if op == 'fold':
        return length(a.args[2])
    if op == 'sym':
        m = SYM[a]
        if m.get('len') is not None:
            return m['len']
    if op == 'str':
        return num(len(a.args[0]))
    if op in LEN:
        r = LEN[op](a.args)
        if r is not None:
            return r
    if op == 'index':
        b = a.args[0]
        if b.op in INNERLEN:
            r = INNERLEN[b.op](b.args)
            if r is not None:
                return r
        if b.op == 'sym' and SYM[b].get('shape'):
            return SYM[b]['shape'][1]
    if op == 'df':
        return a.args[0]
    return mk('len', a)


def concat(*ps):
    out = []
    for i, p in enumerate(ps):
        if p.op == 'ite':
            return _hoist(concat, ps)
        if p.op == 'concat':
            out.extend(p.args)
        elif p.op == 'vec' and not p.args:
            continue
        else:
            out.append(p)
    r = []
    for p in out:
        if r and p.op == 'vec' and r[-1].op == 'vec':
            r[-1] = vec(*(r[-1].args + p.args))
        elif r and _same_const_map(r[-1], p):
            n = add(length(r[-1]), length(p))
            c = r[-1].args[2]
            r[-1] = mapf(n, lambda k, c=c: c)
        else:
            r.append(p)
    if not r:
        return EMPTY
    if len(r) == 1:
        return r[0]
    return mk('concat', *r)


def _same_const_map(a, b):
    return a.op == 'map' and b.op == 'map' and a.args[2] is b.args[2] and not _has_bv(a.args[2], a.args[1]) and rank(a) == 1


def filt(n, v, pred, body):
    """[body(v) for v in range(n) if pred(v)]"""
    if n.op == 'ite':
        return _hoist(lambda m: filt(m, v, pred, body), (n,))
    if pred is TRUE:
        return map_(n, v, body)
    if pred is FALSE or n is ZERO:
        return EMPTY
    c = const_of(n)
    for t in (body, pred):
        for cnd in spine_conds(t):
            if v not in cnd.fs:
                return ite(cnd, filt(n, v, restrict(pred, cnd, True), restrict(body, cnd, True)),
                           filt(n, v, restrict(pred, cnd, False), restrict(body, cnd, False)))
    if pred.op != 'ite' and v not in pred.fs:
        return ite(pred, map_(n, v, body), EMPTY)
    body = assume(body, pred)
    # filter over a filter / over a concatenation
    s = uses_only_indexed(body, v)
    s2 = uses_only_indexed(pred, v)
    if s is not None and s2 is not None and (s or s2):
        ss = list(s | s2)
        f0 = ss[0]
        if f0.op == 'filt' and all(f.op == 'filt' and f.args[:3] == f0.args[:3] for f in ss) and n is length(f0):
            w = fresh('k', 'num', int=True, lo=Fr(0), ub=f0.args[0])
            mp = {}
            pr0 = None
            for f in ss:
                pr0, b = open_with(f, w)
                mp[index_raw(f, v)] = b
            return filt(f0.args[0], w, band(pr0, rewrite(pred, mp)), rewrite(body, mp))
        if f0.op == 'concat' and all(f.op == 'concat' and [length(p) for p in f.args] == [length(p) for p in f0.args] for f in ss) \
                and n is length(f0):
            pieces = []
            for j in range(len(f0.args)):
                ln = length(f0.args[j])
                w = fresh('k', 'num', int=True, lo=Fr(0), ub=ln)
                mp = {index_raw(f, v): index(f.args[j], w) for f in ss}
                pieces.append(filt(ln, w, rewrite(pred, mp), rewrite(body, mp)))
            return concat(*pieces)
    if c is not None and c <= MAXVEC:
        return concat(*[ite(subst(pred, {v: num(i)}), vec(subst(body, {v: num(i)})), EMPTY) for i in range(int(c))])
    return close('filt', n, v, pred, body)


def assume(t, cond):
    """simplify the decision spine of t under boolean term cond (conjunctive part)"""
    for c, v in facts(cond):
        t = restrict(t, c, v)
    return t


def facts(cond):
    """atomic facts implied by a boolean term being true"""
    out = []
    while cond.op == 'ite':
        c, a, b = cond.args
        if b is FALSE:
            out.append((c, True))
            cond = a
        elif a is FALSE:
            out.append((c, False))
            cond = b
        else:
            break
    if cond.op in BOOLOPS and cond.op != 'bool':
        out.append((cond, True))
    return out


def count(n, v, pred):
    return length(filt(n, v, pred, v)) if pred is not TRUE else n


def count_raw(n, v, pred):
    if pred is TRUE:
        return n
    if pred is FALSE:
        return ZERO
    return close('count', n, v, pred)


def sum_(n, v, body):
    if n.op == 'ite':
        return _hoist(lambda m: sum_(m, v, body), (n,))
    if body is ZERO or n is ZERO:
        return ZERO
    c = const_of(n)
    if c is not None and c.denominator == 1 and 0 <= c <= MAXVEC:
        return addn(*[subst(body, {v: num(i)}) for i in range(int(c))])
    if v not in body.fs:
        return mul(n, body)
    for cnd in spine_conds(body):
        if v not in cnd.fs:
            return ite(cnd, sum_(n, v, restrict(body, cnd, True)), sum_(n, v, restrict(body, cnd, False)))
    if is_bool(body):
        return count(n, v, body)
    if body.op == 'ite' and set(leaves(body)) == {ZERO, ONE}:
        return count(n, v, _leafmap(body, lambda l: boolc(l is ONE)))
    if body.op != 'ite':
        # linearity: pull factors that do not depend on v out, split sums
        d = P(body)
        tot = ZERO
        groups = {}
        for m, cf in d.items():
            inn = tuple((a, e) for a, e in m if v in a.fs)
            outm = tuple((a, e) for a, e in m if v not in a.fs)
            groups.setdefault(inn, []).append((outm, cf))
        if len(groups) > 1 or any(o[0] or o[1] != 1 for g in groups.values() for o in g):
            for inn, g in groups.items():
                fac = fromP({o: cf for o, cf in g})
                b = fromP({inn: Fr(1)})
                tot = add(tot, mul(fac, sum_(n, v, b)))
            return tot
    s = uses_only_indexed(body, v)
    if s:
        s = list(s)
        f0 = s[0]
        if f0.op == 'concat' and all(f.op == 'concat' and [length(p) for p in f.args] == [length(p) for p in f0.args] for f in s) \
                and n is length(f0):
            tot = ZERO
            for j in range(len(f0.args)):
                ln = length(f0.args[j])
                w = fresh('k', 'num', int=True, lo=Fr(0), ub=ln)
                mp = {index_raw(f, v): index(f.args[j], w) for f in s}
                tot = add(tot, sum_(ln, w, rewrite(body, mp)))
            return tot
    return close('sum', n, v, body)


def prod_(n, v, body):
    if v not in body.fs:
        return powT(body, n)
    c = const_of(n)
    if c is not None and 0 <= c <= MAXVEC:
        return muln(*[subst(body, {v: num(i)}) for i in range(int(c))])
    d = sub(body, v)
    k = const_of(d)
    if k is not None and k.denominator == 1 and k >= 1:
        return div(factorial(add(n, num(k - 1))), factorial(num(k - 1)))
    return close('prod', n, v, body)


def factorial(t):
    if t.op == 'ite':
        return _hoist(factorial, (t,))
    c = const_of(t)
    if c is not None and c.denominator == 1 and 0 <= c <= 60:
        r = 1
        for i in range(2, int(c) + 1):
            r *= i
        return num(r)
    return mk('factorial', t)


def any_(n, v, pred):
    """exists v in [0,n): pred"""
    if pred is FALSE or n is ZERO:
        return FALSE
    if v not in pred.fs:
        return band(lt0(neg(n)), pred)
    c = const_of(n)
    if c is not None and c <= MAXVEC:
        return bor(*[subst(pred, {v: num(i)}) for i in range(int(c))])
    for cnd in spine_conds(pred):
        if v not in cnd.fs:
            return ite(cnd, any_(n, v, restrict(pred, cnd, True)), any_(n, v, restrict(pred, cnd, False)))
    s = uses_only_indexed(pred, v)
    if s:
        f0 = next(iter(s))
        if f0.op == 'filt' and all(f.op == 'filt' and f.args[:3] == f0.args[:3] for f in s) and n is length(f0):
            w = fresh('k', 'num', int=True, lo=Fr(0), ub=f0.args[0])
            mp = {}
            for f in s:
                pr, b = open_with(f, w)
                mp[index_raw(f, v)] = b
            return any_(f0.args[0], w, band(pr, rewrite(pred, mp)))
        if f0.op == 'concat' and all(f.op == 'concat' and [length(p) for p in f.args] == [length(p) for p in f0.args] for f in s) \
                and n is length(f0):
            out = []
            for j in range(len(f0.args)):
                ln = length(f0.args[j])
                w = fresh('k', 'num', int=True, lo=Fr(0), ub=ln)
                out.append(any_(ln, w, rewrite(pred, {index_raw(f, v): index(f.args[j], w) for f in s})))
            return bor(*out)
    return close('any', n, v, pred)


def all_(n, v, pred):
    return bnot(any_(n, v, bnot(pred)))


def first_(n, v, pred):
    """smallest v with pred (given that there is one)"""
    if pred is TRUE:
        return ZERO
    return close('first', n, v, pred)


def cmap(n, v, body):
    """concatenation of the arrays body(v), v in [0,n)"""
    if body is EMPTY or n is ZERO:
        return EMPTY
    c = const_of(n)
    if c is not None and c <= MAXVEC:
        return concat(*[subst(body, {v: num(i)}) for i in range(int(c))])
    for cnd in spine_conds(body):
        if v not in cnd.fs:
            return ite(cnd, cmap(n, v, restrict(body, cnd, True)), cmap(n, v, restrict(body, cnd, False)))
    if body.op == 'vec' and len(body.args) == 1:
        return map_(n, v, body.args[0])
    if body.op == 'ite':
        # [x] if c else []  -> filter
        if all(l is EMPTY or (l.op == 'vec' and len(l.args) == 1) for l in leaves(body)):
            pred = _leafmap(body, lambda l: boolc(l is not EMPTY))
            val = _leafmap(body, lambda l: UNDEF if l is EMPTY else l.args[0])
            return filt(n, v, pred, val)
    s = uses_only_indexed(body, v)
    return close('cmap', n, v, body)


def _leafmap(t, f):
    if t.op == 'ite':
        return ite(t.args[0], _leafmap(t.args[1], f), _leafmap(t.args[2], f))
    return f(t)


def fold_(n, v, init, p, body):
    """value after n steps of p <- body(v, p) from init"""
    if n is ZERO:
        return init
    if n.op == 'ite':
        return _hoist(lambda m: fold_(m, v, init, p, body), (n,))
    for t in (init, body):
        for cnd in sorted(spine_conds(t), key=lambda x: x.id):
            if v not in cnd.fs and p not in cnd.fs:
                return ite(cnd, *[fold_(restrict(n, cnd, z), v, restrict(init, cnd, z), p, restrict(body, cnd, z)) for z in (True, False)])
    m = dict(SYM[p])
    if m.get('len') is not None:
        m['len'] = length(init)
    q = prev(init, body, p, **m)
    if q is not p:
        body = subst(body, {p: q})
    return close('fold', n, v, init, q, body)


def prev(init, body, old=None, **meta):
    """the state symbol of a fold: its name depends on nothing but the nesting and the type"""
    used = {x.args[0] for t in (init, body) for x in t.fs if x is not old and x.args[0].startswith('@prev')}
    d = 0
    while True:
        name = '@prev%d#%s' % (d, ','.join('%s=%s' % (k, ('t%d' % z.id) if type(z) is T else tuple(y.id for y in z) if type(z) is tuple else z)
                                           for k, z in sorted(meta.items())))
        if name not in used:
            return sym(name, **meta)
        d += 1


def rmin_(n, v, body, op='rmin'):
    c = const_of(n)
    if c is not None and 0 < c <= MAXVEC:
        return minmax(op[1:], [subst(body, {v: num(i)}) for i in range(int(c))])
    if v not in body.fs:
        return body
    return close(op, n, v, body)


BIND = {'map': map_, 'filt': filt, 'cmap': cmap, 'sum': sum_, 'any': any_, 'first': first_, 'count': count_raw, 'prod': prod_,
        'fold': fold_, 'rmin': rmin_, 'rmax': lambda n, v, b: rmin_(n, v, b, 'rmax'),
        'last': lambda n, v, b: close('last', n, v, b), 'foldv': lambda n, v, *b: close('foldv', n, v, *b)}

LINEAR = {'fft': 0, 'ifft': 0, 'fft2': 0, 'ifft2': 0, 'lfilter': 2, 'convolve': 0}

BUILD = {'grp': lambda x: x, 'index': index, 'concat': concat, 'lt0': lt0, 'le0': le0, 'eq0': eq0, 'eq': eq, 'truthy': truthy, 'sin': sin, 'cos': cos,
         'exp': exp, 'log': log, 'atan': atan, 'asin': asin, 'acos': acos, 'abs': absT, 'floor': floor, 'mod': mod,
         'atan2': atan2, 'erf': erf, 'sign': sign, 'pow': powT, 'int': toint, 'float': tofloat, 'len': length,
         'factorial': factorial, 'min': lambda xs: minmax('min', xs), 'max': lambda xs: minmax('max', xs)}


def build(op, *args):
    f = BUILD.get(op)
    if f:
        return f(*args)
    return app(op, *args)


NOHOIST = {'df', 'tup', 'unk', 'vec', 'fold'}


def app(op, *args):
    """generic (uninterpreted) operator with conditionals hoisted"""
    if op in BUILD:
        return BUILD[op](*args)
    if op not in NOHOIST:
        for a in args:
            if type(a) is T and a.op == 'ite':
                r = _hoist(lambda *x: app(op, *x), args)
                return r
    f = APP.get(op)
    if f:
        r = f(*args)
        if r is not None:
            return r
    if op in LINEAR:
        i = LINEAR[op]
        c, b = scalar_factor(args[i])
        if c is not ONE:
            args = args[:i] + (b,) + args[i + 1:]
            return ew(mul, [c, app(op, *args)])
    return mk(op, *args)


APP = {}


def scalar_factor(a):
    """array a = c * b with c a scalar independent of the index"""
    vs = []
    t = a
    ns = []
    while t.op == 'map':
        v, (b,) = open_(t)
        vs.append(v)
        ns.append(t.args[0])
        t = b
    if not vs or t.op == 'ite':
        return ONE, a
    d = P(t)
    if not d:
        return ONE, a
    items = sorted(d.items(), key=_mkey)
    com = {x: e for x, e in items[0][0] if not any(v in x.fs for v in vs)}
    for m, _ in items[1:]:
        mm = dict(m)
        com = {x: e for x, e in com.items() if mm.get(x) == e}
    c = items[0][1]
    if not com and c == 1:
        return ONE, a
    inv = fromP({tuple(sorted(((x, -e) for x, e in com.items()), key=lambda z: z[0].id)): 1 / c})
    b = mul(t, inv)
    for n, v in zip(reversed(ns), reversed(vs)):
        b = map_(n, v, b)
    return power(inv, -1), b


def ew(f, args):
    """elementwise application with broadcasting"""
    rs = [rank(a) for a in args]
    if any(r is None for r in rs):
        rs = [0 if r is None else r for r in rs]
    R = max(rs)
    if R == 0:
        return f(*args)
    for i, a in enumerate(args):
        if a.op == 'ite' and rs[i]:
            return _hoist(lambda *x: ew(f, list(x)), list(args)) if all(True for _ in args) else None
    ns = [length(a) for a, r in zip(args, rs) if r == R]
    n = ns[0]
    for m in ns[1:]:
        if n is ONE:
            n = m
        elif m is not n and m is not ONE:
            if const_of(m) is None or const_of(n) is None:
                # lengths not provably equal
                d = sub(m, n)
                return mk('unk', 'length mismatch', *args)
            return mk('unk', 'length mismatch', *args)

    def get(a, r, k):
        if r < R:
            return a
        if length(a) is ONE and n is not ONE:
            return index(a, ZERO)
        return index(a, k)
    c = const_of(n)
    if c is not None and 0 <= c <= MAXVEC and c.denominator == 1:
        return vec(*[ew(f, [get(a, r, num(i)) for a, r in zip(args, rs)]) for i in range(int(c))])
    return mapf(n, lambda k: ew(f, [get(a, r, k) for a, r in zip(args, rs)]))


def rangeT(lo, hi, step=ONE):
    """integers lo, lo+step, ... < hi as an array"""
    n = range_len(lo, hi, step)
    return mapf(n, lambda k: add(lo, mul(step, k)))


def range_len(lo, hi, step):
    c = const_of(step)
    d = sub(hi, lo)
    if c == 1:
        n = d
    elif c == -1:
        n = neg(d)
    else:
        # ceil(d/step)
        n = neg(floor(neg(div(d, step))))
    k = const_of(n)
    if k is not None:
        k = -((-k.numerator) // k.denominator)
        return num(max(k, 0))
    if not is_int(n):
        n = ceil(n)
    return n


def slice_(a, lo, hi, step):
    """a[lo:hi:step]; bounds are terms or None; bounds are taken to be within range"""
    for x in (a, lo, hi, step):
        if x is not None and x.op == 'ite':
            ks = [y for y in (a, lo, hi, step)]
            idx = [i for i, y in enumerate(ks) if y is not None]

            def f(*z):
                kk = list(ks)
                for i, y in zip(idx, z):
                    kk[i] = y
                return slice_(*kk)
            return _hoist(f, [ks[i] for i in idx])
    n = length(a)
    st = const_of(step) if step is not None else Fr(1)
    if lo is not None and lo.op == 'none':
        lo = None
    if hi is not None and hi.op == 'none':
        hi = None
    if step is not None and step.op == 'none':
        step, st = None, Fr(1)

    def fix(x):
        c = const_of(x)
        if c is not None:
            if c < 0:
                x2 = add(n, x)
                c2 = const_of(x2)
                return ZERO if c2 is not None and c2 < 0 else x2
            nn = const_of(n)
            if nn is not None and c > nn:
                return n
            return x
        l, h = interval(x)
        if h is not None and h < 0:
            return add(n, x)
        if x.op == 'poly' and len(x.args[0]) == 1 and x.args[0][0][1] < 0 and all(nonneg(t) for t, _ in x.args[0][0][0]):
            return add(n, x)
        return x
    if st is not None and st < 0:
        lo_ = sub(n, ONE) if lo is None else fix(lo)
        if hi is None:
            m = range_len(ZERO, add(lo_, ONE), num(-st))
        else:
            m = range_len(ZERO, sub(lo_, fix(hi)), num(-st))
        return mapf(m, lambda k: index(a, add(lo_, mul(num(st), k)))) if not _small(a, m) else \
            vec(*[index(a, add(lo_, num(st * i))) for i in range(int(const_of(m)))])
    lo_ = ZERO if lo is None else fix(lo)
    hi_ = n if hi is None else fix(hi)
    if lo_ is ZERO and hi_ is n and (step is None or st == 1):
        return a
    if a.op == 'concat' and (step is None or st == 1):
        r = _slice_concat(a, lo_, hi_)
        if r is not None:
            return r
    m = range_len(lo_, hi_, step or ONE)
    s = step or ONE
    return mapf(m, lambda k: index(a, add(lo_, mul(s, k))))


def _small(a, m):
    c = const_of(m)
    return c is not None and c <= MAXVEC


def _slice_concat(a, lo, hi):
    """slice along piece boundaries"""
    offs = [ZERO]
    for p in a.args:
        offs.append(add(offs[-1], length(p)))
    out = []
    i = None
    # find piece containing lo: offs[i] <= lo and lo <= offs[i+1]
    for j, p in enumerate(a.args):
        l1, _ = interval(sub(lo, offs[j]))
        _, h2 = interval(sub(lo, offs[j + 1]))
        if l1 is not None and l1 >= 0 and h2 is not None and h2 < 0 or lo is offs[j]:
            i = j
            break
    if i is None:
        return None
    k = None
    for j in range(i, len(a.args)):
        l1, _ = interval(sub(hi, offs[j]))
        _, h2 = interval(sub(hi, offs[j + 1]))
        if hi is offs[j + 1] or (l1 is not None and l1 > 0 and h2 is not None and h2 <= 0):
            k = j
            break
    if k is None:
        return None
    for j in range(i, k + 1):
        p = a.args[j]
        s = sub(lo, offs[j]) if j == i else None
        e = sub(hi, offs[j]) if j == k and hi is not offs[j + 1] else None
        if s is ZERO:
            s = None
        out.append(slice_(p, s, e, None))
    return concat(*out)


def transpose(a):
    if a.op == 'ite':
        return _hoist(transpose, (a,))
    r = rank(a)
    if r != 2:
        return a if r in (0, 1) else unk('transpose', a)
    if a.op == 'vec':
        n = length(a.args[0])
        if const_of(n) is not None and const_of(n) <= MAXVEC:
            return vec(*[vec(*[index(x, num(j)) for x in a.args]) for j in range(int(const_of(n)))])
        return mapf(n, lambda k: vec(*[index(x, k) for x in a.args]))
    n = length(a)
    m = length(index(a, ZERO)) if a.op != 'map' else length(open_(a)[1][0])
    return mapf(m, lambda j: mapf(n, lambda i: index(index(a, i), j)))


def where_(c, a, b):
    return ew(ite, [c, a, b])


# --------------------------------------------------------------------------
# display
# --------------------------------------------------------------------------
def show(t, depth=7):
    if type(t) is not T:
        return repr(t)
    op, a = t.op, t.args
    if op == 'num':
        c = a[0]
        if c.denominator == 1:
            return str(c.numerator)
        f = float(c)
        return ('%.10g' % f)
    if op == 'str':
        return repr(a[0])
    if op == 'bool':
        return str(a[0])
    if op == 'none':
        return 'None'
    if op == 'sym':
        return a[0]
    if op == 'bv':
        return 'i%d' % a[0]
    if op in ('pi', 'nan', 'undef', 'inf'):
        return op
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    if op == 'poly':
        out = []
        for m, c in a[0][:12]:
            f = []
            if c != 1 or not m:
                f.append(show(num(c)))
            for at, e in m:
                q = s(at)
                if at.op == 'poly':
                    q = '(' + q + ')'
                if e != 1:
                    q += '^' + (str(e) if e.denominator == 1 else '(%s)' % e)
                f.append(q)
            out.append('*'.join(f))
        if len(a[0]) > 12:
            out.append('... (%d terms)' % len(a[0]))
        return ' + '.join(out)
    if op == 'ite':
        return '(%s if %s else %s)' % (s(a[1]), s(a[0]), s(a[2]))
    if op == 'lt0':
        return '(%s < 0)' % s(a[0])
    if op == 'le0':
        return '(%s <= 0)' % s(a[0])
    if op == 'eq0':
        return '(%s == 0)' % s(a[0])
    if op == 'eq':
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'index':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'map':
        return '[%s for %s<%s]' % (s(a[2]), s(a[1]), s(a[0]))
    if op == 'filt':
        return '[%s for %s<%s if %s]' % (s(a[3]), s(a[1]), s(a[0]), s(a[2]))
    if op == 'vec':
        return '[' + ', '.join(s(x) for x in a[:20]) + (', ...' if len(a) > 20 else '') + ']'
    if op == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if op == 'concat':
        return ' ++ '.join(s(x) for x in a)

    def q(x):
        if type(x) is T:
            return s(x)
        if type(x) is tuple:
            return '(' + ', '.join(q(y) for y in x) + ')'
        return repr(x)
    return '%s(%s)' % (op, ', '.join(q(x) for x in a))
