"""Finite models of value graphs.

Where two graphs have different normal forms and the comparison has no theory
for the operators in which they differ (searches, sorts, interpolation, loops
carrying a state), the graphs are interpreted in small random structures: every
file has a few lines, a symbol is a number, a numeric field of a line is a
number that depends on nothing but the line and the field, a line does or does
not carry a tag.  Two graphs that differ in such a structure are not equal; two
graphs that agree in all of them are left undecided.  Operators without an
interpretation make the structure inapplicable.  It is the graph that is
interpreted: the analysed program is not run.
"""
import hashlib
import math
import random
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T, SYM, NONE


class Outside(Exception):
    """an operator that has no interpretation here"""


class Undefined(Exception):
    """the value does not exist (index out of range, no element, undefined)"""


class Tok(tuple):
    """an uninterpreted value, equal to itself only"""
    __slots__ = ()


NANTOK = Tok(('nan',))
POOL = [Fr(x) for x in ('-179.875', '179.75', '-179.25', '178.5', '179.125', '-178.625', '0.25', '12.5', '13', '-0.75', '-13.5', '60.375', '-61', '0.5',
                        '1.5', '-1.25', '170.5', '-170.25', '-90.5', '91.125', '12.3456789', '-77.12345678')]
NEAR = [Fr(x) for x in ('-179.875', '179.75', '-179.25', '178.5', '179.125', '-178.625', '179.5', '-179.5', '180', '-180', '-178.5', '178.75', '179.87654321', '-179.87654321')]
SMOOTH = [Fr(100) + Fr(i, 16) + Fr(i * i, 10**7) for i in range(14)]
ACROSS = [Fr(179) + Fr(i, 8) if i < 8 else Fr(-180) + Fr(i - 8, 8) for i in range(17)]
RUN = [Fr(100) + Fr(i, 2) for i in range(14)]


class Model:
    def __init__(self, seed):
        self.seed = seed
        r = self.rng = random.Random(seed)
        self.nlines = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6])
        self.style = r.choice(['any', 'near', 'near', 'across', 'across', 'smooth', 'run', 'gaps'])
        self.p_in = r.choice([1.0, 1.0, 0.8, 0.6])
        self.ordered = r.random() < 0.6
        self.repeat = r.random() < 0.4
        self.memo = {}
        self.named = {}

    def rand(self, *key):
        h = hashlib.sha256(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:6], 'big')

    # -- leaves ---------------------------------------------------------------
    def sym(self, t):
        if t in self.named:
            return self.named[t]
        m = SYM[t]
        if t.args[0].startswith('@'):
            raise Outside('state symbol')
        k = m.get('kind')
        if k == 'num':
            v = self.number(t, m)
        elif k == 'str':
            v = Tok(('text', t.args[0]))
        elif k == 'arr' and m.get('rank', 1) == 1:
            n = self.ev(m['len']) if m.get('len') is not None else Fr(self.nlines)
            e = m.get('elem')
            if e == 'str':
                v = [Tok(('text', t.args[0], i)) for i in range(int(n))]
            elif e in (None, 'num') and not (set(m) - {'kind', 'rank', 'elem', 'len', 'root', 'name'}):
                v = [POOL[self.rand(t.args[0], i) % len(POOL)] for i in range(int(n))]
            else:
                raise Outside('array')
        else:
            raise Outside('symbol %s' % k)
        self.named[t] = v
        return v

    def number(self, t, m):
        lo, hi = m.get('lo'), m.get('hi')
        if isinstance(lo, T):
            lo = self.ev(lo)
        if isinstance(hi, T):
            hi = self.ev(hi)
        for i in range(40):
            if m.get('int'):
                v = Fr(self.rand('int', t.args[0], i) % 4)
                if lo is not None:
                    v += math.ceil(lo)
            else:
                v = POOL[self.rand('num', t.args[0], i) % len(POOL)]
            if (lo is None or v >= lo) and (hi is None or v <= hi) and not (m.get('pos') and v <= 0) and not (m.get('nz') and v == 0):
                return v
        raise Outside('range of %s' % t.args[0])

    def field(self, tok):
        """the number written in a field of a line"""
        line, j = None, []
        x = tok
        while isinstance(x, Tok):
            if x[0] == 'line':
                line = x
                break
            if x[0] == 'part':
                j.append(x[2])
                x = x[1][1]
            else:
                break
        if line is None:
            return POOL[self.rand('float', tok) % len(POOL)]
        _, path, i = line
        key = (path, tuple(j))
        last = Fr(j[0]) if j else Fr(0)
        if last == 3 or last == 0:                       # a clock
            if self.ordered:
                return Fr(1600000000) + Fr(int(i) * 7 + self.rand('t', path) % 5) / 4
            return Fr(1600000000) + Fr(self.rand('t', key, int(i)) % 16) / 4 + Fr(int(i), 1000)
        pool = {'any': POOL, 'near': NEAR, 'smooth': SMOOTH, 'across': ACROSS, 'run': RUN, 'gaps': SMOOTH}[self.style]
        if self.style == 'gaps' and self.rand(key, int(i), 'gap') % 4 == 0:
            return NANTOK
        if self.style in ('smooth', 'across', 'run', 'gaps'):
            return pool[(self.rand(path) % 3 + int(i) + (1 if self.rand(key, int(i), 'skip') % 9 == 0 else 0)) % len(pool)]
        return pool[self.rand('f', key, int(i)) % len(pool)]

    # -- terms ----------------------------------------------------------------
    def ev(self, t):
        k = (t, tuple(self.named.get(s) if not isinstance(self.named.get(s), list) else tuple(map(str, self.named[s]))
                      for s in sorted(t.fs, key=lambda s: s.id) if s.args[0].startswith(('@', 'k#')) or '#' in s.args[0]))
        r = self.memo.get(k)
        if r is None:
            try:
                r = self._ev(t)
            except (Outside, Undefined) as e:
                r = e
            except (ZeroDivisionError, OverflowError, ValueError) as e:
                r = Outside(str(e))
            self.memo[k] = r
        if isinstance(r, Exception):
            raise r
        return r

    def _ev(self, t):
        f = getattr(self, 'e_' + t.op, None)
        if f is None:
            raise Outside(t.op)
        return f(t)

    def val(self, x):
        return self.ev(x)

    def n(self, t):
        v = self.ev(t)
        if not isinstance(v, (Fr, float)) or isinstance(v, bool):
            raise Outside('number expected')
        return v

    def i(self, t):
        v = self.n(t)
        if isinstance(v, float) or v.denominator != 1:
            raise Outside('integer expected')
        return int(v)

    def truth(self, t):
        v = self.ev(t)
        if not isinstance(v, bool):
            raise Outside('truth value expected')
        return v

    def e_num(self, t):
        return t.args[0]

    def e_str(self, t):
        return Tok(('str', t.args[0]))

    def e_bool(self, t):
        return t.args[0]

    def e_none(self, t):
        return Tok(('none',))

    def e_undef(self, t):
        raise Undefined('undefined')

    def e_nan(self, t):
        return Tok(('nan',))

    def e_pi(self, t):
        return math.pi

    def e_utc(self, t):
        return Tok(('utc',))

    def e_sym(self, t):
        return self.sym(t)

    def e_ite(self, t):
        return self.ev(t.args[1] if self.truth(t.args[0]) else t.args[2])

    def e_grp(self, t):
        return self.ev(t.args[0])

    def e_poly(self, t):
        s = Fr(0)
        for m, c in t.args[0]:
            p = c
            for a, e in m:
                b = self.ev(a)
                if isinstance(b, bool):
                    b = Fr(int(b))
                if isinstance(b, Tok):
                    if b[0] == 'nan':
                        return b
                    raise Outside('arithmetic on a token')
                if isinstance(b, list):
                    raise Outside('array arithmetic')
                if e.denominator == 1:
                    if b == 0 and e < 0:
                        raise Outside('division by zero')
                    p = p * b ** int(e)
                else:
                    if b < 0:
                        raise Outside('root')
                    p = p * float(b) ** float(e)
            s = s + p
        return s

    def e_lt0(self, t):
        v = self.ev(t.args[0])
        return False if isinstance(v, Tok) and v[0] == 'nan' else self.cmp0(v) < 0

    def e_le0(self, t):
        v = self.ev(t.args[0])
        return False if isinstance(v, Tok) and v[0] == 'nan' else self.cmp0(v) <= 0

    def e_eq0(self, t):
        v = self.ev(t.args[0])
        return False if isinstance(v, Tok) and v[0] == 'nan' else self.cmp0(v) == 0

    def cmp0(self, v):
        if isinstance(v, bool):
            v = Fr(int(v))
        if isinstance(v, float):
            if abs(v) < 1e-9:
                raise Outside('comparison within rounding')
            return v
        if not isinstance(v, Fr):
            raise Outside('comparison')
        return v

    def e_isnan(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, (Fr, float)):
            return False
        if isinstance(v, Tok) and v[0] == 'nan':
            return True
        raise Outside('isnan of a token')

    def e_unwrap(self, t):
        a, P = self.ev(t.args[0]), self.n(t.args[1])
        if not isinstance(a, list) or not all(isinstance(x, (Fr, float)) for x in a):
            raise Outside('order of tokens')
        out, turns = a[:1], 0
        for x, y in zip(a, a[1:]):
            d = float(y - x) / float(P)
            if abs(abs(d) % 1 - .5) < 1e-6:
                raise Outside('half a turn')
            turns -= math.floor(d + .5)
            out.append(y + turns * P)
        return out

    def e_eq(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if isinstance(a, Tok) or isinstance(b, Tok):
            if isinstance(a, Tok) and isinstance(b, Tok) and a[0] == b[0] == 'str':
                return a == b
            raise Outside('equality of tokens')
        return a == b

    def unary(f):
        def g(self, t):
            return f(float(self.n(t.args[0])))
        return g
    e_sin, e_cos, e_tan, e_exp, e_atan = unary(math.sin), unary(math.cos), unary(math.tan), unary(math.exp), unary(math.atan)

    def e_abs(self, t):
        v = self.ev(t.args[0])
        return v if isinstance(v, Tok) and v[0] == 'nan' else abs(self.n(t.args[0]))

    def e_sign(self, t):
        v = self.cmp0(self.ev(t.args[0]))
        return Fr((v > 0) - (v < 0))

    def exact(self, t):
        v = self.n(t)
        if isinstance(v, float):
            raise Outside('rounding of a rounded number')
        return v

    def e_floor(self, t):
        return Fr(math.floor(self.exact(t.args[0])))

    def e_ceil(self, t):
        return Fr(math.ceil(self.exact(t.args[0])))

    def e_int(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, bool):
            return Fr(int(v))
        return Fr(math.trunc(self.exact(t.args[0])))

    def e_round(self, t):
        return Fr(round(self.exact(t.args[0])))

    def e_roundn(self, t):
        n = self.i(t.args[1])
        return Fr(round(self.exact(t.args[0]) * 10 ** n)) / 10 ** n

    def e_mod(self, t):
        a, b = self.exact(t.args[0]), self.exact(t.args[1])
        if b == 0:
            raise Outside('division by zero')
        return a - b * math.floor(a / b)

    def e_min(self, t):
        return min(self.flat(t))

    def e_max(self, t):
        return max(self.flat(t))

    def flat(self, t):
        out = []
        for a in (t.args[0] if type(t.args[0]) is tuple else t.args):
            v = self.ev(a)
            out += v if isinstance(v, list) else [v]
        if not out:
            raise Undefined('empty')
        if not all(isinstance(x, (Fr, float)) for x in out):
            raise Outside('order of tokens')
        return out

    def e_truthy(self, t):
        v = self.ev(t.args[0])
        if isinstance(v, bool):
            return v
        if isinstance(v, (Fr, list)):
            return v != 0 if isinstance(v, Fr) else bool(v)
        raise Outside('truth of a token')

    # -- arrays -----------------------------------------------------------------
    def binder(self, t):
        n = self.i(t.args[0])
        if n > 60:
            raise Outside('size')
        v, bodies = tm.open_(t)
        return n, v, bodies

    def at(self, v, i, body):
        old = self.named.get(v)
        self.named[v] = Fr(i)
        try:
            return self.ev(body)
        finally:
            if old is None:
                del self.named[v]
            else:
                self.named[v] = old

    def test(self, v, i, body):
        r = self.at(v, i, body)
        if not isinstance(r, bool):
            raise Outside('truth value expected')
        return r

    def lazily(self, v, i, body):
        try:
            return self.at(v, i, body)
        except Undefined:
            return Tok(('undef',))

    def e_map(self, t):
        n, v, (b,) = self.binder(t)
        return [self.lazily(v, i, b) for i in range(n)]

    def e_filt(self, t):
        n, v, (p, b) = self.binder(t)
        return [self.lazily(v, i, b) for i in range(n) if self.test(v, i, p)]

    def e_cmap(self, t):
        n, v, (b,) = self.binder(t)
        out = []
        for i in range(n):
            r = self.at(v, i, b)
            if not isinstance(r, list):
                raise Outside('array expected')
            out += r
        return out

    def e_any(self, t):
        n, v, (p,) = self.binder(t)
        return any([self.test(v, i, p) for i in range(n)])

    def e_count(self, t):
        n, v, (p,) = self.binder(t)
        return Fr(sum(self.test(v, i, p) for i in range(n)))

    def e_sum(self, t):
        n, v, (b,) = self.binder(t)
        s = Fr(0)
        for i in range(n):
            x = self.at(v, i, b)
            if isinstance(x, bool):
                x = Fr(int(x))
            if not isinstance(x, (Fr, float)):
                raise Outside('sum')
            s += x
        return s

    def e_first(self, t):
        n, v, (p,) = self.binder(t)
        for i in range(n):
            if self.test(v, i, p):
                return Fr(i)
        raise Undefined('no such element')

    def e_last(self, t):
        n, v, (p,) = self.binder(t)
        for i in range(n - 1, -1, -1):
            if self.test(v, i, p):
                return Fr(i)
        raise Undefined('no such element')

    def e_rmin(self, t, f=min):
        n, v, (b,) = self.binder(t)
        xs = [self.at(v, i, b) for i in range(n)]
        if not xs:
            raise Undefined('empty')
        if not all(isinstance(x, Fr) for x in xs):
            raise Outside('order of tokens')
        return f(xs)

    def e_rmax(self, t):
        return self.e_rmin(t, max)

    def e_fold(self, t):
        n = self.i(t.args[0])
        v, (init, p, body) = tm.open_(t)
        s = self.ev(init)
        old = self.named.get(p)
        try:
            for i in range(n):
                self.named[p] = s
                s = self.at(v, i, body)
        finally:
            if old is None:
                self.named.pop(p, None)
            else:
                self.named[p] = old
        return s

    def e_vec(self, t):
        return [self.lazy(x) for x in t.args]

    def lazy(self, x):
        try:
            return self.ev(x)
        except Undefined:
            return Tok(('undef',))

    e_tup = e_vec

    def e_concat(self, t):
        out = []
        for x in t.args:
            v = self.ev(x)
            if not isinstance(v, list):
                raise Outside('array expected')
            out += v
        return out

    def e_index(self, t):
        a = self.ev(t.args[0])
        i = self.i(t.args[1])
        if isinstance(a, Tok) and a[0] == 'split':
            return Tok(('part', a, i))
        if not isinstance(a, list):
            raise Outside('index')
        if not -len(a) <= i < len(a):
            raise Undefined('index out of range')
        if isinstance(a[i], Tok) and a[i][0] == 'undef':
            raise Undefined('undefined')
        return a[i]

    def e_len(self, t):
        a = self.ev(t.args[0])
        if not isinstance(a, list):
            raise Outside('length')
        return Fr(len(a))

    def keys(self, t):
        a = self.ev(t)
        if not isinstance(a, list) or not all(isinstance(x, Fr) for x in a):
            raise Outside('order of tokens')
        return a

    def e_unique(self, t):
        return sorted(set(self.keys(t.args[0])))

    def e_nunique(self, t):
        return Fr(len(set(self.keys(t.args[0]))))

    def e_uniqidx(self, t):
        a = self.keys(t.args[0])
        return [Fr(a.index(x)) for x in sorted(set(a))]

    def e_sort(self, t):
        if len(t.args) != 1:
            raise Outside('sort')
        return sorted(self.keys(t.args[0]))

    def e_argsort(self, t):
        if len(t.args) != 1:
            raise Outside('argsort')
        a = self.keys(t.args[0])
        return [Fr(i) for i in sorted(range(len(a)), key=lambda i: a[i])]

    def e_rev(self, t):
        a = self.ev(t.args[0])
        if not isinstance(a, list):
            raise Outside('array expected')
        return a[::-1]

    def e_interp1(self, t):
        x, xp, fp, left, right, period = t.args
        if any(z is not NONE for z in (left, right)):
            raise Outside('interpolation')
        X, xs, fs = self.n(x), self.keys(xp), self.ev(fp)
        if not isinstance(fs, list) or not all(isinstance(f, (Fr, float)) or f == NANTOK for f in fs):
            raise Outside('interpolation of tokens')
        if not xs or len(xs) != len(fs):
            raise Undefined('interpolation')
        if period is not NONE:
            P = self.exact(period)
            w = sorted((a % P, f) for a, f in zip(xs, fs))
            xs, fs = [w[-1][0] - P] + [a for a, _ in w] + [w[0][0] + P], [w[-1][1]] + [f for _, f in w] + [w[0][1]]
            X = X % P
        if any(a > b for a, b in zip(xs, xs[1:])):
            return Tok(('interpolation on decreasing nodes',))
        if X <= xs[0]:
            if X == xs[0] and len(xs) > 1 and xs[1] == xs[0]:
                raise Outside('repeated node')
            return fs[0]
        if X >= xs[-1]:
            return fs[-1]
        for i in range(len(xs) - 1):
            if xs[i] <= X < xs[i + 1]:
                if X == xs[i]:
                    return fs[i]
                if NANTOK in (fs[i], fs[i + 1]):
                    return NANTOK
                return fs[i] + (fs[i + 1] - fs[i]) * (X - xs[i]) / (xs[i + 1] - xs[i])
        raise Outside('interpolation')

    # -- files -------------------------------------------------------------------
    def e_lines(self, t):
        p = self.ev(t.args[0])
        if not (isinstance(p, Tok) and p[0] == 'text'):
            raise Outside('path')
        n = self.nlines if p[-1] != 'p_file' else self.nlines
        n = [n, n, n, max(n - 1, 0), n + 1][self.rand('n', p) % 5]
        ids = list(range(n))
        if self.repeat:
            ids = [self.rand('id', p, i) % (i + 1) if self.rand('r', p, i) % 3 == 0 else i for i in ids]
        return [Tok(('line', p, i)) for i in ids]

    def e_in(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        if not (isinstance(a, Tok) and a[0] == 'str' and isinstance(b, Tok) and b[0] == 'line'):
            raise Outside('in')
        return self.rand('in', a, b) % 1000 < self.p_in * 1000

    def e_split(self, t):
        a = self.ev(t.args[0])
        if not (isinstance(a, Tok) and a[0] in ('line', 'part')):
            raise Outside('split')
        s = self.ev(t.args[1]) if isinstance(t.args[1], T) else Tok(('sep', t.args[1]))
        return Tok(('split', a, s))

    def e_float(self, t):
        a = self.ev(t.args[0])
        if isinstance(a, Fr):
            return a
        if isinstance(a, Tok) and a[0] == 'part':
            return self.field(a)
        raise Outside('float')

    def e_fromtimestamp(self, t):
        return Tok(('instant', self.n(t.args[0]), tuple(self.ev(x) for x in t.args[1:])))

    def e_timestamp(self, t):
        d = t.args[0]
        if d.op == 'datetime' and d.args[7].op == 'utc':
            import datetime as dt
            f = [self.ev(x) for x in d.args[:7]]
            if all(isinstance(x, Fr) and x.denominator == 1 for x in f):
                try:
                    z = dt.datetime(*map(int, f)) - dt.datetime(1970, 1, 1)
                except ValueError:
                    raise Outside('date')
                return Fr(z.days) * 86400 + z.seconds + Fr(z.microseconds, 10 ** 6)
        a = self.ev(d)
        if isinstance(a, Tok) and a[0] == 'instant':
            return a[1]
        raise Outside('timestamp')

    def e_df(self, t):
        n, cols, ext = t.args
        if ext is not NONE:
            raise Outside('open frame')
        return {'n': self.ev(n), 'cols': {c: self.ev(x) for c, x in cols}}


def same(a, b):
    """b, where it is defined, is a"""
    if isinstance(b, Tok) and b[0] == 'undef':
        return True
    if isinstance(a, bool) and isinstance(b, (Fr, float)):
        a = Fr(int(a))
    if isinstance(b, bool) and isinstance(a, (Fr, float)):
        b = Fr(int(b))
    if isinstance(a, (Fr, float)) and isinstance(b, (Fr, float)):
        if isinstance(a, float) or isinstance(b, float):
            return abs(float(a) - float(b)) <= 1e-7 * max(1, abs(float(a)), abs(float(b)))
        return abs(a - b) <= Fr(1, 10 ** 9) * max(1, min(abs(b), 1000))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        if not same(a['n'], b['n']):
            return False
        ca, cb = dict(a['cols']), dict(b['cols'])
        if '<index>' not in cb:
            ca.pop('<index>', None)
        return ca.keys() == cb.keys() and all(same(ca[k], cb[k]) for k in cb)
    return type(a) is type(b) and a == b


def where_differs(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if not same(a['n'], b['n']):
            return path + '<length>', a['n'], b['n']
        for k in b['cols']:
            if k not in a['cols']:
                return '%s[%s]' % (path, k), 'missing', 'present'
            if not same(a['cols'][k], b['cols'][k]):
                return where_differs(a['cols'][k], b['cols'][k], '%s[%s]' % (path, getattr(k, 'args', [k])[0]))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + '<length>', len(a), len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where_differs(x, y, '%s[%d]' % (path, i))
    return path, a, b


def fmt(x):
    if isinstance(x, Fr):
        return str(float(x)) if x.denominator != 1 else str(x)
    if isinstance(x, dict):
        return 'a table of %s rows' % fmt(x['n'])
    if isinstance(x, list):
        return 'an array of %d elements' % len(x)
    if isinstance(x, Tok) and x[0] == 'instant':
        return 'the instant %s' % fmt(x[1])
    return str(x)


def refute(a, b, tries=120, admit=None):
    """None, or (place, value of a, value of b) in a structure where b is defined and a is not the same"""
    ok = 0
    for s in range(tries):
        m = Model(s)
        try:
            y = m.ev(b)
            if admit and not admit(m, y):
                continue
        except (Outside, Undefined):
            continue
        try:
            x = m.ev(a)
        except Outside:
            continue
        except Undefined:
            return '', 'no value', fmt(y), s
        ok += 1
        if not same(x, y):
            p, u, v = where_differs(x, y)
            return p, fmt(u), fmt(v), s
    return None
