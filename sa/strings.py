"""Values of string expressions over structured text.

A record layout is a string whose characters are constants or digit symbols (an integer 0..9 each).  refine() rewrites
a value graph bottom-up over such strings: splitting, slicing, stripping, searching and regular expressions are decided
on the layout; int() and float() of a field become the polynomial of its digits.  A test that depends on the value of a
digit is left alone (the term stays opaque)."""
import ast
import re
from . import terms as tm, lib, lib2, lib3
from .terms import (T, mk, num, ite, index, length, const_of, TRUE, FALSE, NONE, UNDEF, ZERO, ONE, Fr, vec, sub, add, mul, BINDERS, BIND, open_)

tm.STROPS.add('cstr')
DIGITS = '0123456789'


class Undec(Exception):
    pass


class Fails(Exception):
    """the operation raises on this text"""


def isdigitsym(c):
    return type(c) is T


def S(cs):
    cs = tuple(cs)
    if all(type(c) is str for c in cs):
        return mk('str', ''.join(cs))
    return mk('cstr', cs)


def chars(t):
    if t.op == 'str':
        return tuple(t.args[0])
    if t.op == 'cstr':
        return t.args[0]
    if t.op == 'cat':
        out = ()
        for x in t.args:
            c = chars(x)
            if c is None:
                return None
            out += c
        return out
    return None


def eqc(a, b):
    """True, False or None (unknown)"""
    if a is b or (type(a) is str and type(b) is str):
        return a == b
    if type(a) is str:
        a, b = b, a
    if type(b) is str:
        return None if b in DIGITS else False
    return None


def match_at(s, w, i):
    r = True
    if i < 0 or i + len(w) > len(s):
        return False
    for j, c in enumerate(w):
        e = eqc(s[i + j], c)
        if e is False:
            return False
        if e is None:
            r = None
    return r


def find(s, w, start=0, last=False):
    rng = range(start, len(s) - len(w) + 1)
    for i in (reversed(rng) if last else rng):
        m = match_at(s, w, i)
        if m is None:
            raise Undec()
        if m:
            return i
    return -1


def isspace(c):
    return type(c) is str and c.isspace()


def split(s, sep, mx=-1):
    out = []
    if sep is None:
        i, n = 0, len(s)
        while True:
            while i < n and isspace(s[i]):
                i += 1
            if i >= n:
                return out
            if mx >= 0 and len(out) >= mx:
                out.append(s[i:])
                return out
            j = i
            while j < n and not isspace(s[j]):
                j += 1
            out.append(s[i:j])
            i = j
    if not sep:
        raise Fails()
    i = 0
    while mx < 0 or len(out) < mx:
        j = find(s, sep, i)
        if j < 0:
            break
        out.append(s[i:j])
        i = j + len(sep)
    out.append(s[i:])
    return out


def rsplit(s, sep, mx):
    if sep is None:
        raise Undec()
    out = []
    while mx < 0 or len(out) < mx:
        j = find(s, sep, last=True)
        if j < 0:
            break
        out.insert(0, s[j + len(sep):])
        s = s[:j]
    out.insert(0, s)
    return out


def inset(c, ch):
    if ch is None:
        return isspace(c)
    for x in ch:
        e = eqc(c, x)
        if e is None:
            # every digit may be in the set
            if all(d in ch for d in DIGITS):
                return True
            raise Undec()
        if e:
            return True
    return False


def strip(s, ch, how):
    i, j = 0, len(s)
    if how in ('strip', 'lstrip'):
        while i < j and inset(s[i], ch):
            i += 1
    if how in ('strip', 'rstrip'):
        while j > i and inset(s[j - 1], ch):
            j -= 1
    return s[i:j]


def toint(s, base=10):
    s = strip(s, None, 'strip')
    sg = 1
    if s[:1] in (('-',), ('+',)):
        sg = -1 if s[0] == '-' else 1
        s = s[1:]
    if not s or any(type(c) is str and c not in DIGITS for c in s):
        raise Fails()
    return mul(num(sg), digits(s))


def digits(s):
    t = ZERO
    n = len(s)
    for i, c in enumerate(s):
        d = num(int(c)) if type(c) is str else c
        t = add(t, mul(num(10 ** (n - 1 - i)), d))
    return t


def tofloat(s):
    s = strip(s, None, 'strip')
    txt = ''.join(c if type(c) is str else '0' for c in s)
    low = txt.lower()
    if low.lstrip('+-') in ('nan',):
        return tm.NAN
    if low.lstrip('+-') in ('inf', 'infinity'):
        return tm.INF if not low.startswith('-') else mul(num(-1), tm.INF)
    try:
        float(txt)
    except ValueError:
        raise Fails()
    sg = 1
    if s[:1] in (('-',), ('+',)):
        sg = -1 if s[0] == '-' else 1
        s = s[1:]
    ex = 0
    for k, c in enumerate(s):
        if c in ('e', 'E'):
            e = s[k + 1:]
            if any(type(z) is T for z in e):
                raise Undec()
            ex = int(''.join(e))
            s = s[:k]
            break
    if '.' in s:
        k = s.index('.')
        a, b = s[:k], s[k + 1:]
    else:
        a, b = s, ()
    v = add(digits(a), mul(num(Fr(1, 10 ** len(b))), digits(b)))
    return mul(num(Fr(sg) * Fr(10) ** ex), v)


# --------------------------------------------------------------------------
# regular expressions on their parsed form
# --------------------------------------------------------------------------
def incat(c, name):
    neg = 'NOT_' in name
    if 'DIGIT' in name:
        r = type(c) is T or c.isdigit()
    elif 'SPACE' in name:
        r = isspace(c)
    elif 'WORD' in name:
        r = type(c) is T or c.isalnum() or c == '_'
    else:
        raise Undec()
    return r != neg


def charmatch(node, c):
    """True, False; Undec when it depends on the digit"""
    op = node[0]
    if op == 'any':
        return c != '\n'
    if op in ('lit', 'notlit'):
        e = eqc(c, chr(node[1]))
        if e is None:
            raise Undec()
        return e == (op == 'lit')
    if op == 'cat':
        return incat(c, node[1])
    if op == 'in':
        items = [ast.literal_eval(x) for x in node[1]]
        neg = ('neg',) in items
        if type(c) is T:
            hits = set()
            for d in DIGITS:
                hits.add(any(onein(x, d) for x in items if x != ('neg',)))
            if len(hits) > 1:
                raise Undec()
            r = hits.pop()
        else:
            r = any(onein(x, c) for x in items if x != ('neg',))
        return r != neg
    raise Undec()


def onein(x, c):
    if x[0] == 'range':
        return x[1][0] <= ord(c) <= x[1][1]
    if x[0] == 'lit':
        return ord(c) == x[1]
    if x[0] == 'cat':
        return incat(c, x[1])
    raise Undec()


def number(nodes, n=None):
    """nodes with the groups numbered"""
    n = n if n is not None else [0]
    out = []
    for x in nodes:
        if x[0] == 'group':
            n[0] += 1
            g = n[0]
            out.append(('group', g, number(x[2], n)))
        elif x[0] == 'grp':
            out.append(('group', 0, number(x[2], n)))
        elif x[0] == 'rep':
            out.append(x[:4] + (number(x[4], n),))
        elif x[0] == 'branch':
            out.append(('branch', [number(b, n) for b in x[1]]))
        else:
            out.append(x)
    return out


def rmatch(nodes, s, i, g, budget):
    """generator of (end, groups) in the order of preference"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Undec()
    if not nodes:
        yield i, g
        return
    x, rest = nodes[0], nodes[1:]
    op = x[0]
    if op == 'at':
        n = len(s)
        a = x[1]
        if a in ('AT_BEGINNING_STRING', 'AT_BEGINNING'):
            ok = i == 0
        elif a == 'AT_END':
            ok = i == n or (i == n - 1 and s[i] == '\n')
        elif a == 'AT_END_STRING':
            ok = i == n
        elif a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
            w = lambda j: 0 <= j < n and incat(s[j], 'CATEGORY_WORD')
            ok = (w(i - 1) != w(i)) == (a == 'AT_BOUNDARY')
        else:
            raise Undec()
        if ok:
            yield from rmatch(rest, s, i, g, budget)
        return
    if op == 'group':
        for j, h in rmatch(x[2], s, i, g, budget):
            h2 = dict(h)
            if x[1]:
                h2[x[1]] = (i, j)
            yield from rmatch(rest, s, j, h2, budget)
        return
    if op == 'branch':
        for b in x[1]:
            for j, h in rmatch(b, s, i, g, budget):
                yield from rmatch(rest, s, j, h, budget)
        return
    if op == 'rep':
        lo, hi, how, body = x[1:5]
        if how == 'POSSESSIVE_REPEAT':
            raise Undec()
        yield from rrep(lo, hi, how == 'MIN_REPEAT', body, rest, s, i, g, 0, budget)
        return
    if i < len(s) and charmatch(x, s[i]):
        yield from rmatch(rest, s, i + 1, g, budget)


def rrep(lo, hi, lazy, body, rest, s, i, g, n, budget):
    if lazy and n >= lo:
        yield from rmatch(rest, s, i, g, budget)
    if hi < 0 or n < hi:
        for j, h in rmatch(body, s, i, g, budget):
            if j == i and n >= lo:
                continue
            yield from rrep(lo, hi, lazy, body, rest, s, j, h, n + 1, budget)
    if not lazy and n >= lo:
        yield from rmatch(rest, s, i, g, budget)


_parsed = {}


def nodes_of(p):
    """node list of a canonical pattern term"""
    if p.op != 'str':
        return None
    r = _parsed.get(p)
    if r is None:
        try:
            r = number(ast.literal_eval(p.args[0]))
        except Exception:                           # noqa: BLE001
            r = False
        _parsed[p] = r
    return r or None


def search(ns, s, start=0):
    for i in range(start, len(s) + 1):
        for j, g in rmatch(ns, s, i, {}, [20000]):
            return i, j, g
    return None


def ngroups(ns):
    return sum((1 if x[0] == 'group' and x[1] else 0) + (ngroups(x[2]) if x[0] == 'group' else ngroups(x[4]) if x[0] == 'rep' else
               sum(ngroups(b) for b in x[1]) if x[0] == 'branch' else 0) for x in ns)


def findall(p, s):
    ns = nodes_of(p)
    if ns is None:
        raise Undec()
    n = ngroups(ns)
    out = []
    i = 0
    while i <= len(s):
        m = search(ns, s, i)
        if m is None:
            break
        a, b, g = m
        out.append(mk('tup', S(s[a:b]), *[S(s[slice(*g[k])]) if k in g else S(()) for k in range(1, n + 1)]))
        i = b if b > a else b + 1
    return out


# --------------------------------------------------------------------------
# strptime
# --------------------------------------------------------------------------
def strptime(s, f):
    out = {}
    i = 0
    k = 0
    while k < len(f):
        if f[k] != '%':
            if f[k].isspace():
                while i < len(s) and isspace(s[i]):
                    i += 1
                k += 1
                continue
            if i >= len(s) or eqc(s[i], f[k]) is False:
                raise Fails()
            if eqc(s[i], f[k]) is None:
                raise Undec()
            i += 1
            k += 1
            continue
        d = f[k + 1]
        k += 2
        w = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'j': 3, 'f': 6, 'y': 2}.get(d)
        if w is None:
            if d == 'z' and s[i:i + 1] == ('Z',):
                out['z'] = lib2.UTC
                i += 1
                continue
            raise Undec()
        j = i
        while j < len(s) and j - i < w and (type(s[j]) is T or s[j] in DIGITS):
            j += 1
        if j == i or (d == 'Y' and j - i < 4):
            raise Fails()
        v = digits(s[i:j])
        if d == 'f':
            v = mul(num(10 ** (6 - (j - i))), v)
        if d == 'y':
            raise Undec()
        out[d] = v
        i = j
    if i != len(s):
        raise Fails()
    if 'Y' not in out:
        out['Y'] = num(1900)
    g = lambda c: out.get(c, ONE if c in 'md' else ZERO)
    mo, d = g('m'), g('d')
    if 'j' in out:
        mo, d = mk('doymonth', out['Y'], out['j']), mk('doyday', out['Y'], out['j'])
    return mk('datetime', out['Y'], mo, d, g('H'), g('M'), g('S'), g('f'), out.get('z', NONE))


# --------------------------------------------------------------------------
# operators
# --------------------------------------------------------------------------
def need(t):
    c = chars(t)
    if c is None:
        raise Undec()
    return c


def cint(t):
    if t is NONE:
        return None
    c = const_of(t)
    if c is None:
        raise Undec()
    return int(c)


def boolt(b):
    return TRUE if b else FALSE


def o_split(s, sep, mx=NONE):
    m = cint(mx)
    return vec(*[S(x) for x in split(need(s), None if sep is NONE else need(sep), -1 if m is None else m)])


def o_rsplit(s, sep, mx=NONE):
    m = cint(mx)
    return vec(*[S(x) for x in rsplit(need(s), None if sep is NONE else need(sep), -1 if m is None else m)])


def o_after(s, sep):
    s, w = need(s), need(sep)
    i = find(s, w)
    return S(s[i + len(w):]) if i >= 0 else S(())


def o_sslice(s, lo, hi):
    return S(need(s)[cint(lo):cint(hi)])


def o_strip(how):
    def f(s, ch):
        return S(strip(need(s), None if ch is NONE else need(ch), how))
    return f


def o_in(w, s):
    return boolt(find(need(s), need(w)) >= 0)


def o_startswith(s, w):
    m = match_at(need(s), need(w), 0)
    if m is None:
        raise Undec()
    return boolt(m)


def o_endswith(s, w):
    s, w = need(s), need(w)
    m = match_at(s, w, len(s) - len(w))
    if m is None:
        raise Undec()
    return boolt(m)


def o_eq(a, b):
    x, y = chars(a), chars(b)
    if x is None or y is None:
        raise Undec()
    if len(x) != len(y):
        return FALSE
    m = match_at(x, y, 0)
    if m is None:
        raise Undec()
    return boolt(m)


def o_find(s, w):
    return num(find(need(s), need(w)))


def o_truthy(s):
    return boolt(len(need(s)) > 0)


def o_len(s):
    return num(len(need(s)))


def o_int(s, base=None):
    return toint(need(s))


def o_float(s):
    return tofloat(need(s))


def o_isnum(how, s=None):
    if s is None:                       # pandas: the empty text is a missing number, names of numbers are not numbers
        how, s = 'float', how
        c = strip(need(s), None, 'strip')
        if not need(s):
            return TRUE
        if any(type(x) is str and x.isalpha() and x not in 'eE' for x in c):
            return FALSE
    s = need(s)
    try:
        (toint if how == 'int' else tofloat)(s)
        return TRUE
    except Fails:
        return FALSE
    except Undec:
        if how == 'int':
            raise
        return TRUE                     # a number whose exponent is not known


def o_isdigit(s):
    s = need(s)
    return boolt(bool(s) and all(type(c) is T or c.isdigit() for c in s))


def o_findall(p, s, core=None):
    return vec(*findall(p, need(s)))


def o_matches(p, s):
    ns = nodes_of(p)
    if ns is None:
        raise Undec()
    return boolt(search(ns, need(s)) is not None)


def o_resub(p, r, s):
    ns = nodes_of(p)
    r, s = need(r), need(s)
    if ns is None or '\\' in r:
        raise Undec()
    out = ()
    i = 0
    while i <= len(s):
        m = search(ns, s, i)
        if m is None:
            break
        a, b, _ = m
        out += s[i:a] + r
        if b == a:
            out += s[b:b + 1]
            i = b + 1
        else:
            i = b
    return S(out + s[i:])


def o_ltgen(a, b):
    p, q = need(a), need(b)
    for x, y in zip(p, q):
        if x is y or x == y:
            continue
        if type(x) is str and type(y) is str:
            return TRUE if x < y else FALSE
        c = x if type(x) is str else y if type(y) is str else None
        if c is None or '0' <= c <= '9':
            raise Undec()
        return TRUE if (c < '0') == (type(x) is str) else FALSE
    return TRUE if len(p) < len(q) else FALSE


def o_replace(s, a, b, n=NONE):
    s, w, r = need(s), need(a), need(b)
    m = cint(n)
    if not w:
        raise Undec()
    out = ()
    i = 0
    while m is None or m != 0:
        j = find(s, w, i)
        if j < 0:
            break
        out += s[i:j] + r
        i = j + len(w)
        m = None if m is None else m - 1
    return S(out + s[i:])


def o_pad(how):
    def f(s, w, ch=None):
        s, w = need(s), cint(w)
        c = (need(ch)[0] if ch is not None else ' ') if how != 'zfill' else '0'
        n = max(0, w - len(s))
        if how == 'ljust':
            return S(s + (c,) * n)
        if how == 'zfill' and s[:1] in (('-',), ('+',)):
            return S(s[:1] + (c,) * n + s[1:])
        return S((c,) * n + s)
    return f


def o_case(how):
    return lambda s: S(c if type(c) is T else getattr(c, how)() for c in need(s))


def o_chars(s):
    return vec(*[S((c,)) for c in need(s)])


def o_pathsplit(k):
    def f(s):
        c = need(s)
        j = len(c) - 1
        while j >= 0 and c[j] not in ('.', '/'):
            j -= 1
        i = j
        while i > 0 and c[i - 1] == '.':
            i -= 1
        if j < 0 or c[j] == '/' or i == 0 or c[i - 1] == '/':      # no dot in the last component but leading ones
            j = len(c)
        return S(c[:j]) if k == 0 else S(c[j:])
    return f


def o_cat(*ps):
    out = []
    for p in ps:
        c = chars(p)
        if c is not None and out and chars(out[-1]) is not None:
            out[-1] = S(chars(out[-1]) + c)
        elif c != ():
            out.append(p)
    if len(out) == 1:
        return out[0]
    if not out:
        return S(())
    return mk('cat', *out)


def o_join(sep, arr):
    if arr.op != 'vec':
        raise Undec()
    out = []
    for i, x in enumerate(arr.args):
        if i:
            out.append(sep)
        out.append(x)
    return o_cat(*out)


def o_strptime(s, f):
    if f.op != 'str':
        raise Undec()
    return strptime(need(s), f.args[0])


def o_index(a, k):
    c = const_of(k)
    if a.op in ('vec', 'tup') and c is not None:
        if not -len(a.args) <= c < len(a.args):
            raise Fails()
        return a.args[int(c)]
    if a.op in ('str', 'cstr') and c is not None:
        s = chars(a)
        if not -len(s) <= c < len(s):
            raise Fails()
        return S((s[int(c)],))
    raise Undec()


def digitsof(x):
    """the decimal digits of an integer that is a sum of digit symbols at distinct places, most significant first"""
    place = {}
    if x.op == 'num':
        v = x.args[0]
        if v.denominator != 1 or v < 0:
            return None
        return tuple(str(v))
    terms = x.args[0] if x.op == 'poly' else [(((x, Fr(1)),), Fr(1))]
    for mon, c in terms:
        if not mon:
            if c.denominator != 1 or c < 0:
                return None
            for i, ch in enumerate(reversed(str(c))):
                if ch != '0':
                    if i in place:
                        return None
                    place[i] = ch
            continue
        if len(mon) != 1 or mon[0][1] != 1 or not isdigitatom(mon[0][0]) or c.denominator != 1 or c <= 0:
            return None
        n = len(str(c)) - 1
        if c != 10 ** n or n in place:
            return None
        place[n] = mon[0][0]
    if not place:
        return None
    return tuple(place.get(i, '0') for i in range(max(place), -1, -1))


def isdigitatom(t):
    return t.op == 'index' and t.args[0].op == 'sym' and str(t.args[0].args[0]).startswith('dg_')


def decimal(x, width=0, fill='0'):
    """the decimal representation of an integer, padded"""
    cs = digitsof(x)
    if cs is None:
        raise Undec()

    def go(i):
        rest = cs[i:]
        out = S((fill,) * max(0, width - len(rest)) + rest)
        if i == len(cs) - 1 or (type(cs[i]) is str and cs[i] != '0') or (fill == '0' and len(cs) - i <= width):
            return out
        if cs[i] == '0':
            return go(i + 1)
        return ite(tm.eq(cs[i], ZERO), go(i + 1), out)
    return go(0)


def o_strof(s):
    if chars(s) is None:
        return decimal(s)
    return s


def o_rempre(s, w):
    s, w = need(s), need(w)
    m = match_at(s, w, 0)
    if m is None:
        raise Undec()
    return S(s[len(w):] if m else s)


def o_remsuf(s, w):
    s, w = need(s), need(w)
    m = match_at(s, w, len(s) - len(w)) if w else False
    if m is None:
        raise Undec()
    return S(s[:len(s) - len(w)] if m else s)


def o_splitlines(s):
    s = need(s)
    parts = split(s, ('\n',))
    if parts and parts[-1] == ():
        parts.pop()
    return vec(*[S(x[:-1] if x[-1:] == ('\r',) else x) for x in parts])


def o_fmt(f, x):
    f = f if isinstance(f, str) else f.args[0] if f.op == 'str' else None
    if f is None:
        raise Undec()
    if f in ('', 's') and chars(x) is not None:
        return x
    m = re.fullmatch(r'(0?)(\d*)d', f)
    if m and chars(x) is None:
        return decimal(x, int(m.group(2) or 0), '0' if m.group(1) else ' ')
    raise Undec()


def o_unk(name, d=None, *rest):
    if d is not None and name == 'method.timestamp' and d.op == 'datetime' and not rest:
        return lib2.timestamp(d)
    raise Undec()


def o_tonum(x, *rest):
    c = chars(x)
    if c is None:
        raise Undec()
    if not c:
        return tm.NAN
    try:
        return tofloat(c)
    except Fails:
        if rest and rest[0] in ('coerce', mk('str', 'coerce')):
            return tm.NAN
        raise


OPS = {'split': o_split, 'rsplit': o_rsplit, 'after': o_after, 'sslice': o_sslice, 'in': o_in, 'startswith': o_startswith,
       'endswith': o_endswith, 'eq': o_eq, 'find': o_find, 'truthy': o_truthy, 'len': o_len, 'int': o_int, 'float': o_float,
       'isnumstr': o_isnum, 'isdigit': o_isdigit, 'findall': o_findall, 'matches': o_matches, 'resub': o_resub, 'replace': o_replace, 'ltgen': o_ltgen,
       'ljust': o_pad('ljust'), 'rjust': o_pad('rjust'), 'zfill': o_pad('zfill'), 'upper': o_case('upper'), 'lower': o_case('lower'),
       'chars': o_chars, 'cat': o_cat, 'join': o_join, 'strptime': o_strptime, 'index': o_index, 'strof': o_strof,
       'fmt': o_fmt, 'unk': o_unk, 'rempre': o_rempre, 'remsuf': o_remsuf, 'splitlines': o_splitlines, 'tonum': o_tonum}
OPS['isnan'] = lambda x: lib2.isnan(x)
OPS['pathroot'], OPS['pathext'] = o_pathsplit(0), o_pathsplit(1)
for _h in ('strip', 'lstrip', 'rstrip'):
    OPS[_h] = o_strip(_h)
SOFT = {'vec', 'tup', 'df', 'map', 'filt', 'concat', 'cmap', 'ite', 'effect', 'dict', 'list', 'unk'}


class Refiner:
    def __init__(self, env):
        self.env = env              # term -> term
        self.memo = {}

    def __call__(self, t):
        return self.go(t)

    def go(self, t):
        if t in self.env:
            return self.env[t]
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._go(t)
        return r

    def positions(self, b, v):
        """a body that picks its position out of a constant number of records, case by case"""
        for q in tm.subterms(b):
            if q.op == 'index' and v in q.args[1].fs and q.args[0].op == 'uniqidx' and q not in self.env:
                x = self.go(q.args[0].args[0])
                if x.op == 'vec' and 1 < len(x.args) <= 16:
                    q2 = index(self.go(q.args[0]), self.go(q.args[1]))
                    out = None
                    for j in reversed(range(len(x.args))):
                        sub = type(self).__new__(type(self))
                        sub.__dict__.update(self.__dict__)
                        sub.env, sub.memo = dict(self.env), {}
                        sub.env[q] = num(j)
                        r = sub.positions(b, v)
                        out = r if out is None else ite(tm.eq(q2, num(j)), r, out)
                    return out
        return self.go(b)

    def expand(self, op, c, v, bodies):
        """a construct over a constant number of positions, position by position"""
        if op == 'fold':
            state, p, step = self.go(bodies[0]), bodies[1], bodies[2]
            for i in range(c):
                state = self.go(tm.subst(step, {v: num(i), p: state}))
            return state
        if op not in ('map', 'filt', 'cmap', 'sum', 'count', 'any', 'first', 'last'):
            return None
        bs = []
        for i in range(c):
            bs.append([])
            for j, b in enumerate(bodies):
                if op == 'filt' and j and bs[-1][0] is FALSE:
                    bs[-1].append(None)
                else:
                    bs[-1].append(self.go(tm.subst(b, {v: num(i)})))
        if op == 'map':
            return vec(*[b[0] for b in bs])
        if op == 'cmap':
            return tm.concat(*[b[0] for b in bs])
        if op == 'filt':
            if all(b[0] in (TRUE, FALSE) for b in bs):
                return vec(*[b[1] for b in bs if b[0] is TRUE])
            return tm.concat(*[ite(b[0], vec(b[1]), tm.EMPTY) for b in bs if b[0] is not FALSE])
        if op == 'sum':
            return tm.addn(*[b[0] for b in bs])
        if op == 'count':
            return tm.addn(*[ite(b[0], ONE, ZERO) for b in bs])
        if op == 'any':
            return tm.bor(*[b[0] for b in bs])
        if all(b[0] in (TRUE, FALSE) for b in bs):
            h = [i for i, b in enumerate(bs) if b[0] is TRUE]
            return num(h[0] if op == 'first' else h[-1]) if h else None
        return None

    def args(self, a):
        return tuple(self.go(x) if type(x) is T else (self.args(x) if type(x) is tuple else x) for x in a)

    def _go(self, t):
        op = t.op
        if op in ('num', 'str', 'sym', 'bool', 'none', 'bv', 'undef'):
            return t
        if op == 'ite':
            c = self.go(t.args[0])
            if c is TRUE:
                return self.go(t.args[1])
            if c is FALSE:
                return self.go(t.args[2])
            return ite(c, self.go(t.args[1]), self.go(t.args[2]))
        if op in BINDERS:
            n = self.go(t.args[0])
            v, bodies = open_(t)
            c = const_of(n)
            if c is not None and 0 <= c <= 64:
                r = self.expand(op, int(c), v, bodies)
                if r is not None:
                    return r
            return BIND[op](n, v, *[self.positions(b, v) for b in bodies])
        if op == 'poly':
            return tm.rebuild(t, self.go)
        a = self.args(t.args)
        return self.apply(op, a, t)

    def apply(self, op, a, t):
        if op == 'unk':
            return t if t is not None and all(p is q for p, q in zip(a, t.args)) else tm.build(op, *a)
        if op in OPS:
            for i, x in enumerate(a):
                if type(x) is T and x.op == 'ite':
                    p, q = [tm.restrict(y, x.args[0], True) if type(y) is T else y for y in a], \
                        [tm.restrict(y, x.args[0], False) if type(y) is T else y for y in a]
                    return ite(x.args[0], self.apply(op, tuple(p), None), self.apply(op, tuple(q), None))
            if any(x is UNDEF for x in a):
                return UNDEF
            try:
                return OPS[op](*a)
            except Undec:
                pass
            except Fails:
                return UNDEF
        elif op not in SOFT and any(x is UNDEF for x in a):
            return UNDEF
        if t is not None and len(a) == len(t.args) and all(p is q for p, q in zip(a, t.args)):
            return t
        return tm.build(op, *a)


def undefs(t):
    return any(x is UNDEF for x in tm.subterms(t))


# --------------------------------------------------------------------------
# layouts
# --------------------------------------------------------------------------
def digit(name):
    return tm.sym('dg_' + name, 'arr', rank=1, elem='num', elemint=True, elemlo=Fr(0), elemhi=Fr(9))


def layout(text, k, tag=''):
    """'$GPGGA,{hh:2}{mm:2}.{f:3},N' : {name:n} stands for n digits of record k"""
    out = []
    i = 0
    while i < len(text):
        if text[i] == '{':
            j = text.index('}', i)
            name, n = text[i + 1:j].split(':')
            for d in range(int(n)):
                out.append(index(digit('%s%s%d' % (tag, name, d)), k))
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    return S(out)


# --------------------------------------------------------------------------
# date texts
# --------------------------------------------------------------------------
DATETEXT = [(r'\s*(\d{4})[-/](\d\d)[-/](\d\d)(?:[T ](\d\d):(\d\d)(?::(\d\d)(?:[.,](\d{1,9}))?)?)?(Z|[+-]00:?00)?\s*', 'YmdHMSfz'),
            (r'\s*(\d\d)/(\d\d)/(\d{4})(?: (\d\d):(\d\d)(?::(\d\d)(?:\.(\d{1,9}))?)?)?(Z)?\s*', 'mdYHMSfz')]


def datetext(cs):
    """(instant of the text as a datetime term) for the date formats pandas recognises by itself"""
    txt = ''.join(c if type(c) is str else '1' for c in cs)
    for rx, names in DATETEXT:
        m = re.fullmatch(rx, txt)
        if m:
            v = {}
            for i, n in enumerate(names, 1):
                if m.group(i) is not None:
                    v[n] = digits(cs[m.start(i):m.end(i)]) if n != 'z' else lib2.UTC
                    if n == 'f':
                        v[n] = mul(num(Fr(10) ** (6 - (m.end(i) - m.start(i)))), v[n])
            return mk('datetime', v['Y'], v['m'], v['d'], v.get('H', ZERO), v.get('M', ZERO), v.get('S', ZERO), v.get('f', ZERO), v.get('z', NONE))
    raise Undec()


def o_todt(x, utc=None, f=None, *rest):
    cs = chars(x)
    if cs is None:
        v = digitsof(x) if f is not None and f is not NONE else None
        if v is None:
            raise Undec()
        cs = v                      # numbers are read through their decimal text when a format is given
    utc = TRUE if utc is True or utc is TRUE else FALSE
    if rest and not all(r.op == 'kw' and r.args[0] == 'errors' for r in rest):
        raise Undec()
    try:
        if f is None or f is NONE or (f.op == 'str' and f.args[0] in ('ISO8601', 'mixed', 'iso')):
            d = datetext(cs)
        elif f.op == 'str':
            d = strptime(cs, f.args[0])
        else:
            raise Undec()
    except Fails:
        if rest:
            return tm.NAN
        raise
    if d.args[7] is NONE and utc is TRUE:
        d = mk('datetime', *d.args[:7], lib2.UTC)
    return d


def o_dtparts(utc, *a):
    utc = utc is True or utc is TRUE
    y, mo, d, h, mi, s = a
    if any(x.op in ('str', 'cstr') for x in a):
        raise Undec()
    return mk('datetime', y, mo, d, h, mi, s, ZERO, lib2.UTC if utc else NONE)


OPS['tzlocalize'] = lambda d, tz: lib2.tzlocalize(d, tz)
OPS['todt'] = o_todt
OPS['dtparts'] = o_dtparts


# --------------------------------------------------------------------------
# records with given digits
# --------------------------------------------------------------------------
RANGES = {'Y': (2001, 2029, 4), 'y': (1, 29, 2), 'm': (1, 12, 2), 'd': (1, 28, 2), 'H': (0, 23, 2), 'M': (0, 59, 2), 'S': (0, 59, 2), 'a': (0, 23, 2), 'b': (0, 59, 2),
          'c': (0, 59, 2), 'j': (1, 365, 3), 'u': (0, 235959, 6), 'la': (0, 89, 2), 'lm': (0, 59, 2), 'lo': (0, 179, 3), 'om': (0, 59, 2)}
DIGITNAME = re.compile(r'dg_((?:r\d+)?)([A-Za-z]+)(\d)$')


class Instance(Refiner):
    """the graph for records with particular digits: what depends on the text has one value"""

    def __init__(self, seed, env, widths):
        Refiner.__init__(self, dict(env))
        self.seed, self.widths = seed, widths

    def rand(self, *key):
        import hashlib
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + key).encode()).digest()[:6], 'big')

    def digit(self, name, k):
        m = DIGITNAME.match(name)
        if not m:
            return self.rand(name, k) % 10
        tag, field, pos = m.group(1), m.group(2), int(m.group(3))
        w = self.widths.get((tag, field), 0)
        r = RANGES.get(field)
        if r and r[2] >= w and (w == r[2] or field == 'j'):
            hi = min(r[1], 10 ** w - 1)
            return int(str(r[0] + self.rand(tag, field, k) % (hi - r[0] + 1)).zfill(w)[pos])
        x = self.rand(tag, field, k, pos) % 13
        style = self.rand(tag, field, k, 'style') % 5
        if style == 0 and pos < w - 1 or style == 1 and pos > 0:
            return 0 if x % 10 else 1
        return 9 if style == 2 and pos > 0 else x if x < 10 else 0

    def _go(self, t):
        if t.op == 'index' and t.args[0].op == 'sym':
            name = t.args[0].args[0]
            k = const_of(self.go(t.args[1]))
            if k is not None and name.startswith('dg_'):
                return num(self.digit(name, int(k)))
            if k is not None and name.startswith('b_kind'):
                return TRUE if self.rand(name, int(k)) % 3 == 0 else FALSE
        if t.op == 'cstr':
            out = []
            for c in t.args[0]:
                x = self.go(c) if type(c) is T else c
                out.append(str(int(x.args[0])) if type(x) is T and x.op == 'num' else x)
            return S(out)
        r = Refiner._go(self, t)
        if r.op in ('round', 'roundn') and const_of(r.args[0]) is not None and (r.op == 'round' or const_of(r.args[1]) is not None):
            n = int(const_of(r.args[1])) if r.op == 'roundn' else 0
            return num(Fr(round(const_of(r.args[0]) * Fr(10) ** n)) / Fr(10) ** n)
        return r


def instances(ts, tries=10):
    """functions that specialise graphs to records with particular digits; none when the graphs are not about digits"""
    names, sizes = {}, set()
    for t in ts:
        for x in t.fs:
            if x.op == 'sym' and x.args[0].startswith('dg_'):
                m = DIGITNAME.match(x.args[0])
                if m:
                    k = m.group(1), m.group(2)
                    names[k] = max(names.get(k, 0), int(m.group(3)) + 1)
            elif x.op == 'sym' and x.args[0] == 'L':
                sizes.add(x)
    if not names:
        return
    for s in range(tries):
        yield Instance(s, {x: num(1 + s % 3) for x in sizes}, names)
