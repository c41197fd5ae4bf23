"""Models, second half: builtins, strings, regular expressions, dates, methods."""
import re as _re
try:
    from re import _parser as _sre
except ImportError:                      # pragma: no cover
    import sre_parse as _sre
from . import terms as tm
from . import lib as L
from .terms import (T, mk, sym, fresh, num, string, boolc, ite, band, bor, bnot, truthy, index, length, isarr, rank, kind,
                    const_of, unk, unk_fresh, vec, concat, map_, mapf, filt, cmap, subst, ew, eq, lt, le, add, sub, mul, div,
                    slice_, TRUE, FALSE, NONE, UNDEF, EMPTY, ZERO, ONE, TWO, NAN, PI, Fr)

__all__ = ['call', 'method', 'getattr', 'setattr', 'joinT', 'match_group', 'CALLS', 'bind', 'fn', 'Unmodelled', 'DATABASE', 'isnan']

_getattr = getattr
CALLS = {}
METHODS = {}


class Unmodelled(Exception):
    pass


def fn(*names):
    def deco(f):
        for n in names:
            CALLS[n] = f
        return f
    return deco


class NS(dict):
    __getattr__ = dict.__getitem__


def bind(sig, args, kw, ignore=()):
    """bind call arguments to 'a b=default' names; unknown keywords are unmodelled"""
    out = NS()
    names = []
    for s in sig.split():
        n, eqs, d = s.partition('=')
        names.append(n)
        out[n] = None
    if len(args) > len(names):
        raise Unmodelled('too many arguments')
    for n, a in zip(names, args):
        out[n] = a
    for k, v in kw.items():
        if k in out and (k not in names[:len(args)]):
            out[k] = v
        elif k in ignore:
            continue
        else:
            raise Unmodelled('keyword ' + k)
    return out


def given(v):
    return v is not None and not (isinstance(v, T) and v.op == 'none')


def call(I, name, args, kw):
    stub = I.stubs.get(name)
    if stub is not None:
        return stub(I, args, kw)
    out = kw.get('out') if name.startswith('numpy.') else None
    if out is not None and L.okind(I, out) == 'arr':
        # the result is stored in an array of the caller's
        r = call(I, name, args, {k: v for k, v in kw.items() if k != 'out'})
        t = fz(I, r)
        I.write_arr(out, t if tm.isarr(t) else L.fill(I.obj(out).c, t), 'result stored in an array')
        return out
    f = CALLS.get(name)
    if f is None:
        short = name.split('.')
        if len(short) > 1:
            f = CALLS.get('*.' + short[-1]) if short[0] in ('numpy', 'math') else None
    if f is not None:
        try:
            return f(I, args, kw)
        except Unmodelled:
            pass
    I.undecided.append((name, I.line))
    return uncall(I, name, args, kw)


def uncall(I, name, args, kw):
    fz = I.freeze
    return unk(name, *[fz(a) for a in args], *[mk('kw', k, fz(v)) for k, v in sorted(kw.items())])


def fz(I, v):
    return I.freeze(v)


def F(I, v, default=None):
    return default if v is None else I.freeze(v)


# --------------------------------------------------------------------------
# terms used here
# --------------------------------------------------------------------------
tm.NUMOPS |= {'timestamp', 'tonum', 'count_s'}
tm.STROPS |= {'after', 'title', 'strftime', 'errstr'}
tm.BOOLOPS |= {'isnumstr', 'isupper', 'isspace'}
tm.ARROPS |= {'sorted', 'dfcols'}
for _o in ('sorted',):
    tm.RANK[_o] = lambda a: 1
    tm.LEN[_o] = lambda a: length(a[0])
DTOPS = {'settz', 'astz', 'dtparts', 'nowtz', 'dtreplace'}
_kind0 = tm.kind


def _kind(t):
    if t.op in DTOPS:
        return 'dt'
    return _kind0(t)


tm.kind = _kind
# the functions of terms refer to the module global, which is now this one
L.kind = _kind


# --------------------------------------------------------------------------
# regular expressions
# --------------------------------------------------------------------------
_pat = {}


def canon(pat):
    """(canonical pattern, number of groups, canonical pattern without its optional tail, anchored)"""
    r = _pat.get(pat)
    if r is None:
        try:
            tree = _sre.parse(pat)
        except Exception:
            return None
        items = [_node(x) for x in _flatnodes(tree)]
        ng = tree.state.groups - 1
        core = list(items)
        while core and core[-1][0] == 'rep' and core[-1][1] == 0 and not _hasgroup(core[-1]):
            core.pop()
        anch = bool(items) and items[0] == ('at', 'AT_BEGINNING_STRING')
        if items and items[0] == ('at', 'AT_BEGINNING'):
            items[0] = core[0] = ('at', 'AT_BEGINNING_STRING')
            anch = True
        r = _pat[pat] = (repr(items), ng, repr(core), anch)
    return r


def _hasgroup(n):
    if isinstance(n, tuple):
        return n[:1] == ('group',) or any(_hasgroup(x) for x in n)
    if isinstance(n, list):
        return any(_hasgroup(x) for x in n)
    return False


def _flatnodes(tree):
    out = []
    for op, av in tree:
        if str(op) == 'SUBPATTERN' and av[0] is None and not av[1] and not av[2]:
            out.extend(_flatnodes(av[3]))
        else:
            out.append((op, av))
    return out


def _node(x):
    op, av = x
    o = str(op)
    if o == 'LITERAL':
        return ('lit', av)
    if o == 'NOT_LITERAL':
        return ('notlit', av)
    if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub_ = av
        return ('rep', int(lo), int(hi) if str(hi) != 'MAXREPEAT' else -1, o, [_node(y) for y in _flatnodes(sub_)])
    if o == 'SUBPATTERN':
        return ('group' if av[0] is not None else 'grp', av[1:3], [_node(y) for y in _flatnodes(av[3])])
    if o == 'IN':
        items = sorted(repr(_node(y)) for y in av)
        if len(av) == 1:
            n = _node(av[0])
            if n[0] == 'lit':
                return n
            if n == ('range', (48, 57)):
                return ('in', [repr(('cat', 'CATEGORY_DIGIT'))])
        items = [repr(('cat', 'CATEGORY_DIGIT')) if i == repr(('range', (48, 57))) else i for i in items]
        return ('in', sorted(items))
    if o == 'CATEGORY':
        return ('cat', str(av))
    if o == 'RANGE':
        return ('range', tuple(av))
    if o == 'AT':
        return ('at', str(av))
    if o == 'ANY':
        return ('any',)
    if o == 'BRANCH':
        return ('branch', [[_node(y) for y in _flatnodes(b)] for b in av[1]])
    if o == 'NEGATE':
        return ('neg',)
    return (o, repr(av))


class Pat:
    """a compiled pattern: canonical term and group count"""

    def __init__(self, t, pre='', flags=None):
        self.src = t
        self.ng = None
        if t.op == 'str':
            c = canon(pre + t.args[0])
            if c is not None:
                self.full, self.ng, self.core, self.anch = c
                self.full, self.core = string(self.full), string(self.core)
                self.text = pre + t.args[0]
                return
        elif t.op == 'cat' and all(a.op != 'ite' for a in t.args):
            # groups of the constant parts
            txt = ''.join(a.args[0] if a.op == 'str' else 'X' for a in t.args)
            c = canon(pre + txt)
            if c is not None:
                self.ng = c[1]
        self.full = self.core = L.cat(string(pre), t) if pre else t
        self.anch = bool(pre)
        self.text = None


def pattern(I, v, pre=''):
    from .interp import Lib
    t = fz(I, v)
    if t.op == 'repat':
        t = t.args[0]
    return Pat(t, pre)


def findall_term(I, p, s):
    return mk('findall', p.full, s, p.core)


def _canon_first(a, k):
    """first match / existence only depend on the pattern without its optional tail"""
    return mk('findall', a.args[2], a.args[1], a.args[2])


_index0 = tm.index


def _index(a, k):
    if a.op == 'findall' and k is ZERO and a.args[0] is not a.args[2] and not (a.args[0].op == 'str' and "('group'" not in a.args[0].args[0]):
        a = _canon_first(a, k)
    elif a.op == 'split':
        r = _split_index(a, k)
        if r is not None:
            return r
    elif a.op == 'ravel' and k.op != 'ite' and a.args[0].op != 'ite':
        m = length(index(a.args[0], ZERO))
        return _index0(_index0(a.args[0], tm.floordiv(k, m)), tm.mod(k, m))
    return _index0(a, k)


def _split_index(a, k):
    s, sep, mx = a.args
    c = const_of(k)
    if c is not None and c >= 0 and mx is not NONE and mx.op == 'num':
        if c < mx.args[0]:
            return _index0(mk('split', s, sep, NONE), k)
        if c == mx.args[0] and sep is not NONE:
            t = s
            for _ in range(int(c)):
                t = after(t, sep)
            return t
    if c is not None and c >= 0 and c > 0 and mx is NONE and False:
        return None
    return None


tm.index = _index
tm.BUILD['index'] = _index
_mods = [tm, L]


def after(s, sep):
    """text of s after the first sep ('' when absent)"""
    if s.op == 'ite':
        return tm._hoist(lambda x: after(x, sep), (s,))
    if s.op == 'str' and sep.op == 'str':
        return string(s.args[0].partition(sep.args[0])[2])
    return mk('after', s, sep)


tm.APP['after'] = after


def split_term(s, sep, mx=NONE):
    if s.op == 'ite':
        return tm._hoist(lambda x: split_term(x, sep, mx), (s,))
    if s.op == 'str' and (sep is NONE or sep.op == 'str') and (mx is NONE or mx.op == 'num'):
        return vec(*[string(x) for x in s.args[0].split(None if sep is NONE else sep.args[0], -1 if mx is NONE else int(mx.args[0]))])
    if mx.op == 'num' and mx.args[0] < 0:
        mx = NONE
    if s.op == 'join' and s.args[0] is sep and mx is NONE and False:
        return s.args[1]
    return mk('split', s, sep, mx)


tm.APP['split'] = split_term
tm.RANK['split'] = lambda a: 1


def _truthy_findall(t):
    # existence of a match
    if t.args[0] is not t.args[2]:
        t = _canon_first(t, ZERO)
    return mk('matches', t.args[0], t.args[1])


_truthy0 = tm.truthy


def _truthy(t):
    if t.op == 'match':
        return _truthy(t.args[0])
    if t.op == 'findall':
        return _truthy_findall(t)
    if t.op == 'map' and t.args[0].op == 'len' and t.args[0].args[0].op == 'findall':
        return _truthy_findall(t.args[0].args[0])
    if t.op == 'split':
        return TRUE if t.args[1] is not NONE else _truthy0(t)
    if t.op == 'dict' and t.args[0]:
        return TRUE
    return _truthy0(t)


tm.truthy = _truthy
tm.BUILD['truthy'] = _truthy
L.truthy = _truthy
truthy = _truthy
index = _index
L.index = _index

_eq00 = tm.eq0


def _eq0(p):
    if p.op == 'len' and p.args[0].op == 'findall':
        return bnot(_truthy_findall(p.args[0]))
    return _eq00(p)


tm.eq0 = _eq0
tm.BUILD['eq0'] = _eq0
_lt00 = tm.lt0


def _lt0(p):
    # 0 < len(findall)
    if p.op == 'poly' and len(p.args[0]) == 1:
        (m, c), = p.args[0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len' and m[0][0].args[0].op == 'findall':
            return _truthy_findall(m[0][0].args[0]) if c < 0 else FALSE
    return _lt00(p)


tm.lt0 = _lt0
tm.BUILD['lt0'] = _lt0


def refocus(I, p, s):
    """the match list; where the path condition says that the pattern matches at the
    start of s, its first element is that match"""
    f = findall_term(I, p, s)
    if p.text is None or p.anch:
        return f, None
    a = Pat(string(p.text), r'\A')
    fa = findall_term(I, a, s)
    c = _truthy_findall(fa)
    from .interp import simp
    if simp(c, I.st.pc) is TRUE:
        return f, index(fa, ZERO)
    return f, None


def groups_of(m, ng):
    """value of one findall element"""
    if ng == 0:
        return index(m, ZERO)
    if ng == 1:
        return index(m, ONE)
    return mk('tup', *[index(m, num(i + 1)) for i in range(ng)])


tm.ELEM['groups'] = 'str'


@fn('re.compile')
def re_compile(I, args, kw):
    if kw or len(args) > 1:
        raise Unmodelled('flags')
    return mk('repat', fz(I, args[0]))


@fn('re.findall', 're.finditer')
def re_findall(I, args, kw):
    return re_any(I, 'findall', args, kw)


@fn('re.search')
def re_search(I, args, kw):
    return re_any(I, 'search', args, kw)


@fn('re.match')
def re_match(I, args, kw):
    return re_any(I, 'match', args, kw)


@fn('re.fullmatch')
def re_fullmatch(I, args, kw):
    return re_any(I, 'fullmatch', args, kw)


def re_any(I, how, args, kw):
    b = bind('pattern string flags', args, kw)
    if given(b.flags):
        raise Unmodelled('flags')
    s = fz(I, b.string)
    pre = {'match': r'\A', 'fullmatch': r'\A'}.get(how, '')
    p = pattern(I, b.pattern, pre)
    if how == 'fullmatch':
        t = fz(I, b.pattern)
        t = t.args[0] if t.op == 'repat' else t
        p = Pat(L.cat(t, string(r'\Z')), r'\A')
    if p.ng is None:
        raise Unmodelled('pattern')
    if how == 'findall':
        f, first = refocus(I, p, s)
        m = mapf(length(f), lambda k: groups_of(index(f, k), p.ng))
        if first is not None:
            return I.alloc('list', (concat(vec(groups_of(first, p.ng)), slice_(m, ONE, None, None)), ()))
        # the element at 0 is canonical
        m = mk('matchlist', m, groups_of(index(f, ZERO), p.ng), f)
        return I.alloc('list', (m, ()))
    f, first = refocus(I, p, s)
    return mk('match', f if first is None else findall_term(I, Pat(string(p.text), r'\A'), s), p.ng)


tm.ARROPS.add('matchlist')
tm.RANK['matchlist'] = lambda a: 1
tm.LEN['matchlist'] = lambda a: length(a[2])


def _index2(a, k):
    if a.op == 'matchlist':
        if k is ZERO:
            return a.args[1]
        if k.op == 'ite':
            return tm._hoist(_index2, (a, k))
        return _index(a.args[0], k)
    return _index(a, k)


def _truthy2(t):
    if t.op == 'matchlist':
        return _truthy_findall(t.args[2])
    return _truthy(t)


for _m in (tm, L):
    _m.index = _index2
    _m.truthy = _truthy2
tm.BUILD['index'] = _index2
tm.BUILD['truthy'] = _truthy2
index, truthy = _index2, _truthy2


def match_group(m, k):
    if k.op == 'str' or m.op != 'match':
        return unk('group', m, k)
    return index(index(m.args[0], ZERO), k)


@fn('re.sub')
def re_sub(I, args, kw):
    b = bind('pattern repl string count flags', args, kw)
    if given(b.flags):
        raise Unmodelled('flags')
    from .interp import Func
    s, p = fz(I, b.string), fz(I, b.pattern)
    if given(b.count):
        lit, r = (_literal(p.args[0]), fz(I, b.repl)) if p.op == 'str' else (None, None)
        if lit is None or isinstance(b.repl, Func) or r.op != 'str' or '\\' in r.args[0]:
            raise Unmodelled('count')
        n = fz(I, b.count)
        return replace_term(s, string(lit), r) if n is ZERO else replace_term(s, string(lit), r, n)
    if isinstance(b.repl, Func):
        raise Unmodelled('function')
    return resub(p, fz(I, b.repl), s)


def resub(p, r, s):
    if s.op == 'ite':
        return tm._hoist(lambda x: resub(p, r, x), (s,))
    if p.op == 'repat':
        p = p.args[0]
    if p.op == 'str':
        if s.op == 'str' and r.op == 'str':
            try:
                return string(_re.sub(p.args[0], r.args[0], s.args[0]))
            except _re.error:
                pass
        c = canon(p.args[0])
        if c is not None and r.op == 'str' and '\\' not in r.args[0]:
            lit = _literal(p.args[0])
            if lit is not None:
                return replace_term(s, string(lit), r)
            if p.args[0] in ('$', '^', r'\Z', r'\A', r'\b') and r.args[0] == '':
                return s
            # alternatives of single characters, one after another
            alts = _charset(p.args[0])
            if alts is not None and r.args[0] == '':
                for ch in sorted(alts):
                    s = replace_term(s, string(ch), r)
                return s
            return mk('resub', string(c[0]), r, s)
    return mk('resub', p, r, s)


def _literal(p):
    try:
        tree = _flatnodes(_sre.parse(p))
    except Exception:
        return None
    out = ''
    for op, av in tree:
        if str(op) != 'LITERAL':
            n = _node((op, av))
            if n[0] == 'lit':
                out += chr(n[1])
                continue
            return None
        out += chr(av)
    return out or None


def _charset(p):
    """set of single characters a pattern stands for, or None"""
    try:
        tree = _flatnodes(_sre.parse(p))
    except Exception:
        return None
    if len(tree) != 1:
        return None
    op, av = tree[0]
    if str(op) == 'IN' and all(str(o) == 'LITERAL' for o, _ in av):
        return {chr(a) for _, a in av}
    if str(op) == 'BRANCH':
        out = set()
        for b in av[1]:
            if len(b) != 1 or str(b[0][0]) != 'LITERAL':
                return None
            out.add(chr(b[0][1]))
        return out
    return None


def replace_term(s, a, b, n=None):
    if s.op == 'ite':
        return tm._hoist(lambda x: replace_term(x, a, b, n), (s,))
    if n is not None and const_of(n) != -1:
        m = const_of(n)
        if m is not None and m == int(m) and s.op == 'str' and a.op == 'str' and b.op == 'str':
            return string(s.args[0].replace(a.args[0], b.args[0], int(m)))
        return mk('replace', s, a, b, n)
    if s.op == 'str' and a.op == 'str' and b.op == 'str':
        return string(s.args[0].replace(a.args[0], b.args[0]))
    if a is b:
        return s
    if b.op == 'str' and b.args[0] == '' and a.op == 'str' and len(a.args[0]) == 1 and s.op == 'replace' and len(s.args) == 3 and \
            s.args[2] is b and s.args[1].op == 'str' and len(s.args[1].args[0]) == 1 and s.args[1].args[0] > a.args[0]:
        return mk('replace', replace_term(s.args[0], a, b), s.args[1], b)
    return mk('replace', s, a, b)


tm.APP['replace'] = replace_term


@fn('re.split')
def re_split(I, args, kw):
    b = bind('pattern string maxsplit flags', args, kw)
    p = fz(I, b.pattern)
    lit = _literal(p.args[0]) if p.op == 'str' else None
    if lit is None or given(b.flags):
        raise Unmodelled('split')
    return I.alloc('list', (split_term(fz(I, b.string), string(lit), F(I, b.maxsplit, NONE)), ()))


@fn('re.escape')
def re_escape(I, args, kw):
    t = fz(I, args[0])
    if t.op == 'str':
        return string(_re.escape(t.args[0]))
    return mk('reescape', t)


# --------------------------------------------------------------------------
# builtins
# --------------------------------------------------------------------------
@fn('builtins.len')
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, tuple):
        return num(len(v))
    k = L.okind(I, v)
    if k == 'list':
        base, tail = I.obj(v).c
        return add(length(base), num(len(tail)))
    if k == 'dict':
        d, extra = I.obj(v).c
        if any(isinstance(x, T) and any(l.op == 'absent' for l in tm.leaves(x)) for x in d.values()):
            return unk_fresh('len', fz(I, v))
        return add(num(len(d)), length(extra))
    if k == 'df':
        t = I.obj(v).c
        return tm._leafmap(t, lambda l: L.as_df(l).args[0] if l.op != 'undef' else UNDEF)
    s = None
    from .interp import Seq
    if isinstance(v, Seq):
        return v.n
    t = fz(I, v)
    if t.op == 'formatb':
        return num(t.args[1])
    return length(t)


@fn('builtins.range')
def b_range(I, args, kw):
    from .interp import Seq
    a = [fz(I, x) for x in args]
    lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    if any(x.op == 'ite' for x in (lo, hi, st)):
        t = tm._hoist(lambda x, y, z: tm.rangeT(x, y, z), (lo, hi, st))
        return Seq(length(t), lambda k: index(t, k), src=t)
    n = tm.range_len(lo, hi, st)
    return Seq(n, lambda k: add(lo, mul(st, k)))


@fn('builtins.enumerate')
def b_enumerate(I, args, kw):
    from .interp import Seq
    b = bind('it start', args, kw)
    s = I.seq(b.it)
    st = F(I, b.start, ZERO)
    if s.n is None:
        raise Unmodelled('enumerate')
    return Seq(s.n, lambda k: (add(k, st), s.get(k)))


@fn('builtins.zip')
def b_zip(I, args, kw):
    from .interp import Seq
    if not args:
        return I.newlist([])
    ss = [I.seq(a) for a in args]
    if any(s.n is None for s in ss):
        raise Unmodelled('zip')
    ns = [s.n for s in ss]
    n = ns[0]
    for m in ns[1:]:
        if m is not n:
            n = tm.minmax('min', [n, m])
    return Seq(n, lambda k: tuple(s.get(k) for s in ss))


@fn('builtins.iter')
def b_iter(I, args, kw):
    return I.seq(args[0])


@fn('builtins.next')
def b_next(I, args, kw):
    from .interp import Seq
    s = args[0]
    k = L.okind(I, s)
    if k == 'file':
        return L.file_method(I, s, 'readline', [], {})
    t = fz(I, s)
    if t.op == 'filt':
        n, _, _, _ = t.args
        v, (p, b) = tm.open_(t)
        ex = tm.any_(n, v, p)
        val = subst(b, {v: tm.first_(n, v, p)})
        if len(args) > 1:
            return I.choose(ex, lambda: I.thaw(val), lambda: args[1])
        I.may_raise(bnot(ex), 'StopIteration')
        return I.thaw(val)
    if isarr(t):
        if len(args) > 1:
            return I.choose(bnot(tm.eq0(length(t))), lambda: I.thaw(index(t, ZERO)), lambda: args[1])
        return I.thaw(index(t, ZERO))
    raise Unmodelled('next')


def items_of(I, args):
    if len(args) == 1:
        return None, args[0]
    return list(args), None


def _bminmax(op):
    def f(I, args, kw):
        if 'key' in kw:
            raise Unmodelled('key')
        if len(args) > 1:
            ts = [fz(I, a) for a in args]
            if any(tm.kind(t) in ('str', 'dt') for t in ts):
                raise Unmodelled('min of strings')
            return tm.minmax(op, ts)
        s = args[0]
        t = fz(I, s)
        if 'default' in kw:
            return ite(tm.eq0(length(t)), fz(I, kw['default']), L.reduce_minmax(op, t))
        if rank(t) == 2:
            return unk(op, t)
        return L.reduce_minmax(op, t)
    return f


CALLS['builtins.min'] = _bminmax('min')
CALLS['builtins.max'] = _bminmax('max')


@fn('builtins.sum', 'math.fsum')
def b_sum(I, args, kw):
    b = bind('it start', args, kw)
    t = fz(I, b.it)
    if tm.elemkind(t) in ('str', 'dt'):
        raise Unmodelled('sum')
    if rank(t) == 2:
        r = L.tm_sum(t, 0)
    elif isarr(t) or t.op == 'vec':
        r = L.tm_sum(t)
    else:
        r = L.tm_sum(t)
    if given(b.start):
        if L.okind(I, b.start) == 'list' and rank(t) == 2:
            raise Unmodelled('sum of lists')
        r = add(r, fz(I, b.start))
    return L.wrap(I, r)


@fn('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs')
def b_abs(I, args, kw):
    return L.wrap(I, ew(absx, [fz(I, args[0])]))


def absx(x):
    if x.op in ('dtdiff', 'timedelta'):
        return mk('tdabs', x)
    return tm.absT(x)


@fn('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'math.trunc')
def b_int(I, args, kw):
    if not args:
        return ZERO
    t = fz(I, args[0])
    if len(args) > 1:
        if t.op == 'str' and const_of(fz(I, args[1])) is not None:
            try:
                return num(int(t.args[0], int(const_of(fz(I, args[1])))))
            except ValueError:
                pass
        return mk('int', t, fz(I, args[1]))
    if isarr(t):
        return L.wrap(I, ew(toint, [t]))
    I.may_raise(raises_num(t, 'int'), 'ValueError')
    return toint(t)


def toint(x):
    if x.op == 'bitchar':
        return x.args[0]
    if x.op == 'ite':
        return tm._hoist(toint, (x,))
    if tm.is_bool(x):
        return ite(x, ONE, ZERO)
    if x.op == 'float' and False:
        return x
    return tm.toint(x)


def raises_num(t, how):
    """condition under which int()/float() of t fails"""
    if t.op == 'ite':
        return tm._leafmap(t, lambda l: raises_num(l, how))
    k = kind(t)
    if k in ('num', 'bool') or t.op in ('nan', 'inf'):
        return FALSE
    if t.op == 'str':
        try:
            (int if how == 'int' else float)(t.args[0])
            return FALSE
        except ValueError:
            return TRUE
    if k == 'none':
        return TRUE
    return bnot(mk('isnumstr', how, t))


@fn('builtins.float', 'numpy.float64', 'numpy.float32', 'numpy.double')
def b_float(I, args, kw):
    if not args:
        return ZERO
    t = fz(I, args[0])
    if isarr(t):
        return L.wrap(I, ew(tofloat, [t]))
    I.may_raise(raises_num(t, 'float'), 'ValueError')
    return tofloat(t)


def tofloat(x):
    if x.op == 'bitchar':
        return x.args[0]
    if x.op == 'str' and x.args[0].strip().lower() in ('nan', '+nan', '-nan'):
        return NAN
    if x.op == 'str' and x.args[0].strip().lower() in ('inf', '+inf', 'infinity'):
        return tm.INF
    if tm.is_bool(x) and x.op != 'ite':
        return ite(x, ONE, ZERO)
    return tm.tofloat(x)


@fn('builtins.str', 'numpy.str_')
def b_str(I, args, kw):
    if not args:
        return string('')
    return L.strof(fz(I, args[0]))


@fn('builtins.repr')
def b_repr(I, args, kw):
    return mk('fmt', '!r', fz(I, args[0]))


@fn('builtins.bool')
def b_bool(I, args, kw):
    return I.truth(args[0]) if args else FALSE


@fn('builtins.list')
def b_list(I, args, kw):
    return L.tolist(I, args[0]) if args else I.newlist([])


@fn('builtins.tuple')
def b_tuple(I, args, kw):
    if not args:
        return ()
    if isinstance(args[0], tuple):
        return args[0]
    s = I.seq(args[0])
    c = const_of(s.n) if s.n is not None else None
    if c is not None:
        return tuple(s.get(num(i)) for i in range(int(c)))
    return L.tolist(I, args[0])


@fn('builtins.set', 'builtins.frozenset')
def b_set(I, args, kw):
    if not args:
        return I.newlist([])
    l = L.tolist(I, args[0])
    t = fz(I, l)
    if t.op == 'vec' and all(x.op in ('str', 'num') for x in t.args):
        return I.newlist(list(dict.fromkeys(t.args)))
    return mk('set', t)


@fn('builtins.dict.fromkeys')
def b_fromkeys(I, args, kw):
    t = fz(I, L.tolist(I, args[0]))
    if t.op == 'vec' and all(x.op in ('str', 'num') for x in t.args):
        return I.newdict({x: args[1] if len(args) > 1 else NONE for x in dict.fromkeys(t.args)})
    return mk('unk', mk('str', 'builtins.dict.fromkeys'), t)


@fn('builtins.dict')
def b_dict(I, args, kw):
    r = I.newdict({})
    if args:
        v = args[0]
        if L.okind(I, v) == 'dict':
            I.put(r, I.obj(r).with_(c=(dict(I.obj(v).c[0]), I.obj(v).c[1])))
        else:
            r = L.dict_from_pairs(I, fz(I, L.tolist(I, v)))
    for k, v in kw.items():
        L.store(I, r, string(k), v)
    return r


@fn('builtins.sorted', 'numpy.sort')
def b_sorted(I, args, kw):
    if kw:
        raise Unmodelled('sort')
    t = fz(I, args[0])
    if t.op == 'vec' and all(x.op == 'num' for x in t.args):
        return I.newlist(sorted(t.args, key=lambda x: x.args[0]))
    if t.op == 'vec' and all(x.op == 'str' for x in t.args):
        return I.newlist(sorted(t.args, key=lambda x: x.args[0]))
    if not isarr(t):
        s = I.seq(args[0])
        t = I.freeze_seq(s)
    return I.alloc('arr', mk('sort', t))


@fn('builtins.reversed')
def b_reversed(I, args, kw):
    from .interp import Seq
    s = I.seq(args[0])
    if s.n is None:
        raise Unmodelled('reversed')
    return Seq(s.n, lambda k: s.get(sub(sub(s.n, ONE), k)))


@fn('builtins.map')
def b_map(I, args, kw):
    return mapcall(I, args[0], args[1:])


def mapcall(I, f, seqs):
    from .interp import Seq
    ss = [I.seq(a) for a in seqs]
    if any(s.n is None for s in ss):
        raise Unmodelled('map')
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n:
            n = tm.minmax('min', [n, s.n])
    c = const_of(n)
    if c is not None and c <= tm.MAXVEC:
        return I.newlist([I.call(f, [s.get(num(i)) for s in ss], {}) for i in range(int(c))])
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
    x = fz(I, I.call(f, [s.get(k) for s in ss], {}))
    return I.alloc('list', (map_(n, k, x), ()))


@fn('builtins.filter')
def b_filter(I, args, kw):
    s = I.seq(args[1])
    if s.n is None:
        raise Unmodelled('filter')
    c = const_of(s.n)

    def pred(x):
        if isinstance(args[0], T) and args[0].op == 'none':
            return I.truth(x)
        return I.truth(I.call(args[0], [x], {}))
    if c is not None and c <= tm.MAXVEC:
        out = EMPTY
        for i in range(int(c)):
            x = s.get(num(i))
            out = concat(out, ite(pred(x), vec(fz(I, x)), EMPTY))
        return I.listof(out)
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=s.n)
    x = s.get(k)
    p = pred(x)
    return I.alloc('list', (filt(s.n, k, p, fz(I, x)), ()))


def as_array(I, v):
    """array term of any iterable"""
    t = fz(I, v)
    return t


@fn('builtins.any', 'numpy.any')
def b_any(I, args, kw):
    b = bind('a axis', args, kw)
    t = as_array(I, b.a)
    if given(b.axis):
        ax = const_of(fz(I, b.axis))
        if ax in (1, -1) and rank(t) == 2:
            return L.wrap(I, L.rows(t, L.any_of))
        if ax == 0 and rank(t) == 2:
            return L.wrap(I, L.rows(tm.transpose(t), L.any_of))
        if not (rank(t) == 1 and ax == 0):
            raise Unmodelled('axis')
    return L.any_of(t)


@fn('builtins.all', 'numpy.all')
def b_all(I, args, kw):
    b = bind('a axis', args, kw)
    t = as_array(I, b.a)
    if given(b.axis):
        raise Unmodelled('axis')
    return L.all_of(t)


@fn('builtins.print')
def b_printf(I, args, kw):
    f = kw.get('file')
    from .interp import Ref
    if isinstance(f, Ref) and I.obj(f).kind in ('file', 'sio'):
        sep, end = (fz(I, kw[k]) if k in kw else string(d) for k, d in (('sep', ' '), ('end', '\n')))
        parts = []
        for i, a in enumerate(args):
            parts += [sep] * bool(i) + [fz(I, a) if kind(fz(I, a)) == 'str' else fz(I, b_str(I, [a], {}))]
        method0(I, f, 'write', [L.cat(*parts, end)], {})
    return NONE


@fn('warnings.warn', 'logging.info', 'logging.warning', 'logging.error', 'logging.debug', 'warnings.filterwarnings',
    'warnings.simplefilter', 'numpy.seterr', 'numpy.set_printoptions', 'gc.collect', 'sys.stdout.write', 'sys.stdout.flush',
    'sys.stderr.write', 'logging.basicConfig', 'time.sleep')
def b_print(I, args, kw):
    return NONE


class Dummy:
    name = 'dummy'


@fn('numpy.errstate', 'warnings.catch_warnings', 'contextlib.suppress', 'contextlib.nullcontext', 'logging.getLogger')
def b_ctx(I, args, kw):
    if args:
        raise Unmodelled('context')
    return mk('func', 'context')


@fn('builtins.type')
def b_type(I, args, kw):
    if len(args) != 1:
        raise Unmodelled('type')
    return L.TypeOf(args[0])


@fn('builtins.isinstance')
def b_isinstance(I, args, kw):
    from .interp import Lib, Cls
    ts = args[1] if isinstance(args[1], tuple) else (args[1],)
    r = FALSE
    for t in ts:
        if isinstance(t, Lib):
            r = bor(r, L.istype(I, args[0], t.name))
        else:
            r = bor(r, mk('instype', fz(I, args[0]), 'other'))
    return r


@fn('builtins.callable')
def b_callable(I, args, kw):
    from .interp import Func, Lib, Py, Bound, Cls
    if isinstance(args[0], (Func, Lib, Py, Bound, Cls)):
        return TRUE
    t = fz(I, args[0])
    if t.op in ('none', 'num', 'str'):
        return FALSE
    return mk('callable', t)


@fn('builtins.hasattr')
def b_hasattr(I, args, kw):
    k = L.okind(I, args[0])
    a = fz(I, args[1])
    if a.op == 'str' and a.args[0] == '__len__':
        if k in ('arr', 'list', 'df', 'dict') or isinstance(args[0], tuple):
            return TRUE
        t = fz(I, args[0])
        if kind(t) in ('arr', 'str'):
            return TRUE
        if kind(t) in ('num', 'bool', 'none'):
            return FALSE
    return mk('hasattr', fz(I, args[0]), a)


@fn('builtins.getattr')
def b_getattr(I, args, kw):
    a = fz(I, args[1])
    if a.op != 'str':
        raise Unmodelled('getattr')
    return I.getattr(args[0], a.args[0])


@fn('builtins.setattr')
def b_setattr(I, args, kw):
    a = fz(I, args[1])
    if a.op != 'str':
        raise Unmodelled('setattr')
    I.setattr(args[0], a.args[0], args[2])
    return NONE


@fn('builtins.format')
def b_format(I, args, kw):
    x = fz(I, args[0])
    spec = fz(I, args[1]) if len(args) > 1 else string('')
    if spec.op != 'str':
        raise Unmodelled('format')
    return formatx(x, spec.args[0])


def formatx(x, spec):
    m = _re.fullmatch(r'0(\d+)b', spec)
    if m and not isarr(x):
        if x.op == 'ite':
            return tm._hoist(lambda y: formatx(y, spec), (x,))
        if x.op == 'num':
            return string(format(int(x.args[0]), spec))
        return mk('formatb', x, int(m.group(1)))
    return _fmt0(x, spec)


_fmt0 = L.fmt
L.fmt = formatx
tm.APP['fmt'] = lambda spec, x: formatx(x, spec) if isinstance(spec, str) else None
tm.LEN['formatb'] = lambda a: num(a[1])


@fn('numpy.binary_repr')
def np_binrepr(I, args, kw):
    b = bind('n width', args, kw)
    w = const_of(F(I, b.width, NONE))
    if w is None:
        raise Unmodelled('binary_repr')
    return formatx(fz(I, b.n), '0%db' % int(w))


@fn('builtins.bin')
def b_bin(I, args, kw):
    return mk('binstr', fz(I, args[0]))


@fn('builtins.round', 'numpy.round', 'numpy.around', 'numpy.rint')
def b_round(I, args, kw):
    b = bind('x n', args, kw)
    n = F(I, b.n, NONE)
    if n is not NONE and n is not ZERO:
        return L.wrap(I, ew(lambda x: tm.app('roundn', x, n), [fz(I, b.x)]))
    return L.wrap(I, ew(lambda x: x if tm.is_int(x) else tm.app('round', x), [fz(I, b.x)]))


tm.NUMOPS |= {'roundn'}


@fn('builtins.pow', 'numpy.power', 'math.pow', 'numpy.float_power')
def b_pow(I, args, kw):
    if len(args) != 2:
        raise Unmodelled('pow')
    return L.wrap(I, ew(tm.powT, [fz(I, args[0]), fz(I, args[1])]))


@fn('builtins.divmod', 'numpy.divmod')
def b_divmod(I, args, kw):
    a, b = fz(I, args[0]), fz(I, args[1])
    return (L.wrap(I, ew(tm.floordiv, [a, b])), L.wrap(I, ew(tm.mod, [a, b])))


@fn('builtins.bytes', 'builtins.bytearray', 'codecs.encode')
def b_bytes(I, args, kw):
    return fz(I, args[0])


@fn('builtins.ord')
def b_ord(I, args, kw):
    t = fz(I, args[0])
    return num(ord(t.args[0])) if t.op == 'str' and len(t.args[0]) == 1 else mk('ord', t)


@fn('builtins.chr')
def b_chr(I, args, kw):
    c = const_of(fz(I, args[0]))
    return string(chr(int(c))) if c is not None else mk('chr', fz(I, args[0]))


@fn('builtins.slice')
def b_slice(I, args, kw):
    from .interp import Slice
    a = list(args)
    if len(a) == 1:
        a = [None, a[0], None]
    while len(a) < 3:
        a.append(None)
    return Slice(*a)


@fn('builtins.open', 'io.open', 'codecs.open')
def b_open(I, args, kw):
    b = bind('file mode buffering encoding errors newline', args, kw)
    m = F(I, b.mode, string('r'))
    mode = m.args[0] if m.op == 'str' else '?'
    r = L.newfile(I, fz(I, b.file), mode)
    if given(b.newline) and False:
        pass
    return r


@fn('tqdm.tqdm', 'tqdm.auto.tqdm', 'tqdm.std.tqdm', 'tqdm.notebook.tqdm')
def b_tqdm(I, args, kw):
    d = kw.get('disable')
    I.event('tqdm', F(I, d, FALSE))
    it = args[0] if args else kw.get('iterable')
    if it is None:
        raise Unmodelled('tqdm')
    return it


@fn('tqdm.trange')
def b_trange(I, args, kw):
    I.event('tqdm', F(I, kw.get('disable'), FALSE))
    return b_range(I, args, {})


# os.path and files
def pathjoin(I, ps):
    ps = [fz(I, p) for p in ps]
    return mk('pathjoin', *ps) if len(ps) > 1 else ps[0]


@fn('os.path.join')
def os_join(I, args, kw):
    return pathjoin(I, args)


@fn('os.path.dirname')
def os_dirname(I, args, kw):
    return mk('dirname', fz(I, args[0]))


@fn('os.path.abspath', 'os.path.realpath', 'os.fspath', 'os.path.normpath', 'os.path.expanduser', 'pathlib.Path', 'pathlib.PurePath',
    'importlib.resources.as_file')
def os_same(I, args, kw):
    return fz(I, args[0]) if len(args) == 1 else pathjoin(I, args)


@fn('os.path.splitext')
def os_splitext(I, args, kw):
    t = fz(I, args[0])
    return (mk('pathroot', t), mk('pathext', t))


tm.STROPS |= {'pathroot', 'pathext', 'basename'}


@fn('os.path.basename')
def os_basename(I, args, kw):
    return mk('basename', fz(I, args[0]))


@fn('os.path.exists', 'os.path.isfile', 'os.path.isdir')
def os_exists(I, args, kw):
    return mk('exists', fz(I, args[0]))


@fn('importlib.resources.files')
def imp_files(I, args, kw):
    return mk('dirname', mk('modfile', 'io'))


DATABASE = {}


def _load_db(I):
    import tomllib
    import os
    p = os.path.join(os.path.dirname(I.files['io']), 'database.toml')
    with open(p, 'rb') as f:
        return tomllib.load(f)


def pyval(I, x, path=None):
    """a Python value; path: the place in the database it comes from"""
    if isinstance(x, dict):
        return I.alloc('dict', ({k: pyval(I, v, None if path is None else path + (k,)) for k, v in x.items()}, EMPTY), frozenset(),
                       None if path is None else ('db', path))
    if isinstance(x, list):
        return I.newlist([pyval(I, v) for v in x])
    return L.const(x)


def is_db(path):
    return path.op == 'pathjoin' and path.args[-1].op == 'str' and path.args[-1].args[0].endswith('database.toml') or \
        path.op == 'cat' and path.args[-1].op == 'str' and path.args[-1].args[0].endswith('database.toml')


@fn('tomllib.load', 'toml.load', 'tomllib.loads', 'toml.loads')
def toml_load(I, args, kw):
    v = args[0]
    if L.okind(I, v) == 'file':
        path = I.obj(v).c['path']
    else:
        t = fz(I, v)
        path = t.args[0] if t.op == 'readall' else t
    script = any(str(vars(f).get('modname')).startswith('example:') for f in I.frames[-1:])
    if is_db(path) or script and path.op == 'str' and path.args[0].endswith('shipgrav/database.toml'):
        I.event('database')
        return pyval(I, _load_db(I), ())
    return mk('toml', path)


@fn('yaml.safe_load', 'yaml.load', 'yaml.full_load')
def yaml_load(I, args, kw):
    v = args[0]
    if getattr(I, 'yaml_content', None) is not None:
        return pyval(I, I.yaml_content)
    if L.okind(I, v) == 'file':
        return mk('yaml', I.obj(v).c['path'])
    t = fz(I, v)
    return mk('yaml', t.args[0] if t.op == 'readall' else t)


@fn('mmap.mmap')
def mm_mmap(I, args, kw):
    t = fz(I, args[0])
    if t.op != 'fileno':
        raise Unmodelled('mmap')
    return L.newfile(I, t.args[0], 'rb', 'mmap')


@fn('io.StringIO')
def io_stringio(I, args, kw):
    r = I.alloc('sio', vec(fz(I, args[0])) if args else EMPTY)
    return r


@fn('io.BytesIO')
def io_bytesio(I, args, kw):
    return io_stringio(I, args, kw)


@fn('copy.copy', 'copy.deepcopy')
def cp_copy(I, args, kw):
    return copyval(I, args[0])


def copyval(I, v):
    from .interp import Ref
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'list':
            return I.alloc('list', o.c)
        if o.kind == 'dict':
            return I.alloc('dict', (dict(o.c[0]), o.c[1]))
        if o.kind in ('arr', 'df'):
            return I.alloc(o.kind, o.c, frozenset(), o.x if o.x == ('int',) else None)
    return v


@fn('functools.lru_cache')
def ft_cache(I, args, kw):
    from .interp import Lib, Func
    if args and isinstance(args[0], Func):
        return args[0]
    return Lib('functools.lru_cache')           # used with parameters: the decorator itself


@fn('functools.cache')
def ft_cache1(I, args, kw):
    return args[0]


@fn('functools.wraps')
def ft_wraps(I, args, kw):
    from .interp import Py
    return Py('wraps', lambda I2, a, k: a[0])


@fn('builtins.globals')
def b_globals(I, args, kw):
    e = I.frames[-1].env
    while I.obj(e).c.get('<parent>') is not None:
        e = I.obj(e).c['<parent>']
    return I.newdict({k: v for k, v in I.obj(e).c.items() if not k.startswith('<')})


@fn('functools.partial')
def ft_partial(I, args, kw):
    from .interp import Py
    f, pre, prekw = args[0], list(args[1:]), dict(kw)

    def run(I2, a, k):
        kk = dict(prekw)
        kk.update(k)
        return I2.call(f, pre + list(a), kk)
    return Py('partial', run)


@fn('functools.reduce')
def ft_reduce(I, args, kw):
    s = I.seq(args[1])
    c = const_of(s.n) if s.n is not None else None
    if c is None or c > tm.MAXVEC:
        raise Unmodelled('reduce')
    items = [s.get(num(i)) for i in range(int(c))]
    if len(args) > 2:
        items.insert(0, args[2])
    r = items[0]
    for x in items[1:]:
        r = I.call(args[0], [r, x], {})
    return r


@fn('itertools.chain')
def it_chain(I, args, kw):
    parts = [fz(I, L.tolist(I, a)) for a in args]
    return I.listof(concat(*parts))


@fn('itertools.chain.from_iterable')
def it_chainfrom(I, args, kw):
    s = I.seq(args[0])
    c = const_of(s.n) if s.n is not None else None
    if c is not None:
        return it_chain(I, [s.get(num(i)) for i in range(int(c))], {})
    if s.n is None:
        raise Unmodelled('chain')
    k = fresh('k', 'num', int=True, lo=Fr(0), ub=s.n)
    return I.alloc('list', (cmap(s.n, k, fz(I, s.get(k))), ()))


@fn('itertools.islice')
def it_islice(I, args, kw):
    from .interp import Slice
    t = fz(I, args[0])
    a = list(args[1:])
    if len(a) == 1:
        a = [None, a[0], None]
    while len(a) < 3:
        a.append(None)
    if not isarr(t):
        raise Unmodelled('islice')
    return L.subscript(I, I.alloc('arr', t), Slice(*a))


@fn('itertools.product')
def it_product(I, args, kw):
    ss = [I.seq(a) for a in args]
    cs = [const_of(s.n) if s.n is not None else None for s in ss]
    if all(c is not None for c in cs):
        import itertools
        out = []
        for ix in itertools.product(*[range(int(c)) for c in cs]):
            out.append(tuple(s.get(num(i)) for s, i in zip(ss, ix)))
        return I.newlist(out)
    if len(ss) == 2 and all(s.n is not None for s in ss):
        from .interp import Seq
        n, m = ss[0].n, ss[1].n
        u = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        w = fresh('k', 'num', int=True, lo=Fr(0), ub=m)
        return I.alloc('list', (cmap(n, u, map_(m, w, mk('tup', fz(I, ss[0].get(u)), fz(I, ss[1].get(w))))), ()))
    raise Unmodelled('product')


@fn('operator.itemgetter')
def op_itemgetter(I, args, kw):
    from .interp import Py
    ks = list(args)

    def run(I2, a, k):
        r = [L.subscript(I2, a[0], x) for x in ks]
        return r[0] if len(r) == 1 else tuple(r)
    return Py('itemgetter', run)


for _n, _f in (('add', L.scalar_add), ('sub', L.scalar_sub), ('mul', L.scalar_mul), ('truediv', L.scalar_div)):
    CALLS['operator.' + _n] = (lambda f: lambda I, args, kw: L.wrap(I, ew(f, [fz(I, args[0]), fz(I, args[1])])))(_f)


# --------------------------------------------------------------------------
# dates
# --------------------------------------------------------------------------
UTC = L.UTC
DTARGS = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo']


def mkdt(I, vals):
    """vals: year..microsecond, tz as terms"""
    h = I.mask.get('dt')
    if h is not None:
        vals = h(vals)
    return hoist_mk('datetime', vals)


def hoist_mk(op, vals):
    if any(v.op == 'ite' for v in vals):
        return tm._hoist(lambda *x: mk(op, *x), vals)
    return mk(op, *vals)


tm.APP['datetime'] = None
del tm.APP['datetime']


@fn('datetime.datetime')
def dt_datetime(I, args, kw):
    b = bind(' '.join(DTARGS), args, kw)
    d = [ZERO, ZERO, ZERO, ZERO, ZERO, ZERO, ZERO, NONE]
    vals = [fz(I, b[n]) if b[n] is not None else x for n, x in zip(DTARGS, d)]
    vals = [vals[i] if i == 7 else toint_dt(v) for i, v in enumerate(vals)]
    return mkdt(I, vals)


def toint_dt(v):
    return v


@fn('datetime.timezone')
def dt_timezone(I, args, kw):
    t = fz(I, args[0])
    if t.op == 'timedelta' and t.args[0] is ZERO:
        return UTC
    return mk('tz', t)


@fn('zoneinfo.ZoneInfo', 'pytz.timezone', 'dateutil.tz.gettz')
def dt_zone(I, args, kw):
    t = fz(I, args[0])
    if t.op == 'str' and t.args[0].upper() in ('UTC', 'ETC/UTC'):
        return UTC
    return mk('tz', t)


@fn('datetime.timedelta')
def dt_timedelta(I, args, kw):
    b = bind('days seconds microseconds milliseconds minutes hours weeks', args, kw)
    f = {'days': 86400, 'seconds': 1, 'microseconds': Fr(1, 10 ** 6), 'milliseconds': Fr(1, 1000), 'minutes': 60, 'hours': 3600, 'weeks': 604800}
    tot = ZERO
    for k, c in f.items():
        if given(b[k]):
            tot = add(tot, mul(num(c), fz(I, b[k])))
    return tm.app('timedelta', tot)


@fn('datetime.datetime.fromtimestamp')
def dt_fromts(I, args, kw):
    b = bind('t tz', args, kw)
    return fromts(fz(I, b.t), F(I, b.tz, NONE))


def fromts(t, tz):
    if t.op == 'ite':
        return tm._hoist(lambda x: fromts(x, tz), (t,))
    return mk('fromtimestamp', t, tz)


tm.APP['fromtimestamp'] = fromts


@fn('datetime.datetime.utcfromtimestamp')
def dt_utcfromts(I, args, kw):
    return settz(fromts(fz(I, args[0]), UTC), NONE)


def settz(d, tz):
    if d.op == 'ite' or tz.op == 'ite':
        return tm._hoist(settz, (d, tz))
    if d.op == 'datetime':
        return mk('datetime', *d.args[:7], tz)
    if d.op == 'settz':
        return settz(d.args[0], tz)
    if d.op == 'fromtimestamp' and d.args[1] is tz:
        return d
    if d.op == 'todt' and d.args[1] is FALSE and tz is UTC:
        return mk('todt', d.args[0], TRUE, *d.args[2:])
    if d.op == 'dtparts' and d.args[0] is FALSE and tz is UTC:
        return mk('dtparts', TRUE, *d.args[1:])
    return mk('settz', d, tz)


tm.APP['settz'] = settz

DIRECTIVES = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2, 'f': None, 'j': None, 'y': 2}


@fn('datetime.datetime.strptime')
def dt_strptime(I, args, kw):
    s, f = fz(I, args[0]), fz(I, args[1])
    return strptime(I, s, f)


def strptime(I, s, f):
    if s.op == 'ite' or f.op == 'ite':
        return tm._hoist(lambda x, y: strptime(I, x, y), (s, f))
    if f.op == 'str' and s.op == 'cat':
        r = align(s, f.args[0])
        if r is not None:
            get = lambda c: r.get(c, ONE if c in 'md' else ZERO)
            y = get('Y')
            mo, d = get('m'), get('d')
            if 'j' in r:
                if 'm' in r or 'd' in r:
                    return mk('strptime', s, f)
                mo, d = mk('doymonth', y, r['j']), mk('doyday', y, r['j'])
            return mkdt(I, [y, mo, d, get('H'), get('M'), get('S'), get('f'), NONE])
    return mk('strptime', s, f)


tm.NUMOPS |= {'doymonth', 'doyday'}


def align(s, f):
    """match the parts of a concatenation with the directives of a strptime format"""
    dirs = _re.findall(r'%(.)|([^%])', f)
    parts = list(s.args)
    out = {}
    i = 0          # part
    off = 0        # offset in a constant part
    n = len(dirs)
    for j, (d, lit) in enumerate(dirs):
        if lit:
            if i >= len(parts) or parts[i].op != 'str' or off >= len(parts[i].args[0]) or parts[i].args[0][off] != lit:
                return None
            off += 1
            if off == len(parts[i].args[0]):
                i, off = i + 1, 0
            continue
        if d not in DIRECTIVES:
            return None
        nxt = dirs[j + 1][1] if j + 1 < n else None
        if j + 1 < n and not nxt:
            return None
        # collect up to the literal nxt
        got = []
        while i < len(parts):
            p = parts[i]
            if p.op == 'str':
                txt = p.args[0][off:]
                k = txt.find(nxt) if nxt is not None else -1
                if k >= 0:
                    if k:
                        got.append(string(txt[:k]))
                    off += k
                    break
                got.append(string(txt))
                i, off = i + 1, 0
            else:
                got.append(p)
                i += 1
        if not got:
            return None
        t = L.cat(*got)
        if t.op == 'fmt' and t.args[0] in ('02d', '06d', '03d', '04d', 'd'):
            if d == 'f' and t.args[0] != '06d':
                return None
            out[d] = t.args[1]
        elif t.op == 'strof':
            if d == 'f':
                return None
            out[d] = t.args[0]
        else:
            if d == 'f':
                return None
            out[d] = toint(t)
    if i < len(parts):
        return None
    if d_missing(out):
        return None
    return out


def d_missing(out):
    return 'Y' not in out


@fn('datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'time.time', 'datetime.date.today')
def dt_now(I, args, kw):
    I.event('clock')
    return unk_fresh('now')


@fn('datetime.datetime.combine', 'datetime.datetime.fromisoformat')
def dt_iso(I, args, kw):
    return mk('strptime', *[fz(I, a) for a in args], string('iso'))


@fn('calendar.timegm')
def cal_timegm(I, args, kw):
    return mk('ufn', 'timegm', fz(I, args[0]))


def astz(d, tz):
    if d.op == 'ite' or tz.op == 'ite':
        return tm._hoist(astz, (d, tz))
    if d.op == 'fromtimestamp' and d.args[1] is not NONE:
        return mk('fromtimestamp', d.args[0], tz)
    if d.op == 'datetime' and d.args[7] is tz:
        return d
    return mk('astz', d, tz)


tm.APP['astz'] = astz
DTOPS.add('tzlocalize')


def zoneof(d):
    """time zone of a time value when it is known (NONE: naive)"""
    if d.op == 'datetime':
        return d.args[7]
    if d.op in ('settz', 'fromtimestamp', 'astz'):
        return d.args[1]
    if d.op == 'strptime':
        return NONE if d.args[1].op == 'str' and '%z' not in d.args[1].args[0] else None
    if d.op == 'todt':
        return UTC if d.args[1] in (TRUE, True) else None
    if d.op == 'dtparts':
        return UTC if d.args[0] in (TRUE, True) else NONE
    return None


def tzlocalize(d, tz):
    """pandas: a naive time gets the zone; an aware one loses it, or cannot be given another"""
    if d.op == 'ite' or tz.op == 'ite':
        return tm._hoist(tzlocalize, (d, tz))
    if d in (UNDEF, tm.NAN):
        return d
    z = zoneof(d)
    if z is None:
        return mk('tzlocalize', d, tz)
    if z is NONE or tz is NONE:
        return settz(d, tz)
    return UNDEF


def tzconvert(d, tz):
    if d.op == 'ite' or tz.op == 'ite':
        return tm._hoist(tzconvert, (d, tz))
    if d in (UNDEF, tm.NAN):
        return d
    if zoneof(d) is NONE:
        return UNDEF
    return settz(astz(d, UTC), NONE) if tz is NONE else astz(d, tz)


tm.APP['tzlocalize'] = tzlocalize


def timestamp(d):
    if d.op == 'ite':
        return tm._hoist(timestamp, (d,))
    if d.op == 'fromtimestamp':
        return d.args[0]
    if d.op == 'astz':
        return timestamp(d.args[0])
    if d.op == 'undef':
        return UNDEF
    if d.op == 'datetime' and d.args[7] is UTC and any(x is not ZERO for x in d.args[3:7]):
        h, m, s, us = d.args[3:7]
        day = mk('timestamp', mk('datetime', *d.args[:3], ZERO, ZERO, ZERO, ZERO, UTC))
        return tm.addn(day, mul(num(3600), h), mul(num(60), m), s, mul(num(Fr(1, 10 ** 6)), us))
    return mk('timestamp', d)


tm.APP['timestamp'] = timestamp


def dtfield(name, d):
    if d.op == 'ite':
        return tm._hoist(lambda x: dtfield(name, x), (d,))
    if d.op == 'datetime':
        return d.args[DTARGS.index(name)]
    if name == 'tzinfo':
        if d.op in ('settz', 'astz', 'fromtimestamp'):
            return d.args[1]
        return mk('tzof', d)
    if d.op == 'settz':
        return dtfield(name, d.args[0])
    return mk('dtfield', name, d)


tm.APP['dtfield'] = dtfield


def tdfield(name, d):
    if d.op == 'ite':
        return tm._hoist(lambda x: tdfield(name, x), (d,))
    if d.op == 'timedelta':
        s = d.args[0]
        if name == 'days':
            return tm.floordiv(s, num(86400))
        if name == 'seconds':
            return tm.floor(tm.mod(s, num(86400)))
    return mk('tdfield', name, d)


tm.APP['tdfield'] = tdfield


def total_seconds(d):
    if d.op == 'ite':
        return tm._hoist(total_seconds, (d,))
    if d.op == 'timedelta':
        return d.args[0]
    return L.tdsec(d)


def dt_method(I, d, name, args, kw):
    if name == 'timestamp':
        return timestamp(d)
    if name == 'replace':
        if args:
            raise Unmodelled('replace')
        r = d
        if 'tzinfo' in kw:
            r = settz(r, fz(I, kw['tzinfo']))
        rest = {k: fz(I, v) for k, v in kw.items() if k != 'tzinfo'}
        if rest:
            if r.op == 'datetime':
                vals = list(r.args)
                for k, v in rest.items():
                    vals[DTARGS.index(k)] = v
                return mk('datetime', *vals)
            return mk('dtreplace', r, *[mk('kw', k, v) for k, v in sorted(rest.items())])
        return r
    if name == 'astimezone':
        return astz(d, fz(I, args[0]) if args else NONE)
    if name in ('strftime',):
        return mk('strftime', d, fz(I, args[0]))
    if name == 'isoformat':
        return mk('strftime', d, string('iso'))
    if name == 'utctimetuple' or name == 'timetuple':
        return mk('timetuple', d)
    if name in ('tz_localize',):
        return tzlocalize(d, tzarg(fz(I, args[0])))
    if name in ('tz_convert',):
        return tzconvert(d, tzarg(fz(I, args[0])))
    if name == 'total_seconds':
        return total_seconds(d)
    if name == 'to_pydatetime':
        return d
    if name == 'utcoffset':
        return mk('utcoffset', d)
    raise Unmodelled('datetime.' + name)


def tzarg(t):
    if t.op == 'str' and t.args[0].upper() == 'UTC':
        return UTC
    return t


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
def _strip(how, s, ch):
    if s.op == 'ite':
        return tm._hoist(lambda x: _strip(how, x, ch), (s,))
    if s.op == 'str' and (ch is NONE or ch.op == 'str'):
        f = {'strip': str.strip, 'lstrip': str.lstrip, 'rstrip': str.rstrip}[how]
        return string(f(s.args[0], None if ch is NONE else ch.args[0]))
    if ch.op == 'str':
        ch = string(''.join(sorted(set(ch.args[0]))))
    if s.op in ('strip', 'lstrip', 'rstrip') and s.args[1] is ch:
        if s.op == how or s.op == 'strip':
            return s
        return mk('strip', s.args[0], ch)
    return mk(how, s, ch)


for _h in ('strip', 'lstrip', 'rstrip'):
    tm.APP[_h] = (lambda h: lambda s, ch: _strip(h, s, ch))(_h)


def joinT(sep, arr):
    if arr.op == 'ite':
        return tm._hoist(lambda x: joinT(sep, x), (arr,))
    if arr.op == 'vec':
        out = []
        for i, x in enumerate(arr.args):
            if i:
                out.append(sep)
            out.append(x)
        return L.cat(*out) if out else string('')
    if sep.op == 'str' and sep.args[0] == '':
        if arr.op == 'concat':
            return L.cat(*[joinT(sep, p) for p in arr.args])
        if arr.op == 'cmap':
            v, (b,) = tm.open_(arr)
            return mk('join', sep, map_(arr.args[0], v, joinT(sep, b)))
        if arr.op == 'filt':
            v, (p, b) = tm.open_(arr)
            return mk('join', sep, map_(arr.args[0], v, ite(p, b, string(''))))
    if sep.op == 'str' and sep.args[0] == '\n' and arr.op in ('concat',):
        pass
    return mk('join', sep, arr)


tm.APP['join'] = joinT


def str_method(I, s, name, args, kw):
    a = [fz(I, x) for x in args]
    if kw and name not in ('split', 'rsplit', 'format', 'encode', 'decode', 'replace', 'splitlines'):
        raise Unmodelled('keyword')
    if name in ('strip', 'lstrip', 'rstrip'):
        return _strip(name, s, a[0] if a else NONE)
    if name == 'split':
        b = bind('sep maxsplit', args, kw)
        return I.alloc('list', (split_term(s, F(I, b.sep, NONE), F(I, b.maxsplit, NONE)), ()))
    if name == 'rsplit':
        b = bind('sep maxsplit', args, kw)
        sep, mx = F(I, b.sep, NONE), F(I, b.maxsplit, NONE)
        if mx is NONE:
            return I.alloc('list', (split_term(s, sep), ()))
        return I.alloc('list', (mk('rsplit', s, sep, mx), ()))
    if name == 'partition':
        sp = split_term(s, a[0])
        return (index(sp, ZERO), ite(L.contains(a[0], s), a[0], string('')), after(s, a[0]))
    if name == 'rpartition':
        sp = split_term(s, a[0])
        return (unk('rpartition', s, a[0]), a[0], index(sp, num(-1)))
    if name == 'join':
        v = args[0]
        t = fz(I, v)
        if L.okind(I, v) is None and not isarr(t):
            t = fz(I, L.tolist(I, v))
        return joinT(s, t)
    if name == 'replace':
        if len(a) > 2 or kw:
            if len(a) > 2 and const_of(a[2]) == -1:
                return replace_term(s, a[0], a[1])
            return replace_term(s, *a) if not kw else unk('replace', s, *a)
        return replace_term(s, a[0], a[1])
    if name == 'startswith':
        return L.startswith(s, a[0]) if len(a) == 1 else unk('startswith', s, *a)
    if name == 'endswith':
        if s.op == 'str' and a[0].op == 'str':
            return boolc(s.args[0].endswith(a[0].args[0]))
        return tm.app('endswith', s, a[0])
    if name in ('find', 'index') and len(a) == 1:
        if s.op == 'str' and a[0].op == 'str':
            return num(s.args[0].find(a[0].args[0]))
        return tm.app('find', s, a[0])
    if name == 'count' and len(a) == 1:
        return sub(length(split_term(s, a[0])), ONE)
    if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold'):
        if s.op == 'str':
            return string({'upper': str.upper, 'lower': str.lower}.get(name, str.title)(s.args[0])) if name in ('upper', 'lower') else mk(name, s)
        return tm.app(name, s)
    if name in ('encode', 'decode'):
        return s
    if name == 'format':
        return L.strformat(I, s, args, kw)
    if name in ('ljust', 'rjust', 'zfill', 'center'):
        if s.op == 'str' and all(x.op in ('num', 'str') for x in a):
            return string({'ljust': str.ljust, 'rjust': str.rjust, 'zfill': str.zfill, 'center': str.center}[name](
                s.args[0], *[int(x.args[0]) if x.op == 'num' else x.args[0] for x in a]))
        return tm.app(name, s, *a)
    if name in ('isdigit', 'isnumeric', 'isdecimal'):
        return tm.app('isdigit', s)
    if name == 'isspace':
        # not empty and only blanks
        return band(truthy(s), bnot(truthy(_strip('strip', s, NONE))))
    if name == 'splitlines':
        if s.op == 'readall':
            return I.alloc('list', (ew(lambda x: _strip('rstrip', x, string('\n')), [mk('lines', s.args[0])]), ()))
        return I.alloc('list', (mk('splitlines', s), ()))
    if name == 'removeprefix':
        if s.op == 'str' and a[0].op == 'str':
            return string(s.args[0].removeprefix(a[0].args[0]))
        if a[0].op == 'str':
            return ite(L.startswith(s, a[0]), L.strslice(s, num(len(a[0].args[0])), None), s)
        return tm.app('rempre', s, a[0])
    if name == 'removesuffix':
        if a[0].op == 'str' and a[0].args[0]:
            return ite(tm.app('endswith', s, a[0]), L.strslice(s, None, num(-len(a[0].args[0]))), s)
        return tm.app('remsuf', s, a[0])
    # pathlib
    if name == 'joinpath':
        return pathjoin(I, [s] + list(args))
    if name == 'open':
        return b_open(I, [s] + list(args), kw)
    if name in ('read_text', 'read_bytes'):
        return mk('readall', s)
    if name in ('resolve', 'absolute', 'as_posix', '__str__', '__fspath__', 'expanduser'):
        return s
    if name in ('get', 'keys', 'items', 'values', 'append'):
        raise Unmodelled(name)
    raise Unmodelled('str.' + name)


# --------------------------------------------------------------------------
# lists and dictionaries
# --------------------------------------------------------------------------
def list_method(I, ref, name, args, kw):
    o = I.obj(ref)
    base, tail = o.c
    if name == 'append':
        I.mutated(ref, 'list appended to')
        I.put(ref, I.obj(ref).with_(c=(base, tail + (args[0],))))
        return NONE
    if name == 'extend':
        s = I.seq(args[0])
        c = const_of(s.n) if s.n is not None else None
        I.mutated(ref, 'list extended')
        if c is not None:
            vals = tuple(s.get(num(i)) for i in range(int(c)))
            base, tail = I.obj(ref).c
            I.put(ref, I.obj(ref).with_(c=(base, tail + vals)))
        else:
            t = s.src if s.src is not None else I.freeze_seq(s) if s.n is not None else unk_fresh('extend')
            I.put(ref, I.obj(ref).with_(c=(concat(fz(I, ref), t), ())))
        return NONE
    if name == 'pop':
        I.mutated(ref, 'list element removed')
        k = const_of(fz(I, args[0])) if args else Fr(-1)
        if tail and k is not None and (k == -1 or base is EMPTY and -len(tail) <= k < len(tail)):
            k = int(k)
            v = tail[k]
            tl = list(tail)
            del tl[k]
            I.put(ref, I.obj(ref).with_(c=(base, tuple(tl))))
            return v
        t = fz(I, ref)
        if k == -1:
            I.may_raise(tm.eq0(length(t)), 'IndexError')
            v = index(t, num(-1))
            I.put(ref, I.obj(ref).with_(c=(slice_(t, None, num(-1), None), ())))
            return I.thaw(v)
        if k == 0:
            v = index(t, ZERO)
            I.put(ref, I.obj(ref).with_(c=(slice_(t, ONE, None, None), ())))
            return I.thaw(v)
        I.put(ref, I.obj(ref).with_(c=(unk_fresh('pop', t), ())))
        return unk_fresh('pop', t)
    if name == 'insert':
        I.mutated(ref, 'list inserted into')
        k = const_of(fz(I, args[0]))
        if base is EMPTY and k is not None:
            tl = list(tail)
            tl.insert(int(k), args[1])
            I.put(ref, I.obj(ref).with_(c=(base, tuple(tl))))
        elif k == 0:
            I.put(ref, I.obj(ref).with_(c=(concat(vec(fz(I, args[1])), fz(I, ref)), ())))
        else:
            I.put(ref, I.obj(ref).with_(c=(unk_fresh('insert', fz(I, ref)), ())))
        return NONE
    if name == 'copy':
        return I.alloc('list', o.c)
    if name == 'clear':
        I.mutated(ref, 'list cleared')
        I.put(ref, I.obj(ref).with_(c=(EMPTY, ())))
        return NONE
    if name == 'index':
        t = fz(I, ref)
        x = fz(I, args[0])
        if t.op == 'vec' and x.op in ('str', 'num') and all(y.op in ('str', 'num') for y in t.args) and x in t.args:
            return num(t.args.index(x))
        n = length(t)
        k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        return tm.first_(n, k, eq(index(t, k), x))
    if name == 'count':
        t = fz(I, ref)
        x = fz(I, args[0])
        return L.tm_sum(ew(lambda y: eq(y, x), [t]))
    if name in ('reverse', 'sort', 'remove'):
        I.mutated(ref, 'list reordered')
        t = fz(I, ref)
        if name == 'reverse':
            I.put(ref, I.obj(ref).with_(c=(EMPTY, tuple(reversed(tail))) if base is EMPTY else (slice_(t, None, None, num(-1)), ())))
        elif name == 'sort' and not kw:
            I.put(ref, I.obj(ref).with_(c=(mk('sort', t), ())))
        else:
            I.put(ref, I.obj(ref).with_(c=(unk_fresh(name, t), ())))
        return NONE
    if name in ('add', 'update', 'discard') :      # sets
        I.mutated(ref, 'set changed')
        I.put(ref, I.obj(ref).with_(c=(unk_fresh('set', fz(I, ref)), ())))
        return NONE
    if name in ('__len__',):
        return b_len(I, [ref], {})
    # numpy-like use of a list value (np results wrapped as lists)
    return arr_method(I, ref, name, args, kw)


def dict_method(I, ref, name, args, kw):
    o = I.obj(ref)
    d, extra = o.c
    cond = any(isinstance(x, T) and any(l.op == 'absent' for l in tm.leaves(x)) for x in d.values())
    if name in ('keys', 'values', 'items'):
        if extra is EMPTY and not cond:
            if name == 'keys':
                return tuple(I.keyval(k) for k in d)
            if name == 'values':
                return tuple(d.values())
            return tuple((I.keyval(k), v) for k, v in d.items())
        if extra is EMPTY and cond and name == 'keys':
            t = EMPTY
            for k, v in d.items():
                p = tm._leafmap(v, lambda l: boolc(l.op != 'absent')) if isinstance(v, T) else TRUE
                t = concat(t, ite(p, vec(I.keyval(k)), EMPTY))
            return I.listof(t)
        return unk('dict.' + name, fz(I, ref))
    if name == 'get':
        b = bind('key default', args, kw)
        return L.dict_get(I, ref, b.key, b.default if b.default is not None else NONE)
    if name == 'pop':
        b = bind('key default', args, kw)
        v = L.dict_get(I, ref, b.key, b.default)
        L.delitem(I, ref, b.key)
        return v
    if name == 'setdefault':
        k = I.key(args[0])
        if I.isconstkey(k) and k in d and not cond:
            return d[k]
        if I.isconstkey(k) and k not in d and extra is EMPTY:
            v = args[1] if len(args) > 1 else NONE
            L.store(I, ref, args[0], v)
            return v
        raise Unmodelled('setdefault')
    if name == 'update':
        v = args[0] if args else None
        if v is not None:
            if L.okind(I, v) == 'dict':
                dd, ex = I.obj(v).c
                for k, x in dd.items():
                    L.store(I, ref, I.keyval(k), x)
                if ex is not EMPTY:
                    o = I.obj(ref)
                    I.put(ref, o.with_(c=(o.c[0], concat(o.c[1], ex))))
            else:
                r = L.dict_from_pairs(I, fz(I, L.tolist(I, v)))
                dict_method(I, ref, 'update', [r], {})
        for k, x in kw.items():
            L.store(I, ref, string(k), x)
        return NONE
    if name == 'copy':
        return I.alloc('dict', (dict(d), extra))
    if name == 'clear':
        I.put(ref, o.with_(c=({}, EMPTY)))
        return NONE
    raise Unmodelled('dict.' + name)


# --------------------------------------------------------------------------
# dispatch
# --------------------------------------------------------------------------
def method(I, recv, name, args, kw):
    try:
        return method0(I, recv, name, args, kw)
    except Unmodelled:
        I.undecided.append((name, I.line))
        from .interp import Ref
        if isinstance(recv, Ref) and I.obj(recv).kind in ('arr', 'list', 'df', 'dict') and (
                name in CHANGERS or 'inplace' in kw and fz(I, kw['inplace']) is not FALSE):
            # the receiver is not known from here on
            u = unk_fresh('after.' + name, fz(I, recv), *[fz(I, a) for a in args])
            k = I.obj(recv).kind
            I.mutated(recv, name)
            I.put(recv, I.obj(recv).with_(c={'arr': u, 'list': (u, ()), 'df': u, 'dict': ({}, u)}[k]))
        return unk('method.' + name, fz(I, recv), *[fz(I, a) for a in args], *[mk('kw', k, fz(I, v)) for k, v in sorted(kw.items())])


CHANGERS = {'append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'clear', 'sort', 'fill', 'put', 'partition', 'resize', 'itemset', 'byteswap',
            'update', 'popitem', 'setdefault', 'appendleft', 'popleft', 'rotate', 'add', 'discard', 'setfield'}


def method0(I, recv, name, args, kw):
    from .interp import Ref, Seq, Lib
    if isinstance(recv, Ref):
        k = I.obj(recv).kind
        if k == 'list':
            return list_method(I, recv, name, args, kw)
        if k == 'dict':
            return dict_method(I, recv, name, args, kw)
        if k == 'arr' and name in ('append', 'extend', 'insert', 'pop'):
            # numpy has no such methods: a list, that was an element of another value
            o = I.obj(recv)
            I.put(recv, type(o)('list', (EMPTY, tuple(I.thaw(x) for x in o.c.args)) if o.c.op == 'vec' else (o.c, ()), o.roots, o.x))
            return list_method(I, recv, name, args, kw)
        if k == 'arr':
            return arr_method(I, recv, name, args, kw)
        if k == 'df':
            return df_method(I, recv, name, args, kw)
        if k == 'file':
            return L.file_method(I, recv, name, args, kw)
        if k == 'sio':
            return L.sio_method(I, recv, name, args, kw)
        raise Unmodelled(name)
    if isinstance(recv, tuple):
        if name in ('index', 'count'):
            return list_method(I, I.newlist(list(recv)), name, args, kw)
        raise Unmodelled(name)
    if isinstance(recv, L.Row):
        if name == 'get':
            return row_get(I, recv, args[0])
        raise Unmodelled(name)
    if isinstance(recv, Acc):
        return acc_method(I, recv, name, args, kw)
    if isinstance(recv, T):
        return term_method(I, recv, name, args, kw)
    if isinstance(recv, Seq):
        raise Unmodelled(name)
    raise Unmodelled(name)


STRM = {'split', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'join', 'partition', 'rpartition', 'splitlines', 'lower',
        'upper', 'isdigit', 'encode', 'decode', 'zfill', 'ljust', 'rjust', 'removeprefix', 'removesuffix', 'rsplit', 'isspace', 'format'}


def term_method(I, t, name, args, kw):
    if t.op == 'ite':
        return I.choose(t.args[0], lambda: method0(I, I.thaw(t.args[1]), name, args, kw),
                        lambda: method0(I, I.thaw(t.args[2]), name, args, kw))
    k = kind(t)
    if t.op == 'undef':
        return UNDEF
    if t.op == 'match':
        if name in ('group', '__getitem__'):
            ks = [fz(I, a) for a in args] or [ZERO]
            r = [match_group(t, x) for x in ks]
            return r[0] if len(r) == 1 else tuple(r)
        if name == 'groups' and not args:
            ng = t.args[1]
            return tuple(match_group(t, num(i + 1)) for i in range(ng))
        raise Unmodelled(name)
    if t.op == 'repat':
        if name in ('findall', 'search', 'match', 'fullmatch', 'finditer'):
            return re_any(I, 'findall' if name == 'finditer' else name, [t] + list(args), kw)
        if name == 'sub':
            return re_sub(I, [t] + list(args), kw)
        if name == 'split':
            return re_split(I, [t.args[0]] + list(args), kw)
        raise Unmodelled(name)
    if k == 'dt' or t.op in ('dtdiff', 'timedelta', 'dtadd'):
        return dt_method(I, t, name, args, kw)
    if t.op == 'sym' and tm.SYM[t]['kind'] == 'any' or t.op in ('attr', 'call', 'effectval'):
        if name in STRM and tm.SYM.get(t, {}).get('pytype') is None and t.op != 'attr' and t.op != 'call':
            return str_method(I, t, name, args, kw)
        return ext_call(I, t, name, args, kw)
    if k == 'str' or name in STRM:
        return str_method(I, t, name, args, kw)
    if t.op == 'ols':
        if name == 'fit' and not args and not kw:
            return mk('fit', t)
        raise Unmodelled(name)
    if k == 'df':
        return df_method(I, I.alloc('df', t), name, args, kw)
    if isarr(t):
        return arr_method(I, I.alloc('arr', t), name, args, kw)
    if k in ('num', 'bool'):
        if name in ('item', 'copy', 'squeeze', 'tolist', 'conjugate'):
            return t
        if name == 'is_integer':
            return eq(t, tm.floor(t))
        if name in ('sum', 'mean', 'min', 'max'):
            return t
        if name == 'astype':
            return np_astype(I, t, args, kw)
        if name == 'any' or name == 'all':
            return truthy(t)
        raise Unmodelled(name)
    # symbolic mapping (yaml)
    if name == 'keys' and not args:
        return I.alloc('list', (mk('keys', t), ()))
    if name == 'get':
        b = bind('key default', args, kw)
        key = fz(I, b.key)
        return I.thaw(ite(mk('iskey', key, t), mk('getitem', t, key), F(I, b.default, NONE)))
    if name == 'items' and not args:
        from .interp import Seq
        ks = mk('keys', t)
        return Seq(length(ks), lambda j: (index(ks, j), I.thaw(mk('getitem', t, index(ks, j)))))
    if name == 'values' and not args:
        ks = mk('keys', t)
        return I.alloc('list', (mapf(length(ks), lambda j: mk('getitem', t, index(ks, j))), ()))
    if name == 'find' and len(args) == 1:
        return str_method(I, t, name, args, kw)
    raise Unmodelled(name)


def external(t):
    """an object of another library (a figure, an event)"""
    while t.op == 'index' and t.args[0].op in ('call', 'index'):
        t = t.args[0]
    return t.op == 'sym' and tm.SYM[t]['kind'] == 'any' and bool(tm.SYM[t].get('external')) or t.op in ('attr', 'call')


def ext_call(I, t, name, args, kw):
    """a call on an external object: an effect with a result"""
    e = I.st.heap.get(0)
    seqno = len(e.c[1]) if e is not None else 0
    a = mk('call', mk('attr', t, name), *[fz(I, x) for x in args], *[mk('kw', k, fz(I, x)) for k, x in sorted(kw.items())])
    if name.startswith('get'):
        return a
    I.effect('call', a)
    return mk('callres', a) if False else a


def getattr(I, v, name):
    from .interp import Ref, Bound, Lib, Seq, Func
    if isinstance(v, Ref):
        o = I.obj(v)
        k = o.kind
        if k == 'arr' or k == 'list':
            r = arr_attr(I, v, name)
            if r is not None:
                return r
            return Bound(v, name)
        if k == 'df':
            r = df_attr(I, v, name)
            if r is not None:
                return r
            return Bound(v, name)
        if k == 'file' and name == 'name':
            return o.c['path']
        if k == 'file' and name == 'closed':
            return bnot(o.c['open'])
        return Bound(v, name)
    if isinstance(v, L.Row):
        if name in ('values', 'index', 'name', 'get', 'to_dict'):
            return Bound(v, name)
        return row_get(I, v, string(name))
    if isinstance(v, Acc):
        return acc_attr(I, v, name)
    if isinstance(v, L.Loc):
        return Bound(v, name)
    if isinstance(v, L.TypeOf):
        if name == '__name__':
            return mk('typename', fz(I, v.v))
        return unk('attr', string(name))
    if isinstance(v, Func) and name in ('__name__', '__doc__'):
        return string(v.name)
    if isinstance(v, T):
        if v.op == 'ite' and not isarr(v):
            return I.choose(v.args[0], lambda: I.getattr(I.thaw(v.args[1]), name), lambda: I.getattr(I.thaw(v.args[2]), name))
        k = kind(v)
        if k == 'dt' or v.op == 'dtadd':
            if name in DTARGS:
                return dtfield(name, v)
            return Bound(v, name)
        if v.op in ('dtdiff', 'timedelta'):
            if name in ('days', 'seconds', 'microseconds'):
                return tdfield(name, v)
            return Bound(v, name)
        if isarr(v):
            r = arr_attr(I, I.alloc('arr', v), name)
            if r is not None:
                return r
            return Bound(v, name)
        if k == 'str':
            if name == 'parent':
                return mk('dirname', v)
            if name == 'stem' or name == 'suffix':
                return unk('path.' + name, v)
            return Bound(v, name)
        if v.op in ('fit', 'ols'):
            return Bound(v, name) if name in ('fit',) else mk('attr', v, name)
        if v.op == 'func' and v.args[0] == 'context':
            return Bound(v, name)
        if k in ('num', 'bool'):
            if name in ('real',):
                return v
            if name == 'shape':
                return ()
            if name in ('size', 'ndim'):
                return ONE if name == 'size' else ZERO
            if name == 'T':
                return v
            if name == 'values':
                return v
            return Bound(v, name)
        if external(v):
            return mkattr(I, v, name)
        return Bound(v, name)
    if isinstance(v, Seq):
        return Bound(v, name)
    return Bound(v, name)


def mkattr(I, v, name):
    return mk('attr', v, name)


def setattr(I, v, name, x):
    k = L.okind(I, v)
    if k == 'df' and name == 'columns':
        o = I.obj(v)
        names = L.names_of(I, x)
        t = o.c
        if names is not None and t.op == 'df' and t.args[2] is NONE and len(names) == len(t.args[1]):
            I.mutated(v, 'columns of a data frame renamed')
            I.put(v, o.with_(c=mk('df', t.args[0], tuple((n, c) for n, (_, c) in zip(names, t.args[1])), NONE)))
            return
        I.put(v, o.with_(c=unk_fresh('frame', t, fz(I, x))))
        return
    if k == 'df':
        o = I.obj(v)
        t = o.c
        if t.op == 'df' and any(n == name for n, _ in t.args[1]):
            L.df_store(I, v, string(name), x)
            return
        return
    if k == 'arr' and name == 'shape':
        from . import lib3
        t = lib3.reshape(I, I.obj(v).c, x)
        I.write_arr(v, t, 'array reshaped in place')
        return
    if k == 'arr' and name in ('name', 'index'):
        return


from .lib3 import *          # noqa: E402,F401,F403
from .lib3 import arr_method, arr_attr, df_method, df_attr, row_get, Acc, acc_method, acc_attr, np_astype, isnan   # noqa: E402
