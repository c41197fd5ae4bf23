"""Comparison of two value graphs (code against reference).

Equal normal forms are equal values.  Where normal forms differ, the comparison
descends to the first place where the two graphs disagree and decides there:
constants and inputs that differ are a difference; numeric expressions are
compared by polynomial identity testing over their opaque sub-expressions
(random interpretation: every maximal sub-expression outside the algebra is an
independent unknown, congruent ones the same unknown), so only an algebraic
disagreement counts; anything the analysis has no theory for is 'unknown'
and is never reported.
"""
import cmath
import math
import os
import random
from fractions import Fraction as Fr
from . import terms as tm
from .terms import (T, mk, num, sym, kind, index, length, const_of, restrict, rank, isarr, open_, fresh, show, TRUE, FALSE,
                    NONE, UNDEF, EMPTY, ZERO, ONE, SYM)

EQ, UNK, DIFF = 0, 1, 2
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

# operators whose value is a genuinely different quantity from any expression without them
SAFE = {'sym', 'erf', 'erfcinv'}
INTERP = {'num', 'poly', 'pi', 'sin', 'cos', 'tan', 'exp', 'log', 'atan', 'asin', 'acos', 'atan2', 'abs', 'floor', 'mod',
          'pow', 'min', 'max', 'int', 'float', 'sign', 'ceil', 'ite', 'lt0', 'le0', 'eq0', 'bool', 'grp', 'iunit', 'factorial',
          'nan', 'inf', 'undef', 'log10', 'expo'}
FINITE = {'sum', 'any', 'count', 'prod', 'first', 'rmin', 'rmax', 'last'}
STRVAL = {'str'}
# arrays computed from data whose different elements are different quantities
GENERIC = {'lfilter', 'convolve', 'fft', 'ifft', 'fft2', 'ifft2', 'interp1', 'csvcol'}


class Invalid(Exception):
    pass


class Res:
    __slots__ = ('v', 'a', 'b', 'path', 'note')

    def __init__(self, v, a=None, b=None, path='', note=''):
        self.v, self.a, self.b, self.path, self.note = v, a, b, path, note

    def at(self, p):
        if self.v == EQ:
            return self
        return Res(self.v, self.a, self.b, p + self.path, self.note)


OK = Res(EQ)


def worst(rs):
    """the most serious of the results (generator: stops at the first difference)"""
    w = OK
    for r in rs:
        if r.v == DIFF:
            return r
        if r.v > w.v:
            w = r
    return w


_unk = {}


def has_unk(t):
    r = _unk.get(t)
    if r is None:
        r = t.op in ('unk', 'fold', 'foldv') or any(has_unk(x) for x in tm.kids(t))
        _unk[t] = r
    return r


NUMK = ('num', 'bool')


def scalar_num(t):
    return all(l.op in ('nan', 'undef', 'num', 'poly', 'bool', 'inf') or kind(l) in NUMK for l in tm.leaves(t))


STRCONST = ('str',)


class Comparer:
    def __init__(self, tries=400, want=30):
        self.memo = {}
        self.feas = {}
        self.subs = {}
        self.tries, self.want = tries, want
        self.depth = 0
        self.pairs = 0
        self.numeric = 0
        self.diffs = []
        self.pos = []

    # ------------------------------------------------------------------
    def cmp(self, a, b, pc=()):
        if a is b:
            return OK
        k = (a, b, pc)
        r = self.memo.get(k)
        if r is None:
            self.depth += 1
            self.pairs += 1
            self.memo[k] = Res(UNK, a, b, note='in progress')
            try:
                if self.depth > 400:
                    r = Res(UNK, a, b, note='nesting')
                else:
                    r = self._cmp(a, b, pc)
            finally:
                self.depth -= 1
            if r.v == DIFF and self.contradiction(pc):
                r = OK
            if r.v == DIFF and (has_unk(r.a) or has_unk(r.b)):
                r = Res(UNK, r.a, r.b, r.path, 'value not modelled')
            self.memo[k] = r
        return r

    def _cmp(self, a, b, pc):
        if b.op == 'undef':
            return OK
        if scalar_num(a) and scalar_num(b):
            return self.numcmp(a, b, pc)
        if a.op == 'ite' or b.op == 'ite':
            return self.split(a, b, pc)
        if a.op == 'undef':
            return Res(DIFF, a, b, note='no value on a path where one is required')
        if a.op == 'unk' or b.op == 'unk':
            return Res(UNK, a, b)
        if a.op == b.op:
            return self.same(a, b, pc)
        return self.other(a, b, pc)

    def contradiction(self, pc):
        """no position satisfies p on this path, and the position looked at does"""
        for c, v in pc:
            if v or c.op != 'any':
                continue
            for k, sel in self.pos:
                q = tm.open_with(c, k)[0]
                for d, w in pc:
                    if d is not c:
                        q = restrict(q, d, w)
                        sel = restrict(sel, d, w)
                if q is TRUE or q is sel:
                    return True
        return False

    def split(self, a, b, pc):
        c = None
        for t in (a, b):
            if t.op == 'ite' and (c is None or t.args[0].id < c.id):
                c = t.args[0]
        for d, v in pc:
            if d is c:                      # decided on the way here
                return self.cmp(restrict(a, c, v), restrict(b, c, v), pc)
        out = []
        for v in (True, False):
            p2 = pc + ((c, v),)
            if not self.feasible(p2):
                continue
            r = self.cmp(restrict(a, c, v), restrict(b, c, v), p2)
            if r.v == DIFF:
                if has_unk(c) or not self.comparable(a, b):
                    out.append(Res(UNK, r.a, r.b, r.path, 'not modelled: when %s%s' % ('' if v else 'not ', show(c, 4)[:160])))
                    continue
                return Res(DIFF, r.a, r.b, r.path, r.note or 'when %s%s' % ('' if v else 'not ', show(c, 4)[:160]))
            out.append(r)
        return worst(out)

    def comparable(self, a, b):
        """not both sides branch on tests of their own that no valuation decides (the same test may be written in two ways)"""
        if a.op != 'ite' or b.op != 'ite':
            return True
        ca, cb = [{c for c in tm.spine_conds(t) if not numeric_cond(c)} for t in (a, b)]
        return not (ca - cb - self.within(b)) or not (cb - ca - self.within(a))

    def within(self, t):
        r = self.subs.get(t)
        if r is None:
            r = self.subs[t] = set(tm.subterms(t))
        return r

    def feasible(self, pc):
        pc = tuple(x for x in pc if numeric_cond(x[0]))
        if not pc:
            return True
        r = self.feas.get(pc)
        if r is None:
            r = False
            V = Valuations(self, {}, [c for c, _ in pc], pc)
            for _ in range(self.tries):
                try:
                    V.new()
                    r = True
                    break
                except Invalid:
                    continue
            self.feas[pc] = r
        return r

    # ------------------------------------------------------------------
    def same(self, a, b, pc):
        op = a.op
        if op in ('str', 'num', 'bool'):
            return Res(DIFF, a, b)
        if op == 'sym':
            return Res(DIFF, a, b)
        if op in tm.BINDERS:
            r = self.cmp(a.args[0], b.args[0], pc).at('<length>')
            if r.v == DIFF:
                return r
            if len(a.args) != len(b.args):
                return Res(UNK, a, b)
            v, ba = open_(a)
            bb = tm.open_with(b, v)
            p2 = pc
            rs = [r]
            if op == 'fold':
                i = self.cmp(ba[0], bb[0], pc).at('<before the loop>')
                if i.v == EQ and r.v == EQ and ba[1] is bb[1]:
                    return self.cmp(ba[2], bb[2], pc).at('<loop step>')
                return i if i.v == DIFF else Res(UNK, a, b, note='loop')
            if op == 'filt':
                p = self.cmp(ba[0], bb[0], pc).at('<selection>')
                rs.append(p)
                if p.v == DIFF:
                    return p
                if p.v == EQ and ba[0] is not TRUE:
                    p2 = pc + tm_facts(ba[0])
                rs.append(self.position(v, ba[1], bb[1], p2, bb[0]))
            else:
                rs += [self.position(v, x, y, p2) for x, y in zip(ba, bb)]
            return worst(rs)
        if op == 'df':
            return self.df(a, b, pc)
        if op == 'dict':
            return self.dict_(a, b, pc)
        if op == 'cat':
            return self.cat(a, b, pc)
        if op in ('vec', 'tup'):
            if len(a.args) != len(b.args):
                return Res(DIFF, a, b, note='%d elements instead of %d' % (len(a.args), len(b.args)))
            return worst(self.cmp(x, y, pc).at('[%d]' % i) for i, (x, y) in enumerate(zip(a.args, b.args)))
        if op == 'concat':
            if len(a.args) == len(b.args):
                r = worst([self.cmp(x, y, pc) for x, y in zip(a.args, b.args)])
                if r.v == EQ:
                    return r
            return self.ext(a, b, pc)
        if op in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace', 'resub', 'sslice', 'part') and \
                not (tm_args_same_but(a, b)):
            r = self.args(a, b, pc)
            return r if r.v == EQ else (r if r.v == DIFF and op == 'part' else Res(UNK, a, b, note='string expression'))
        return self.args(a, b, pc)

    def position(self, k, a, b, pc, sel=TRUE):
        self.pos.append((k, sel))
        try:
            return self.cmp(a, b, pc).at('[k]')
        finally:
            self.pos.pop()

    def args(self, a, b, pc):
        if len(a.args) != len(b.args):
            return Res(UNK, a, b)
        rs = []
        for x, y in zip(a.args, b.args):
            r = self.arg(x, y, pc, a, b)
            if r.v == DIFF:
                return r
            rs.append(r)
        return worst(rs)

    def arg(self, x, y, pc, a, b):
        if x is y or (type(x) is not T and type(x) is not tuple and x == y):
            return OK
        if type(x) is T and type(y) is T:
            return self.cmp(x, y, pc)
        if type(x) is tuple and type(y) is tuple:
            if a.op in ('csv', 'opts', 'fwf') or len(x) != len(y):
                return Res(UNK if len(x) == 0 and len(y) == 0 else DIFF, a, b)
            return worst([self.arg(p, q, pc, a, b) for p, q in zip(x, y)])
        return Res(DIFF, a, b, note='%s instead of %s' % (val(x), val(y)))

    def df(self, a, b, pc):
        na, ca, xa = a.args
        nb, cb, xb = b.args
        da, db = {}, {}
        for n, c in ca:
            da[n] = c
        for n, c in cb:
            db[n] = c
        rs = []
        for n in db:
            if n not in da:
                if xa is not NONE:
                    rs.append(Res(UNK, a, b))
                    continue
                return Res(DIFF, a, b, note='column %s is missing' % val(n))
        for n in da:
            if n not in db:
                if xb is not NONE:
                    rs.append(Res(UNK, a, b))
                    continue
                if n == '<index>':
                    continue
                return Res(DIFF, a, b, note='column %s is not expected' % val(n))
        for n in db:
            if n in da:
                r = self.cmp(da[n], db[n], pc).at('[%s]' % val(n))
                if r.v == DIFF:
                    return r
                rs.append(r)
        r = self.cmp(na, nb, pc).at('<length>')
        if r.v == DIFF:
            return r
        rs.append(r)
        if xa is not xb:
            rs.append(self.cmp(xa, xb, pc))
        return worst(rs)

    def dict_(self, a, b, pc):
        if len(a.args) != 2 or type(a.args[0]) is not tuple or type(b.args[0]) is not tuple:
            return self.args(a, b, pc)
        da, db = dict(a.args[0]), dict(b.args[0])
        rs = []
        for k in db:
            if k not in da:
                return Res(DIFF, a, b, note='key %s is missing' % val(k))
            r = self.cmp(da[k], db[k], pc).at('[%s]' % val(k))
            if r.v == DIFF:
                return r
            rs.append(r)
        for k in da:
            if k not in db:
                return Res(DIFF, a, b, note='key %s is not expected' % val(k))
        if a.args[1] is not b.args[1]:
            rs.append(self.cmp(a.args[1], b.args[1], pc))
        return worst(rs)

    def cat(self, a, b, pc):
        xa = list(a.args) if a.op == 'cat' else [a]
        xb = list(b.args) if b.op == 'cat' else [b]
        rs = []
        for end in (0, -1):
            while xa and xb:
                p, q = xa[end], xb[end]
                if p is q:
                    xa.pop(end), xb.pop(end)
                    continue
                if p.op == 'str' and q.op == 'str':
                    s, t = p.args[0], q.args[0]
                    n = 0
                    if end == 0:
                        while n < min(len(s), len(t)) and s[n] == t[n]:
                            n += 1
                        s, t = s[n:], t[n:]
                    else:
                        while n < min(len(s), len(t)) and s[len(s) - 1 - n] == t[len(t) - 1 - n]:
                            n += 1
                        s, t = s[:len(s) - n], t[:len(t) - n]
                    if n == 0:
                        if s and t:
                            # two constants that disagree at the same place
                            return Res(DIFF, a, b, note='%r instead of %r' % (s, t))
                        break
                    for lst, z in ((xa, s), (xb, t)):
                        lst.pop(end)
                        if z:
                            lst.insert(0 if end == 0 else len(lst), mk('str', z))
                    continue
                if p.op == q.op and p.op != 'str':
                    r = self.cmp(p, q, pc)
                    if r.v == DIFF:
                        return r
                    if r.v == UNK:
                        return r
                    xa.pop(end), xb.pop(end)
                    continue
                break
        if not xa and not xb:
            return worst(rs)
        if not xa or not xb:
            rest = xa or xb
            if any(p.op == 'str' and p.args[0] for p in rest):
                return Res(DIFF, a, b, note='text %s' % ' '.join(show(p, 3)[:60] for p in rest))
        return Res(UNK, a, b, note='string expression')

    # ------------------------------------------------------------------
    def other(self, a, b, pc):
        ka, kb = kind(a), kind(b)
        if a.op in ('vec', 'tup') and b.op in ('vec', 'tup') and len(a.args) == len(b.args):
            return worst(self.cmp(x, y, pc).at('[%d]' % i) for i, (x, y) in enumerate(zip(a.args, b.args)))
        if scalar_num(a) and scalar_num(b):
            return self.numcmp(a, b, pc)
        if a.op == 'cat' or b.op == 'cat':
            return self.cat(a, b, pc)
        ra, rb = rank(a), rank(b)
        if ra and rb:
            if ra == rb and (indexable(a) or indexable(b)):
                return self.ext(a, b, pc)
            return Res(UNK, a, b)
        if NONE in (a, b):
            o = b if a is NONE else a
            if kind(o) in ('num', 'str', 'arr', 'dt', 'df', 'tup', 'bool') and (o.op not in ('sym', 'index', 'dfcol')):
                return Res(DIFF, a, b)
            return Res(UNK, a, b)
        if tm.NAN in (a, b) and (a.op == 'str' or b.op == 'str'):
            return Res(DIFF, a, b)
        definite = ('num', 'str', 'dt', 'arr', 'df')
        if ka in definite and kb in definite and ka != kb and solid(a) and solid(b):
            return Res(DIFF, a, b)
        if (a.op in ('index', 'sym', 'str') and b.op in ('index', 'sym', 'str')) and inputish(a) and inputish(b):
            return Res(DIFF, a, b)
        return Res(UNK, a, b)

    def ext(self, a, b, pc):
        """arrays, element by element"""
        r = self.cmp(length(a), length(b), pc).at('<length>')
        if r.v == DIFF:
            return r
        n = length(b)
        if r.v == EQ and (n is ZERO or length(a) is ZERO):
            return r
        c = const_of(n)
        if c is not None and c <= tm.MAXVEC:
            return worst([r] + [self.cmp(index(a, num(i)), index(b, num(i)), pc).at('[%d]' % i) for i in range(int(c))])
        v = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
        x, y = elem(a, v), elem(b, v)
        for t in (x, y):
            for l in tm.leaves(t):
                if l.op == 'index' and l.args[0].op in ('concat', 'cmap', 'filt') and not _plain(l):
                    # elements not resolved by the normal form
                    if x is y:
                        return r
                    if not (scalar_num(x) and scalar_num(y)):
                        return Res(UNK, a, b)
        s = self.position(v, x, y, pc)
        return worst([s, r])

    # ------------------------------------------------------------------
    # numeric expressions
    # ------------------------------------------------------------------
    def numcmp(self, a, b, pc):
        self.numeric += 1
        if a.op == b.op and a.op in ('num', 'bool'):
            if a.op == 'num' and abs(a.args[0] - b.args[0]) <= 1e-11 * abs(b.args[0]):
                return OK
            if not self.feasible(pc):
                return OK
            return Res(DIFF, a, b)
        if a.op == b.op and a.op not in INTERP and a.op not in FINITE and a.op != 'index':
            r = self.same(a, b, pc)
            return r
        if a.op == b.op and a.op in FINITE:
            r = self.same(a, b, pc)
            if r.v == EQ:
                return r
        if a.op == b.op == 'index':
            r = self.args(a, b, pc)
            if r.v == EQ:
                return r
            o = self.opposite(a, b, pc)
            if o is not None:
                return o
            if r.v == DIFF and not inputish(a):
                # a different element or a different array
                base = self.arg(a.args[0], b.args[0], pc, a, b)
                if base.v == DIFF:
                    return base
                if base.v == EQ and a.args[0].op in GENERIC:
                    return r
        reps = {}
        xa, xb, fr = self.match(a, b, reps, pc)
        conds = list(conditions(a) | conditions(b)) + [c for c, _ in pc]
        for attempt in (0, 1):
            V = Valuations(self, reps, conds, pc, (a, b))
            ok = 0
            witness = None
            domain = 0
            for i in range(self.tries):
                try:
                    V.new()
                    va, ea = V.ev(a)
                    vb, eb = V.ev(b)
                except Invalid:
                    continue
                except (OverflowError, ZeroDivisionError, ValueError):
                    continue
                if vb == 'undef' or vb == 'dom':
                    continue
                if va == 'dom' and vb != 'nan':
                    dom = (va, vb)
                    domain += 1
                    if domain >= 5:
                        witness = dom
                        break
                    continue
                if not isinstance(vb, (str, Fr)) and not isinstance(va, (str, Fr)) and 0 < max(abs(va), abs(vb)) < 1e-250:
                    continue                # out of the range of floating point
                ok += 1
                if isinstance(va, str) or isinstance(vb, str):
                    d = va != vb
                else:
                    d = abs(va - vb) > 1e-10 * max(abs(va), abs(vb)) + 100 * (ea + eb)
                if d:
                    witness = (va, vb)
                    break
                if ok >= self.want:
                    break
            if witness is None or attempt:
                break
            # the conditions of the path may speak of the same things in other words
            more, unsure = self.pcatoms(a, b, pc, reps)
            if not more:
                if unsure is not None:
                    return Res(UNK, a, b, note='path condition on %s' % show(unsure, 2)[:80])
                break
            reps.update(more)
        if witness is None:
            if ok < 3:
                return Res(UNK, a, b, note='no sample values')
            return OK
        if V.doubtful():
            return Res(UNK, a, b, note='conditions on text')
        note = 'e.g. %s instead of %s' % tuple(fmt(x) for x in witness)
        # which opaque sub-expressions differ
        sub = None
        for x in xa | xb:
            if has_unk(x):
                return Res(UNK, a, b, note='value not modelled')
        for side, others in ((xa, xb), (xb, xa)):
            for x in side:
                if safe(x) or not others and generic(x):
                    continue
                partner = False
                for y in others:
                    if y.op == x.op:
                        r = self.cmp(x, y, pc) if side is xa else self.cmp(y, x, pc)
                        if r.v == DIFF:
                            partner = True
                            sub = sub or r
                            break
                if not partner:
                    lost = [z for z in b.fs - a.fs if not z.args[0].count('#') and not any(z in c.fs for c, _ in pc)]
                    if lost:
                        return Res(DIFF, a, b, note='does not depend on %s' % ', '.join(sorted(z.args[0] for z in lost)))
                    return Res(UNK, a, b, note='no theory for %s' % show(x, 2)[:80])
        if not xa and xb and all(generic(x) for x in xb):
            return Res(DIFF, a, b, note='a term is missing: %s' % show(min(xb, key=lambda t: t.id), 3)[:100])
        if sub is not None and len(xa) == 1 and len(xb) == 1:
            return sub
        return Res(DIFF, a, b, note=note)

    def pcatoms(self, a, b, pc, reps):
        """opaque values in the conditions of the path that equal one another or one of the operands, and one that may do so"""
        P = set()
        for c, _ in pc:
            P |= opaque(c)
        P = sorted((x for x in P if not safe(x)), key=lambda t: t.id)
        known = sorted((opaque(a) | opaque(b)) - set(P), key=lambda t: t.id)
        more, unsure = {}, None
        for i, y in enumerate(P):
            if y in reps:
                continue
            for x in known + P[:i]:
                if x.op == y.op and x not in more:
                    v = self.cmp(x, y, ()).v
                    if v == EQ:
                        more[y] = reps.get(x, x)
                        break
                    if v == UNK:
                        unsure = y
        return more, unsure

    def opposite(self, a, b, pc):
        """element of a forward transform against element of an inverse one: the forward transform of A is the
        inverse transform of n times A reversed, and the transform is one-to-one"""
        ba, ia = peel(a)
        bb, ib = peel(b)
        if (ba.op, bb.op) not in (('fft', 'ifft'), ('ifft', 'fft'), ('fft2', 'ifft2'), ('ifft2', 'fft2')):
            return None
        swap = ba.op.startswith('ifft')
        if swap:
            (ba, ia), (bb, ib) = (bb, ib), (ba, ia)
        if len(ia) != len(ib) or len(ia) != (2 if ba.op == 'fft2' else 1):
            return None
        if worst([self.cmp(x, y, pc) for x, y in zip(ia, ib)]).v != EQ:
            return None
        A, B = ba.args[0], bb.args[0]
        tot = ONE
        x, y = A, B
        n = length(B)
        for _ in ia:
            k = fresh('k', 'num', int=True, lo=Fr(0), ub=n)
            tot = tm.mul(tot, n)
            neg = tm.ite(tm.eq0(k), ZERO, tm.sub(n, k))
            x, y = elem(x, neg), elem(y, k)
            n = length(y) if rank(y) else None
        r = self.cmp(tm.mul(x, tot), y, pc)
        if r.v == UNK:
            return None
        return r.at('<spectrum of the inverse transform>')

    def match(self, a, b, reps, pc=()):
        """congruent opaque sub-expressions of b get the representative of a; returns the unmatched ones"""
        A, B = opaque(a), opaque(b)
        xa, xb = A - B, B - A
        todo = sorted(xb, key=lambda t: t.id)
        for y in todo:
            for x in sorted(xa, key=lambda t: t.id):
                if x.op == y.op and x not in reps.values():
                    v = self.cmp(x, y, ()).v
                    if v != EQ and pc:
                        v = self.cmp(x, y, pc).v
                    if v == EQ:
                        reps[y] = x
                        break
        ma = set(reps.values())
        return xa - ma, xb - set(reps), None


def peel(t):
    ix = []
    while t.op == 'index':
        ix.insert(0, t.args[1])
        t = t.args[0]
    return t, ix


def elem(t, k):
    """element k, pieces of a concatenation told apart by conditions on k"""
    if t.op == 'ite':
        return tm.ite(t.args[0], elem(t.args[1], k), elem(t.args[2], k))
    if t.op != 'concat':
        return index(t, k)
    r = index(t, k)
    if r.op != 'index' or r.args[0].op != 'concat':
        return r
    ps = t.args
    off = ZERO
    out = []
    for p in ps:
        n = length(p)
        out.append((tm.add(off, n), index(p, tm.sub(k, off)) if n is not ONE else index(p, ZERO)))
        off = tm.add(off, n)
    r = out[-1][1]
    for end, x in reversed(out[:-1]):
        r = tm.ite(tm.lt(k, end), x, r)
    return r


def fmt(x):
    if isinstance(x, str):
        return 'no real value' if x == 'dom' else x
    if isinstance(x, complex):
        return '%.6g%+.6gj' % (x.real, x.imag)
    return '%.8g' % float(x)


def val(x):
    if type(x) is T:
        return show(x, 4)[:120]
    if type(x) is tuple and len(x) == 2 and x[0] in ('s', 'str'):
        return repr(x[1])
    return repr(x)[:120]


def tm_args_same_but(a, b):
    return False


def tm_facts(c):
    return tuple(tm.facts(c))


def numeric_cond(c):
    return c.op in ('lt0', 'le0', 'eq0') and not has_unk(c)


def indexable(t):
    return t.op in ('map', 'vec', 'concat') or (t.op == 'tup')


def inputish(t):
    while t.op == 'index':
        t = t.args[0]
    return t.op == 'sym' or t.op == 'str'


def _plain(l):
    return const_of(l.args[1]) is not None


def solid(t):
    return t.op in ('num', 'str', 'poly', 'map', 'vec', 'datetime', 'todt', 'df', 'sin', 'cos', 'bool', 'cat')


def generic(x):
    return peel(x)[0].op in GENERIC


def safe(x):
    if x.op in FINITE:
        v, bs = open_(x)
        return all(y is v or safe(y) for y in opaque(x.args[0]) | frozenset(z for b in bs for z in opaque(b)))
    if x.op == 'index':
        b = x
        while b.op == 'index':
            b = b.args[0]
        return b.op == 'sym' or b.op in SAFE
    return x.op in SAFE


_pcs = {}


def pieces(t):
    """element of a concatenation: (position, [(length, element if in that piece)]); None for anything else"""
    if t in _pcs:
        return _pcs[t]
    b, ix = peel(t)
    r = None
    if b.op == 'concat':
        off, ps = ZERO, []
        for s in b.args:
            x = index(s, tm.sub(ix[0], off))
            for j in ix[1:]:
                x = index(x, j)
            ps.append((length(s), x))
            off = tm.add(off, length(s))
        if not any(x.op == 'index' and peel(x)[0].op not in ('sym', 'concat') and peel(x)[0].op not in GENERIC for _, x in ps):
            r = (ix[0], ps)
    _pcs[t] = r
    return r


_opq = {}


def opaque(t):
    """maximal sub-expressions outside the algebra"""
    r = _opq.get(t)
    if r is None:
        r = set()
        if t.op in INTERP:
            for x in tm.kids(t):
                r |= opaque(x)
        elif t.op in FINITE:
            r.add(t)
        elif t.op == 'index' and pieces(t):
            i, ps = pieces(t)
            r |= opaque(i)
            for n, x in ps:
                r |= opaque(n) | opaque(x)
        elif t.op == 'index' and t.args[0].op != 'vec':
            r.add(t)
        elif t.op == 'index':
            r |= opaque(t.args[1])
            for x in t.args[0].args:
                r |= opaque(x)
        elif t.op != 'bv':
            r.add(t)
        r = frozenset(r)
        _opq[t] = r
    return r


_cnd = {}


def conditions(t):
    """conditions on the values of t (lt0, eq0 ... anywhere inside the algebra)"""
    r = _cnd.get(t)
    if r is None:
        r = set()
        if t.op == 'ite':
            r.add(t.args[0])
        if t.op in ('lt0', 'le0', 'eq0'):
            r.add(t)
        if t.op in INTERP:
            for x in tm.kids(t):
                r |= conditions(x)
        r = frozenset(r)
        _cnd[t] = r
    return r


class Valuations:
    """random values for the opaque sub-expressions"""

    def __init__(self, C, reps, conds, pc, tops=()):
        self.C, self.reps = C, reps
        self.conds = sorted({c for c in conds if c.op in ('lt0', 'le0', 'eq0')}, key=lambda t: t.id)
        self.pc = pc
        self.rng = random.Random(SEED * 7919 + 13)
        self.used = {}
        self.strpool = None
        self.tops = tops
        self.exps = sorted({x.args[0] for t in tops for x in tm.subterms(t) if x.op == 'exp' and x.args[0].op != 'num'}, key=lambda t: t.id)
        self.n = 0
        self.counting = any(x.op in FINITE for t in tops for x in tm.subterms(t))

    def pool(self):
        if self.strpool is None:
            p = set()
            for t in list(self.tops) + [c for c, _ in self.pc] + self.conds:
                for x in tm.subterms(t):
                    if x.op == 'str':
                        p.add(x.args[0])
            self.strpool = sorted(p) + ['<other>']
        return self.strpool

    def new(self):
        self.n += 1
        self.vals = {}
        self.cache = {}
        self.used = {}
        rng = self.rng
        self.mode = rng.choice(('unit', 'unit', 'wide', 'int'))
        self.maxint = rng.choice((2, 3, 5, 8))
        if not self.counting and self.n % 5 == 4:      # long series and large numbers, where nothing is summed element by element
            self.maxint = rng.choice((100, 10 ** 4, 10 ** 6))
        self.far = self.n > 2 and rng.random() < .4     # opaque values of very different magnitude: every addend counts in some sample
        # path conditions must hold; others are steered
        for c, v in self.pc:
            if c.op in ('lt0', 'le0', 'eq0'):
                self.force(c, v)
            elif c.op in tm.BOOLOPS or kind(c) == 'bool':
                self.vals[('b', self.rep(c))] = v
        if self.conds and self.n > 2:
            for c in rng.sample(self.conds, min(len(self.conds), rng.choice((0, 1, 1, 2)))):
                try:
                    self.force(c, rng.random() < .5)
                except Invalid:
                    pass
        if self.exps and rng.random() < .6:         # exponents of moderate size, where the exponential is not 0 or infinite
            for x in rng.sample(self.exps, min(len(self.exps), rng.choice((1, 1, 2)))):
                try:
                    self.solve(x, Fr(rng.choice((-1, -1, 1)) * rng.randint(1, 400), 199), 0, False)
                except (Invalid, Nan, OverflowError, ZeroDivisionError, ValueError):
                    pass
        for a, x in list(self.vals.items()):
            if type(a) is T and a.op == 'sym' and SYM[a].get('ub') is not None:
                u = self.ev(SYM[a]['ub'])[0]
                if isinstance(u, (str, complex)) or x >= u:
                    raise Invalid()
        for c, v in self.pc:
            if numeric_cond(c):
                if bool(self.ev(c)[0]) != v:
                    raise Invalid()

    def rep(self, t):
        return self.reps.get(t, t)

    def force(self, c, v):
        """choose a value of one unknown such that the condition has truth value v"""
        p = c.args[0]
        if p.op == 'ite':
            return
        strict = (c.op == 'lt0') == v           # the boundary itself is excluded
        if c.op == 'eq0':
            side = 0 if v else self.rng.choice((-1, 1))
        else:
            side = -1 if v else 1
        self.solve(p, Fr(0), side, c.op == 'eq0' and not v or c.op != 'eq0' and strict)

    def solve(self, p, target, side, strict, depth=0):
        """choose one unknown of p such that p lies on the given side of the target"""
        d = tm.P(p)
        rng = self.rng
        cands, deep = [], []
        for m, cf in d.items():
            for a, e in m:
                if e != 1 or self.key_set(a):
                    continue
                if any(m2 is not m and mentions(m2, a) for m2 in d) or any(o is not a and a in tm_subs(o) for o, _ in m):
                    continue
                if freeatom(a):
                    cands.append((len(m) > 1, a, m, cf))
                elif a.op in ('floor', 'ceil', 'int') and depth < 3 and a not in self.cache:
                    deep.append((True, a, m, cf))
        pick = [x for x in cands if not x[0]] or cands or deep
        if not pick:
            return
        _, a, m, cf = rng.choice(pick)
        rest = tm.fromP({x: k for x, k in d.items() if x is not m})
        co = tm.fromP({tuple((o, e) for o, e in m if o is not a): cf})
        r, _ = self.ev(rest)
        k, _ = self.ev(co)
        if isinstance(r, (str, complex)) or isinstance(k, (str, complex)) or k == 0:
            return
        root = (target - r) / k
        integer = tm.is_int(a)
        if side == 0:
            x = root
        else:
            step = rng.choice((0, 1, 1, 2, 3) if integer else (0, Fr(1, 1000), Fr(1, 7), 1, 3))
            if step == 0 and strict:
                step = 1
            if abs(root) > 100 and not integer:
                step = step * abs(Fr(root).limit_denominator(1000) if not isinstance(root, Fr) else root)
            x = root + side * (1 if k > 0 else -1) * step
        if integer:
            x = Fr(math.floor(x) if side == 0 or x <= root else math.ceil(x))
        elif not isinstance(x, Fr):
            x = Fr(x)
        if a.op in ('floor', 'ceil', 'int') and not freeatom(a):
            x = x + Fr(rng.randint(1, 8), 9) * (-1 if a.op == 'ceil' or (a.op == 'int' and x < 0) else 1)
            self.solve(a.args[0], x, 0, False, depth + 1)
            return
        lo, hi = tm.interval(a)
        if lo is not None and x < lo or hi is not None and x > hi:
            return
        if a.op == 'sym' and x <= 0 and SYM[a].get('pos'):
            return
        self.vals[self.key(a)] = x

    def key_set(self, a):
        try:
            return self.key(a) in self.vals
        except Invalid:
            return True

    def key(self, a):
        a = self.rep(a)
        if a.op == 'index':
            b, i = a.args
            iv = self.ev(i)[0]
            if isinstance(iv, str) or isinstance(iv, complex) or iv != int(iv):
                raise Invalid()
            kb = self.key(b) if b.op == 'index' else self.rep(b)
            return ('ix', kb, int(iv))
        return a

    def draw(self, a):
        rng = self.rng
        k = kind(a)
        if k == 'bool':
            return rng.random() < .5
        lo, hi = tm.interval(a)
        if tm.is_int(a):
            l = int(lo) if lo is not None else (0 if tm.nonneg(a) else -2)
            h = l + self.maxint
            if a.op == 'sym':
                ub = SYM[a].get('ub')
                if ub is not None:
                    u = self.ev(ub)[0]
                    if isinstance(u, (str, complex)) or u <= l:
                        raise Invalid()
                    h = min(int(math.ceil(u)) - 1, 10 ** 6)
            if hi is not None:
                h = min(h, int(hi))
            if hi is not None and a.op == 'index' and hi - l < 20:
                h = int(hi)
            if h < l:
                raise Invalid()
            return Fr(rng.randint(l, h))
        if self.mode == 'int':
            x = Fr(rng.randint(-4, 4)) + (Fr(1, 2) if rng.random() < .3 else 0)
        elif self.mode == 'wide':
            x = Fr(round(10 ** rng.uniform(-3, 4), 6)).limit_denominator(10 ** 6) * rng.choice((1, 1, -1))
        else:
            x = Fr(rng.randint(1, 2000), 997) * rng.choice((1, 1, 1, -1))
        if self.far and lo is None and hi is None and peel(a)[0].op != 'sym':
            x = x * 10 ** rng.randint(0, 40)
        if SYM.get(a, {}).get('pos') or tm.nonneg(a):
            x = abs(x) + (Fr(1, 97) if SYM.get(a, {}).get('pos') else 0)
        if lo is not None and x < lo:
            x = lo + abs(x)
        if hi is not None and x > hi:
            x = hi - abs(x)
            if lo is not None and x < lo:
                x = (lo + hi) / 2
        return x

    # ------------------------------------------------------------------
    def ev(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._ev(t)
        return r

    def num(self, t):
        v, e = self.ev(t)
        if isinstance(v, bool):
            v = Fr(int(v))
        if isinstance(v, str):
            raise Nan(v)
        return v, e

    def _ev(self, t):
        op = t.op
        try:
            if op == 'num':
                return t.args[0], 0.0
            if op == 'bool':
                return t.args[0], 0.0
            if op == 'pi':
                return math.pi, 2e-16
            if op == 'expo':
                return math.e, 2e-16
            if op == 'iunit':
                return 1j, 0.0
            if op in ('nan', 'undef', 'inf'):
                return op, 0.0
            if op == 'poly':
                return self.poly(t)
            if op == 'ite':
                c = self.ev(t.args[0])[0]
                return self.ev(t.args[1] if c else t.args[2])
            if op in ('lt0', 'le0', 'eq0'):
                v, e = self.num(t.args[0])
                if isinstance(v, complex):
                    if op == 'eq0':
                        return v == 0, 0.0
                    raise Invalid()
                if not isinstance(v, Fr):
                    if abs(v) <= 1e-12 + 20 * e:
                        if op == 'eq0':
                            return True, 0.0
                        raise Invalid()
                return (v < 0 if op == 'lt0' else v <= 0 if op == 'le0' else v == 0), 0.0
            f = getattr(self, 'f_' + op, None)
            if f:
                return f(t)
            if op in FINITE and t not in self.reps and t not in self.vals and self.C is not None:
                return self.finite(t)
        except Nan as e:
            return e.args[0], 0.0
        if op == 'index' and t.args[0].op in ('vec', 'tup'):
            i = self.num(t.args[1])[0]
            xs = t.args[0].args
            if i != int(i) or not -len(xs) <= i < len(xs):
                raise Invalid()
            return self.ev(xs[int(i)])
        if op == 'index' and t not in self.reps and pieces(t):
            i, ps = pieces(t)
            p = self.num(i)[0]
            if isinstance(p, complex) or p < 0:
                raise Invalid()
            for n, x in ps:
                w = self.num(n)[0]
                if p < w:
                    return self.ev(x)
                p -= w
            raise Invalid()
        if op == 'eq':
            return self.equal(t), 0.0
        if op == 'isnan':
            try:
                if self.num(t.args[0])[0] is None:
                    return True, 0.0
            except Nan:
                return True, 0.0
            except Invalid:
                pass
        k = self.key(t)
        if kind(t) == 'bool':
            k = ('b', k)
            self.used[k] = True
        v = self.vals.get(k)
        if v is None:
            kk = kind(t)
            if kk not in ('num', 'bool', 'any'):
                raise Invalid()
            v = self.draw(self.rep(t))
            if kk == 'bool':
                v = self.rng.random() < (.15 if op == 'isnan' else .5)
            self.vals[k] = v
        return v, 0.0

    def equal(self, t):
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if y.op == 'str' and x.op != 'str':
                k = ('s', self.rep(x))
                if k not in self.vals:
                    self.vals[k] = self.rng.choice(self.pool())
                return self.vals[k] == y.args[0]
        k = ('b', self.rep(t))
        self.used[k] = True
        if k not in self.vals:
            self.vals[k] = self.rng.random() < .4
        return self.vals[k]

    def poly(self, t):
        tot = Fr(0)
        err = 0.0
        for m, c in t.args[0]:
            x = c
            rel = 0.0
            neg = 0
            for a, e in m:
                v, ev = self.num(a)
                if e.denominator == 1:
                    n = int(e)
                    if n < 0 and (v == 0 or (not isinstance(v, Fr) and abs(v) <= 1e-13 + 20 * ev)):
                        raise Invalid()
                    y = v ** n if abs(n) < 400 else float(v) ** n
                else:
                    if isinstance(v, complex):
                        y = v ** float(e)
                    else:
                        if v < 0 and abs(v) > 20 * ev:
                            neg += 1
                            if neg > 1 or e.denominator % 2:
                                raise Invalid()
                            y = 0.0
                        elif v <= 0:
                            if e < 0:
                                raise Invalid()
                            y = 0.0
                        else:
                            y = float(v) ** float(e)
                if v != 0:
                    rel += abs(float(e)) * ev / abs(v)
                if isinstance(y, Fr) and (y.numerator.bit_length() + y.denominator.bit_length() > 400):
                    y = float(y)
                if isinstance(x, Fr) and not isinstance(y, Fr):
                    x = float(x) if not isinstance(y, complex) else float(x)
                elif isinstance(y, Fr) and not isinstance(x, Fr):
                    y = float(y)
                x = x * y
            if neg:
                raise Nan('dom')            # root of a negative number
            if not isinstance(x, Fr):
                if x != x or abs(x) == float('inf'):
                    raise Invalid()
                err += float(abs(x)) * (3e-16 * (1 + len(m)) + rel)
            elif rel:
                err += float(abs(x)) * rel
            if isinstance(tot, Fr) and not isinstance(x, Fr):
                tot = float(tot) + x
            elif isinstance(x, Fr) and not isinstance(tot, Fr):
                tot = tot + float(x)
            else:
                tot = tot + x
            if isinstance(tot, Fr) and tot.denominator.bit_length() > 600:
                tot = float(tot)
        return tot, err

    def f_grp(self, t):
        return self.ev(t.args[0])

    def unary(self, t, f, cf=None):
        v, e = self.num(t.args[0])
        if isinstance(v, complex):
            if cf is None:
                raise Invalid()
            return cf(v), e
        v = float(v)
        y = f(v)
        if e:
            try:
                e = abs(f(v + e) - y) + abs(f(v - e) - y)
            except ValueError:
                e = 1e-9
        return y, e + 2e-16 * abs(y)

    def f_sin(self, t):
        return self.unary(t, math.sin, cmath.sin)

    def f_cos(self, t):
        return self.unary(t, math.cos, cmath.cos)

    def f_tan(self, t):
        return self.unary(t, math.tan, cmath.tan)

    def f_atan(self, t):
        return self.unary(t, math.atan)

    def f_asin(self, t):
        return self.unary(t, math.asin)

    def f_acos(self, t):
        return self.unary(t, math.acos)

    def f_exp(self, t):
        return self.unary(t, math.exp, cmath.exp)

    def f_log(self, t):
        return self.unary(t, math.log)

    def f_log10(self, t):
        return self.unary(t, math.log10)

    def f_erf(self, t):
        return self.unary(t, math.erf)

    def f_abs(self, t):
        v, e = self.num(t.args[0])
        return abs(v), e

    def f_float(self, t):
        if kind(t.args[0]) not in ('num', 'bool'):
            return self.opaque(t)
        return self.num(t.args[0])

    def opaque(self, t):
        k = self.key(t)
        if k not in self.vals:
            self.vals[k] = self.draw(self.rep(t))
        return self.vals[k], 0.0

    def rounder(self, t, f):
        v, e = self.num(t.args[0])
        if isinstance(v, complex):
            raise Invalid()
        if not isinstance(v, Fr) and abs(v - round(v)) < 1e-9 + 20 * e:
            raise Invalid()
        return Fr(f(v)), 0.0

    def f_floor(self, t):
        return self.rounder(t, math.floor)

    def f_ceil(self, t):
        return self.rounder(t, math.ceil)

    def f_int(self, t):
        if kind(t.args[0]) not in ('num', 'bool'):
            return self.opaque(t)
        return self.rounder(t, math.trunc)

    def f_sign(self, t):
        v, e = self.num(t.args[0])
        if isinstance(v, complex):
            raise Invalid()
        return Fr((v > 0) - (v < 0)), 0.0

    def f_mod(self, t):
        a, e = self.num(t.args[0])
        b, e2 = self.num(t.args[1])
        if isinstance(a, complex) or isinstance(b, complex) or b == 0:
            raise Invalid()
        if isinstance(a, Fr) and isinstance(b, Fr):
            return a % b, 0.0
        a, b = float(a), float(b)
        r = a % b
        if min(r, abs(b - r)) < 1e-9:
            raise Invalid()
        return r, e + abs(a / b) * e2 + 1e-16 * abs(a)

    def f_pow(self, t):
        a, e = self.num(t.args[0])
        b, e2 = self.num(t.args[1])
        if isinstance(a, complex) or isinstance(b, complex):
            raise Invalid()
        if isinstance(b, Fr) and b.denominator == 1 and isinstance(a, Fr) and abs(b) < 40 and (a != 0 or b >= 0):
            return a ** int(b), 0.0
        if a <= 0:
            raise Invalid()
        y = float(a) ** float(b)
        return y, abs(y) * (abs(float(b)) * e / abs(float(a)) + e2 + 1e-15)

    def f_atan2(self, t):
        a, e = self.num(t.args[0])
        b, e2 = self.num(t.args[1])
        if isinstance(a, complex) or isinstance(b, complex):
            raise Invalid()
        a, b = float(a), float(b)
        r = math.hypot(a, b)
        if r == 0:
            return 0.0, 0.0
        return math.atan2(a, b), (e + e2) / r + 3e-16

    def f_factorial(self, t):
        v, e = self.num(t.args[0])
        if v != int(v) or not 0 <= v <= 40:
            raise Invalid()
        return Fr(math.factorial(int(v))), 0.0

    def minmax(self, t, f):
        xs = t.args[0]
        if type(xs) is not tuple:
            return self.opaque(t)
        vs = [self.num(x) for x in xs]
        if any(isinstance(v, complex) for v, _ in vs):
            raise Invalid()
        return f(vs, key=lambda z: z[0])

    def f_min(self, t):
        return self.minmax(t, min)

    def f_max(self, t):
        return self.minmax(t, max)

    def finite(self, t):
        r = self.rep(t)
        if r is not t or t in self.reps.values():
            return self.opaque(t)
        n = self.num(t.args[0])[0]
        if isinstance(n, complex) or n != int(n) or n > 12:
            raise Invalid()
        vs = []
        for j in range(int(n)):
            bs = tm.open_with(t, num(j))
            x, e = self.ev(bs[-1])
            if t.op in ('any', 'first', 'last', 'count'):
                if isinstance(x, str):
                    raise Invalid()
                x = bool(x)
                if x and t.op == 'any':
                    return True, 0.0
                if x and t.op == 'first':
                    return Fr(j), 0.0
            vs.append((x, e))
        if t.op == 'any':
            return False, 0.0
        if t.op == 'first':
            raise Invalid()
        if t.op == 'count':
            return Fr(sum(x for x, _ in vs)), 0.0
        if t.op == 'last':
            js = [j for j, (x, _) in enumerate(vs) if x]
            if not js:
                raise Invalid()
            return Fr(js[-1]), 0.0
        if any(isinstance(x, str) for x, _ in vs):
            return 'nan', 0.0
        if t.op in ('rmin', 'rmax'):
            if not vs:
                raise Invalid()
            return (min if t.op == 'rmin' else max)(vs, key=lambda z: z[0])
        tot, err = (Fr(0), 0.0) if t.op == 'sum' else (Fr(1), 0.0)
        for x, e in vs:
            if isinstance(x, bool):
                x = Fr(int(x))
            if not (isinstance(x, Fr) and isinstance(tot, Fr)):
                x = x if isinstance(x, complex) else float(x)
                tot = tot if isinstance(tot, complex) else float(tot)
            if t.op == 'sum':
                tot = tot + x
                err += e
            else:
                err = abs(tot) * e + abs(x) * err
                tot = tot * x
        return tot, float(err)

    def doubtful(self):
        """the last valuation gave several conditions on one piece of text independent truth values"""
        subj = {}
        for k in self.used:
            t = k[1]
            if type(t) is not T:
                continue
            if t.op in ('in', 'startswith', 'endswith', 'matches', 'eq', 'truthy', 'isdigit', 'isfloat', 'isint_t', 'raises', 'isnan'):
                for x in t.args:
                    if type(x) is T and x.op not in ('str', 'num') and x.fs:
                        subj.setdefault(x, set()).add(t)
        return any(len(v) > 1 for v in subj.values())


class Nan(Exception):
    pass


def freeatom(a):
    if a.op == 'sym':
        return SYM[a]['kind'] in ('num', 'any')
    if a.op == 'index':
        return a.args[0].op not in ('vec', 'tup') and kind(a) in ('num', 'any')
    return a.op not in INTERP and a.op not in FINITE and kind(a) == 'num'


_subs = {}


def tm_subs(t):
    r = _subs.get(t)
    if r is None:
        r = _subs[t] = frozenset(tm.subterms(t))
    return r


def mentions(m, a):
    return any(x is a or a in tm_subs(x) for x, _ in m)
