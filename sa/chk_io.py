"""Readers: decoded values against the reference decoders, on structured text."""
import os
import re
from . import run, lib2, model, terms as tm, strings as st, compare as cm, framework as fw
from .framework import obligation, repo_files, holds, violated, undecided, funcline, decide, SPEC
from .terms import sym, num, mk, ite, index, TRUE, FALSE, NONE, UNDEF, BINDERS, BIND, open_, subst, Fr
from .chk_num import size

P = sym('p_file', 'str')


def files_with_spec():
    return dict(repo_files(), spec_io=os.path.join(SPEC, 'io.py'))


def paths(I, n=None):
    return I.alloc('list', (sym('l_paths', 'arr', rank=1, elem='str', len=n or size('F', 1)), ()), roots={'paths'})


def call(fname, ship, arg=None, seam=None, mod='io', kw=None, **ev):
    """outcome of a reader; seam: name of the reference parser to pass as ship_function"""
    def make(I):
        k = dict(kw(I)) if kw else {}
        if seam:
            k['ship_function'] = I.public('spec_io', seam)
        return [mk('str', ship), arg(I) if arg else P] if fname == 'read_nav' else [arg(I) if arg else P, mk('str', ship)], k, {}
    return run.evaluate(files_with_spec(), mod, fname, make, **ev)


class Known:
    """decides, while the code is interpreted, what the text of the lines of a file decides"""

    def __init__(self):
        self.R = st.Refiner({})

    def __call__(self, t):
        try:
            r = self.R.go(t)
        except (tm.Overflow, st.Fails, st.Undec):
            return t
        return t if r is t or st.undefs(r) and not st.undefs(t) else r


CLOCKS = [  # day, month, day of the year, hour, minute, second of successive records
    [(27, 2, 58, 22, 59, 58), (27, 2, 58, 23, 59, 59), (28, 2, 59, 0, 0, 0), (28, 2, 59, 0, 0, 1), (1, 3, 60, 0, 0, 1), (1, 3, 60, 11, 30, 1), (1, 3, 60, 11, 30, 2), (2, 3, 61, 9, 1, 0)],
    [(4, 7, 185, 11, 59, 59), (4, 7, 185, 12, 0, 0), (4, 7, 185, 12, 0, 0), (4, 7, 185, 12, 0, 1), (4, 7, 185, 11, 58, 0), (5, 7, 186, 12, 0, 1), (5, 7, 186, 12, 0, 2), (9, 7, 190, 1, 2, 3)]]


def filled(text, i, n):
    """record i with digits of its own: times follow a clock, the rest changes little from one record to the next"""
    d, m, j, H, M, S = CLOCKS[n % 2][i % 8]
    known = {'Y': 2021, 'y': 21, 'm': m, 'd': d, 'j': j, 'H': H, 'M': M, 'S': S, 'a': H, 'b': M, 'c': S, 'p': 1614466798 + 3600 * i, 'la': 44, 'lm': 3 + i, 'lo': 121, 'om': 57 - i}

    def one(q):
        x, w = q.group(1), int(q.group(2))
        if x in known and len(str(known[x])) <= w:
            return str(known[x]).zfill(w)
        return str((sum(map(ord, x)) * 7919 + 104729 * (i * (n + 1) % 5)) * 1000003 % 10 ** w).zfill(w)
    return re.sub(r'\{(\w+):(\d+)\}', one, text)


def few_lines(texts, path=None):
    """interpretation on a file of these very lines: loops over them are unrolled"""
    def setup(I):
        I.texts = {P if path is None else path: [mk('str', x) for x in texts]}
        I.refine = Known()
    return setup


# --------------------------------------------------------------------------
# navigation
# --------------------------------------------------------------------------
class Rewrite(st.Refiner):
    """bottom-up rewriting: hook(op, args) -> term or None"""

    def __init__(self, hook):
        st.Refiner.__init__(self, {})
        self.hook = hook

    def apply(self, op, a, t):
        r = self.hook(op, a)
        if r is not None:
            return r
        if t is not None and len(a) == len(t.args) and all(p is q for p, q in zip(a, t.args)):
            return t
        return tm.build(op, *a)


class Opaque(Rewrite):
    """replace the time of a record by an opaque symbol, wherever it occurs"""

    def __init__(self, exprs):
        Rewrite.__init__(self, lambda op, a: None)
        self.exprs = exprs

    def _go(self, t):
        if t.op in BINDERS:
            n = self.go(t.args[0])
            v, bodies = open_(t)
            for k, e in self.exprs:
                for x in [e] + leaves(e):
                    if k in x.fs:
                        self.env[subst(x, {k: v})] = index(sym('time', 'arr', rank=1, elem='num'), v)
            return BIND[t.op](n, v, *[self.go(b) for b in bodies])
        return Rewrite._go(self, t)


def leaves(t):
    return leaves(t.args[1]) + leaves(t.args[2]) if t.op == 'ite' else [t]


def hide_times(t):
    ex = []
    for x in tm.subterms(t):
        if x.op == 'nunique' and x.args[0].op in ('filt', 'map'):
            v, b = open_(x.args[0])
            if v in b[-1].fs:
                ex.append((v, b[-1]))
    return Opaque(ex)(t) if ex else t


def mask_datetime(keep):
    def hook(op, a):
        if op == 'datetime':
            return mk('datetime', *[x if i in keep else (tm.ONE if i in (1, 2) else num(2000) if i == 0 else tm.ZERO) for i, x in enumerate(a)])
        return None
    return Rewrite(hook)


PRE = {'Atlantis': 'NAV {Y:4}/{m:2}/{d:2} {a:2}:{b:2}:{c:2}.{e:3} GPS $',
       'Thompson': '{m:2}/{d:2}/{Y:4},{a:2}:{b:2}:{c:2}.{e:3},$',
       'NBP': '{y:2}+{j:3}:{a:2}:{b:2}:{c:2}.{e:3} $',
       'Ride': '{p:10}.{q:3} $',
       'RideGP': '{Y:4}-{m:2}-{d:2}T{a:2}:{b:2}:{c:2}.{e:6}Z\t?$',
       'Sikuliaq': '{Y:4}-{m:2}-{d:2}T{a:2}:{b:2}:{c:2}.{e:6}Z\t?$',
       'Langseth': 'seapath\t{Y:4}:{j:3}:{a:2}:{b:2}:{c:2}.{e:4}\t$',
       'Revelle': '$'}
TALKER = {'Atlantis': 'GPGGA', 'Thompson': 'INGGA', 'NBP': 'GPGGA', 'Ride': 'INGGA', 'RideGP': 'GPGGA', 'Sikuliaq': 'GPGGA', 'Langseth': 'INGGA',
          'Revelle': 'GPGGA'}
TAIL = ',2,12,0.9,25.169,M,-30.062,M,4.0,0402*46\n'
OTHER = '$GPVTG,136.2,T,,,6.61,N,12.24,K,D*40\n'


def sentence(ship, clock='{H:2}{M:2}{S:2}.{f:2}', lat='{la:2}{lm:2}.{lf:6}', ns='N', lon='{lo:3}{om:2}.{of:6}', ew='W', pre=None):
    return (PRE[ship] if pre is None else pre) + TALKER[ship] + ',%s,%s,%s,%s,%s' % (clock, lat, ns, lon, ew) + TAIL


class PerLine(st.Refiner):
    """a file of any number of lines, each of one of the layouts or not of the talker: the work on one line is refined layout by layout"""

    def __init__(self, layouts, path=P, env=()):
        st.Refiner.__init__(self, dict(env))
        self.lines, self.layouts = mk('lines', path), layouts

    def _go(self, t):
        if t.op in BINDERS:
            v, bodies = open_(t)
            at = index(self.lines, v)
            if any(at in set(tm.subterms(b)) for b in bodies):
                n = self.go(t.args[0])
                return BIND[t.op](n, v, *[self.cases(b, at, v) for b in bodies])
        return st.Refiner._go(self, t)

    def cases(self, b, at, v):
        def one(text):
            sub = PerLine(self.layouts, self.lines.args[0], self.env)
            sub.env[at] = text
            return sub.go(b)
        out = one(mk('str', OTHER))
        for i, x in reversed(list(enumerate(self.layouts))):
            out = ite(index(sym('b_kind%d' % i, 'arr', rank=1, elem='bool', len=LINES), v), one(st.layout(x, v, 'r%d' % i)), out)
        return out


LINES = size('L', 1)


def lines_of(layouts):
    def make():
        return PerLine(layouts, env={tm.length(mk('lines', P)): LINES})
    make.few = [layouts[0], OTHER] + (layouts * 7)[1:7]
    return make


def dated_lines(texts):
    """a file with these very lines; {name} digits of line i are its own"""
    return lambda: st.Refiner({mk('lines', P): tm.vec(*[st.layout(x, num(i), '') for i, x in enumerate(texts)])})


def columns(names):
    """project the columns of every frame of a value"""
    def go(t):
        if t.op == 'ite':
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if t.op == 'df':
            return mk('df', t.args[0], tuple((n, c) for n, c in t.args[1] if n in names), *t.args[2:])
        return t
    return go


def calm(t):
    """a track without a jump of a degree"""
    m = {x: FALSE if x.op == 'any' else tm.ZERO for x in tm.subterms(t) if x.op in ('any', 'count') and
         any(y.op == 'abs' for y in tm.subterms(x))}
    return tm.rewrite(t, m)


def within(seconds, f, *args, **kw):
    try:
        return run.limited(seconds, lambda: f(*args, **kw))
    except run.Timeout:
        return None


def unrolled(v, texts, names, ship, seam, kws, where):
    """an obligation that is undecided for any number of lines, on a file of few"""
    for n in range(2):
        lines = [filled(x, i, n) for i, x in enumerate(texts)]
        o = call('read_nav', ship, kw=kws, setup=few_lines(lines), seconds=15)
        r = call('read_nav', ship, seam=seam, kw=kws, setup=few_lines(lines), seconds=15)
        if o.error or r.error:
            return v
        K = Known()
        a, b = columns(names)(K(o.value)), columns(names)(K(r.value))
        m = a is not b and within(15, model.refute, a, b, tries=1)
        if m:
            return violated('read_nav(%s) on %d lines %s: %s instead of %s' % (ship, len(lines), m[0], m[1], m[2]), where, lines=lines)
    return v


def nav_obligation(prop, label, ship, lines, names, post=lambda t: t, known=(), thorough=False, kw=None, real=None):
    few = getattr(lines, 'few', None)

    def check():
        real_ = real or ('Ride' if ship == 'RideGP' else ship)
        kws = kw or ((lambda I: {'talker': mk('str', 'GPGGA')}) if ship == 'RideGP' else None)
        seam = 'RideGP' if ship == 'Sikuliaq' else ship
        C = cm.Comparer()
        o = call('read_nav', real_, kw=kws)
        r = call('read_nav', real_, seam=seam, kw=kws)
        where = funcline('io', '_navcoords' if prop == 'C06' else 'read_nav')
        if o.error or r.error:
            return undecided('%s' % (o.error or r.error), where)
        R = lines()
        proj = columns(names)

        def part(x):
            return post(proj(R(x.value)))
        alts = [(key, call('read_nav', real_, seam=f, kw=kws)) for key, f in known]
        v = decide(C, o, r, part, where, 'read_nav(%s)' % real_, alts)
        if v.status == 'undecided' and few and not alts:
            v = unrolled(v, few, names, real_, seam, kws, where)
        v.detail.update(pairs=C.pairs, numeric=C.numeric, analysed=sorted('%s' % (x,) for x in o.analysed))
        return v
    check.__name__ = label
    fw.PROPS.setdefault(prop, []).append((label, check, thorough))


# -- C06
HEMI = [('N', 'E'), ('N', 'W'), ('S', 'E'), ('S', 'W')]
for _s in PRE:
    if _s == 'Revelle':
        continue
    nav_obligation('C06', '%s: all hemispheres' % _s, _s, lines_of([sentence(_s, ns=a, ew=b) for a, b in HEMI]), ('lon', 'lat'), lambda t: calm(hide_times(t)))
    nav_obligation('C06', '%s: dropouts' % _s, _s,
                   lines_of([sentence(_s), sentence(_s, lat=''), sentence(_s, lon=''), sentence(_s, lat='', ns='', lon='', ew='')]), ('lon', 'lat'), lambda t: calm(hide_times(t)))
for _n in range(0, 9):
    _f = '.{lf:%d}' % _n if _n else ''
    nav_obligation('C06', 'Atlantis: %d decimals of minutes' % _n, 'Atlantis',
                   lines_of([sentence('Atlantis', lat='{la:2}{lm:2}' + _f, ns='S', lon='{lo:3}{om:2}' + _f)]), ('lon', 'lat'), lambda t: calm(hide_times(t)))

# -- C07
for _s in ('Atlantis', 'NBP', 'Thompson'):
    _k = [('thompson-fraction', 'ThompsonWhole')] if _s == 'Thompson' else []
    for _n in range(0, 7):
        nav_obligation('C07', '%s: %d decimals of the clock' % (_s, _n), _s,
                       lines_of([sentence(_s, clock='{H:2}{M:2}{S:2}' + ('.{f:%d}' % _n if _n else ''))]), ('time_sec', 'stamps'),
                       mask_datetime({3, 4, 5, 6, 7}), _k)
    nav_obligation('C07', '%s: any clock decimals' % _s, _s,
                   lines_of([sentence(_s, clock='{H:2}{M:2}{S:2}' + ('.{f:%d}' % _n if _n else '')) for _n in range(0, 7)]), ('time_sec', 'stamps'),
                   mask_datetime({3, 4, 5, 6, 7}), _k)

# -- C08
for _s in PRE:
    if _s == 'Revelle':
        continue
    nav_obligation('C08', '%s' % _s, _s, lines_of([sentence(_s, clock='{H:2}{M:2}{S:2}.00')]), ('time_sec', 'stamps'))
# the fraction of the vessels that give the time in the prefix, and days of the year of two digits
for _n in range(0, 7):
    _f = '.{e:%d}' % _n if _n else ''
    if _n:
        for _s in ('RideGP', 'Sikuliaq'):
            nav_obligation('C08', '%s: %d decimals of the time' % (_s, _n), _s,
                           lines_of([sentence(_s, pre='{Y:4}-{m:2}-{d:2}T{a:2}:{b:2}:{c:2}%sZ\t?$' % _f)]), ('time_sec', 'stamps'))
        nav_obligation('C08', 'Langseth: %d decimals of the time' % _n, 'Langseth',
                       lines_of([sentence('Langseth', pre='seapath\t{Y:4}:{j:3}:{a:2}:{b:2}:{c:2}%s\t$' % _f)]), ('time_sec', 'stamps'))
    nav_obligation('C08', 'Ride: %d decimals of the time' % _n, 'Ride', lines_of([sentence('Ride', pre='{p:10}%s $' % _f)]), ('time_sec', 'stamps'))
for _x in ('{j:2}', '0{j:2}'):
    nav_obligation('C08', 'NBP: day %s of the year' % _x, 'NBP',
                   lines_of([sentence('NBP', clock='{H:2}{M:2}{S:2}.00', pre='{y:2}+%s:{a:2}:{b:2}:{c:2}.{e:3} $' % _x)]), ('time_sec', 'stamps'))

# Revelle: the date is on an earlier line
DATED = '{Y:4}-{m:2}-{d:2}T{a:2}:{b:2}:{c:2}.{e:6}Z $GPZDA,{u:6}.00,05,11,2022,00,00*61\n'
FIX = _g = sentence('Revelle', clock='{H:2}{M:2}{S:2}.00')
REVELLE = {'one date per fix': [DATED, _g, DATED, _g],
           'other lines between': [OTHER, DATED, OTHER, _g, OTHER, DATED, OTHER, OTHER, _g],
           'a date far before a fix': [DATED] + [OTHER] * 40 + [_g] + [OTHER] * 3 + [DATED] + [OTHER] * 12 + [_g],
           'several dates before a fix': [DATED, DATED, OTHER, _g, DATED, OTHER, DATED, _g, OTHER]}
for _l, _x in REVELLE.items():
    nav_obligation('C08', 'Revelle: %s' % _l, 'Revelle', dated_lines(_x), ('time_sec', 'stamps'))
    nav_obligation('C06', 'Revelle: %s' % _l, 'Revelle', dated_lines(_x), ('lon', 'lat'), calm)
for _n in range(0, 7):
    nav_obligation('C07', 'Revelle: %d decimals of the clock' % _n, 'Revelle',
                   dated_lines([DATED, sentence('Revelle', clock='{H:2}{M:2}{S:2}' + ('.{f:%d}' % _n if _n else ''))] * 2), ('time_sec', 'stamps'),
                   mask_datetime({3, 4, 5, 6, 7}))


# --------------------------------------------------------------------------
# tables of records
# --------------------------------------------------------------------------
CSV = ('csv', 'csvr', 'fwf', 'fwfr')


class Table(PerLine):
    """a file of header lines and any number of records, each of one of the layouts; tables are read off the lines"""

    def __init__(self, layouts, header=(), path=P, env=(), seq=None, tag=''):
        env = dict(env)
        self.header, self.seq, self.tag = header, seq, tag
        self.nrec = LINES if seq is None else num(len(seq))
        env.setdefault(tm.length(mk('lines', path)), tm.add(self.nrec, num(len(header))))
        PerLine.__init__(self, layouts, path, env)
        self.path = path
        self.types = {}

    # -- how the options cut the file
    def skipped(self, opts):
        """number of header lines the options skip, or None"""
        o = dict(opts.args[0])
        h = 0
        for k, v in o.items():
            if k == 'skiprows':
                c = tm.const_of(v) if isinstance(v, tm.T) else v
                if c is None:
                    return None
                h = max(h, int(c))
            elif k == 'comment':
                if v.op != 'str':
                    return None
                if all(x.startswith(v.args[0]) for x in self.header):
                    h = max(h, len(self.header))
            elif k not in ('sep', 'skipinitialspace', 'encoding', 'encoding_errors', 'on_bad_lines'):
                return None
        return h

    def row(self, opts, text, op):
        o = dict(opts.args[0])
        cs = st.chars(text)
        if cs and cs[-1] == '\n':
            cs = cs[:-1]
        if 'comment' in o:
            k = st.find(cs, tuple(o['comment'].args[0]))
            cs = cs[:k] if k >= 0 else cs
        sep = o.get('sep')
        if op[:3] == 'fwf' or (sep is not None and sep.args[0] == r'\s+'):
            out = st.split(cs, None)
        elif len(sep.args[0]) == 1:
            out = st.split(cs, tuple(sep.args[0]))
        elif sep.args[0] in (',\\s*', '\\s*,\\s*'):
            out = [st.strip(x, None, 'lstrip' if sep.args[0][0] == ',' else 'strip') for x in st.split(cs, (',',))]
        else:
            raise st.Undec()
        if o.get('skipinitialspace') is TRUE:
            out = [st.strip(x, None, 'lstrip') for x in out]
        return out

    def field(self, op, opts, i, text):
        f = self.row(opts, text, op)
        if i >= len(f):
            return tm.NAN
        if op in ('csvr', 'fwfr'):
            return st.S(f[i])
        ty = self.types.get((opts, i))
        if ty is None:
            ty = 'num'
            for x in self.layouts:
                c = self.row(opts, st.layout(x, tm.ZERO), op)
                try:
                    if i < len(c) and st.strip(c[i], None, 'strip'):
                        st.tofloat(c[i])
                except st.Fails:
                    ty = 'str'
            self.types[(opts, i)] = ty
        if not st.strip(f[i], None, 'strip'):
            return tm.NAN
        return st.tofloat(f[i]) if ty == 'num' else st.S(f[i])

    def mine(self, t):
        return t.op in CSV and t.args[0] is self.path and self.skipped(t.args[1]) == len(self.header)

    def shift(self, opts):
        """records skipped too many (> 0), or header lines read as records (< 0)"""
        h = self.skipped(opts)
        return None if h is None else h - len(self.header)

    def shifted(self, t):
        d = self.shift(t.args[1])
        if d < 0:
            head = []
            for x in self.header[d:]:
                try:
                    f = self.row(t.args[1], mk('str', x), t.op)
                    head.append(st.S(f[t.args[2]]) if t.args[2] < len(f) else tm.NAN)
                except st.Fails:
                    head.append(UNDEF)
            self.types.setdefault((t.args[1], t.args[2]), 'str')
            if self.seq is not None:
                return tm.vec(*head, *[self.at(index(t, num(i)), num(i)) for i in range(len(self.seq))])
            return tm.concat(tm.vec(*head), tm.mapf(self.nrec, lambda v: self.at(index(t, v), v)))
        if self.seq is not None:
            return tm.vec(*[self.at(index(t, num(i)), num(i)) for i in range(d, len(self.seq))])
        return tm.mapf(tm.sub(self.nrec, num(d)), lambda v: self.at(index(t, tm.add(v, num(d))), tm.add(v, num(d))))

    def _go(self, t):
        if t.op == 'nrows' and t.args[0] is self.path and self.skipped(t.args[1]) == len(self.header):
            return self.nrec
        if t.op == 'nrows' and t.args[0] is self.path and self.shift(t.args[1]) is not None:
            return tm.sub(self.nrec, num(self.shift(t.args[1])))
        if t.op in CSV and t.args[0] is self.path and self.shift(t.args[1]):
            return self.shifted(t)
        if t is self.lines and self.seq is not None:
            return tm.vec(*[mk('str', x) for x in self.header], *[self.text(num(i), j) for i, j in enumerate(self.seq)])
        if self.mine(t) and self.seq is not None:
            return tm.vec(*[self.at(index(t, num(i)), num(i)) for i in range(len(self.seq))])
        if self.mine(t):
            return tm.mapf(self.nrec, lambda v: self.at(index(t, v), v))
        if t.op == 'index' and self.mine(t.args[0]):
            k = self.go(t.args[1])
            if self.seq is not None and tm.const_of(k) is None:
                return index(self.go(t.args[0]), k)
            return self.at(index(t.args[0], k), k)
        if t.op == 'index' and t.args[0] is self.lines:
            k = self.go(t.args[1])
            if self.seq is not None and tm.const_of(k) is None:
                return index(self.go(t.args[0]), k)
            if not self.header or tm.const_of(k) is not None and tm.const_of(k) >= len(self.header):
                return self.at(index(self.lines, k), tm.sub(k, num(len(self.header))))
        if t.op in BINDERS and self.seq is None:
            v, bodies = open_(t)
            hit = set()
            for b in bodies:
                for q in tm.subterms(b):
                    if q.op == 'index' and v in q.args[1].fs and (q.args[1] is v and self.mine(q.args[0]) or
                                                                   q.args[0] is self.lines and q.args[1] is tm.add(v, num(len(self.header)))):
                        hit.add(q)
            if hit:
                n = self.go(t.args[0])
                cases = [self.rowcases(b, hit, v) for b in bodies]
                if t.op == 'filt':          # nothing is made of the records that are not selected
                    cases[1] = [tm.UNDEF if p is FALSE else b for p, b in zip(*cases)]
                return BIND[t.op](n, v, *[self.choose(c, v) for c in cases])
        return st.Refiner._go(self, t)

    def text(self, k, i):
        return st.layout(self.layouts[i], k, '%sr%d' % (self.tag, i))

    def value(self, q, k, i):
        """what q (a field or the line of record k) is under layout i"""
        if q.args[0] is self.lines:
            return self.text(k, i)
        return self.field(q.args[0].op, q.args[0].args[1], q.args[0].args[2], self.text(k, i))

    def kind(self, k, i):
        return index(sym('b_kind%d' % i, 'arr', rank=1, elem='bool', len=LINES), k)

    def at(self, q, k):
        if self.seq is not None:
            c = tm.const_of(k)
            if c is None or not 0 <= c < len(self.seq):
                raise tm.Overflow('record %s of a file of %d' % (tm.show(k, 3), len(self.seq)))
            return self.value(q, k, self.seq[int(c)])
        out = self.value(q, k, len(self.layouts) - 1)
        for i in reversed(range(len(self.layouts) - 1)):
            out = ite(self.kind(k, i), self.value(q, k, i), out)
        return out

    def rowcases(self, b, hit, v):
        out = []
        for i in range(len(self.layouts)):
            sub = type(self).__new__(type(self))
            sub.__dict__.update(self.__dict__)
            sub.env, sub.memo = dict(self.env), {}
            for q in hit:
                sub.env[q] = self.value(q, v, i)
            out.append(sub.go(b))
        return out

    def choose(self, cases, v):
        out = cases[-1]
        for i in reversed(range(len(cases) - 1)):
            out = ite(self.kind(v, i), cases[i], out)
        return out


def posix(t):
    """seconds since the epoch of an aware datetime; anything else stays what it is"""
    if t.op == 'ite':
        return ite(t.args[0], posix(t.args[1]), posix(t.args[2]))
    if t.op == 'datetime':
        if t.args[7] is lib2.UTC:
            return lib2.timestamp(t)
        return mk('naive', *t.args)
    return t


def posix_columns(names=('date_time', 'stamps')):
    """time columns as posix seconds (naive ones marked)"""
    def go(t):
        if t.op == 'ite':
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if t.op == 'df':
            n, cols = t.args[:2]
            return mk('df', n, tuple((k, each(n, c) if k in names else c) for k, c in cols), *t.args[2:])
        return t

    def each(n, c):
        if c.op == 'vec':
            return tm.vec(*[posix(x) for x in c.args])
        if c.op == 'ite':
            return ite(c.args[0], each(n, c.args[1]), each(n, c.args[2]))
        if c.op in ('map', 'filt'):
            v, b = open_(c)
            return BIND[c.op](c.args[0], v, *[posix(x) if i == len(b) - 1 else x for i, x in enumerate(b)])
        if c is tm.EMPTY:
            return c
        return tm.mapf(n, lambda k: posix(index(c, k)))
    return go


READERS = []


def reader(prop, label, fname, ship, spec, layouts, header=(), kw=None, names=None, thorough=False, known=(), seq=None):
    """obligation: the frame a reader makes of one file of any number of records of these layouts is the reference's"""
    if seq is None:
        n = len(layouts)
        READERS.append((label, fname, ship, layouts, header, kw))
        reader(prop, label + ': %d records' % (n + 2), fname, ship, spec, layouts, header, kw, names, thorough, known, tuple(reversed(range(n))) + (0, n - 1))
    def check():
        C = cm.Comparer()
        o = call(fname, ship, kw=kw)
        r = run.evaluate(files_with_spec(), 'spec_io', spec, lambda I: ([P], kw(I) if kw else {}, {}))
        where = funcline('io', fname)
        if o.error or r.error:
            return undecided('%s' % (o.error or r.error), where)
        px = posix_columns()
        proj = columns(names) if names else (lambda t: t)

        def part(x):
            T = Table(layouts, header, seq=seq)
            return px(proj(T(x.value)))
        v = decide(C, o, r, part, where, '%s(%s)' % (fname, ship))
        if v.status == 'undecided' and not known:
            v = few_records(v, fname, ship, spec, layouts, header, kw, names, where)
        v.detail.update(pairs=C.pairs, numeric=C.numeric, analysed=sorted('%s' % (x,) for x in o.analysed))
        return v
    check.__name__ = label
    fw.PROPS.setdefault(prop, []).append((label, check, thorough))


def few_records(v, fname, ship, spec, layouts, header, kw, names, where):
    """an obligation that is undecided for any number of records, on a file of few of them (some of them the same)"""
    px = posix_columns()
    proj = columns(names) if names else (lambda t: t)
    for n, at in enumerate(((0, 1, 2, 3, 4, 5), (0, 1, 2, 3, 4, 5), (0, 1, 1, 2, 2, 0))):
        kinds = [layouts[i % len(layouts)] for i in range(len(layouts) if len(layouts) > 6 else 6)]
        lines = [filled(kinds[i], i, n % 2) for i in (at if len(kinds) == 6 else range(len(kinds)))]
        setup = few_lines(list(header) + lines)
        o = call(fname, ship, kw=kw, setup=setup, seconds=15)
        r = run.evaluate(files_with_spec(), 'spec_io', spec, lambda I: ([P], kw(I) if kw else {}, {}), setup=setup, seconds=15)
        if o.error or r.error:
            return v

        def part(x):
            K = Known()
            return K(px(proj(K(Table(lines, header, seq=tuple(range(len(lines))))(x.value)))))
        try:
            a, b = part(o), part(r)
        except tm.Overflow:
            return v
        m = a is not b and within(15, model.refute, a, b, tries=1)
        if os.environ.get('SA_DEBUG'):
            print('  few records %d: %s' % (n, m))
        if m:
            return violated('%s(%s) on %d records %s: %s instead of %s' % (fname, ship, len(lines), m[0], m[1], m[2]), where, lines=lines)
    return v


# -- C11
BGM = {'Atlantis': 'BGM {Y:4}/{m:2}/{d:2} {H:2}:{M:2}:{S:2}.{f:3} BGM3 {p:2}:{c:6} 00\n',
       'Thompson': '{m:2}/{d:2}/{Y:4},{H:2}:{M:2}:{S:2}.{f:3},{p:2}:{c:6} 00\n',
       'Revelle': '{Y:4}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:6}Z {p:2}:{c:6} 00\n',
       'Langseth': 'vc01\t{Y:4}:{j:3}:{H:2}:{M:2}:{S:2}.{f:4}\t{p:2}:{c:6} 00\n'}
for _s, _x in BGM.items():
    reader('C11', '%s: counts, time, rgrav' % _s, 'read_bgm_raw', _s, 'bgm_' + _s, [_x])
    reader('C11', '%s: given scale' % _s, 'read_bgm_raw', _s, 'bgm_' + _s, [_x], kw=lambda I: {'scale': sym('c_scale', 'num')})
RGS = ('RGS {Y:4}/{m:2}/{d:2} {H:2}:{M:2}:{S:2}.{f:3} {g:6}.{h:3} {c:5} {p:10}.{q:3} {s:1}.{t:9} {u:6}.{v:3} BGM3 S210 GPS: %s{la:2}.{lb:6} %s{lo:3}.{lp:6} '
       '{w:10}.{x:3} 0 0 UNKNOWN_SRC 0.010 135.000 DEPTH: -999 -999 NONE HDG: {hd:3}.{he:3} {z:10}.{zz:3} SRC_GYRO NO_DNV_ERROR 1656633600.445 -999\n')
for _s in ('Atlantis', 'NBP'):
    reader('C11', '%s: RGS' % _s, 'read_bgm_rgs', _s, 'rgs', [RGS % (a, b) for a in ('', '-') for b in ('', '-')])


# -- C09
def real(name, n, sign):
    """a fixed-width number as the meter writes it"""
    return '%s{%s_:%d}.{%s__:6}' % (sign, name, n, name)


def laptop(sign, prefix='', date='{Y:4},{m:2},{d:2},{H:2},{M:2},{S:2}.{f:2}', end=',{nn:7}\n', fields=25):
    x = ['{fg:5}.{fh:6}', real('gr', 4, sign), real('lo', 1, sign), real('cr', 1, sign), real('be', 1, sign), '{te:2}.{tf:6}', '           {st:5}',
         '         {ck:7}', '{pr:2}.{pq:6}', '{et:2}.{eu:6}', real('ve', 1, sign), real('vc', 2, sign), real('al', 1, sign), real('ax', 1, sign),
         real('la', 2, sign), real('ln', 3, sign), '{sp:2}.{sq:4}', '{co:3}.{cq:4}', '{vm:1}.{vn:6}'] + date.split(',')
    return prefix + ','.join(x[:fields]) + end


SKQ = tuple('# line %d\n' % i for i in range(19))
SIGNS = ('', '-', ' -')
LAPTOP = ('rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'year', 'month', 'day', 'hour', 'minute', 'second', 'date_time')
for _s in ('Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest'):
    reader('C09', _s, 'read_dgs_laptop', _s, 'laptop_general', [laptop(g) for g in SIGNS], names=LAPTOP)
reader('C09', 'Sikuliaq', 'read_dgs_laptop', 'Sikuliaq', 'laptop_Sikuliaq',
       [laptop(g, 'grav_dgs_33_proc\t{Y:4}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:4}Z\t', date='{Yy:4},{my:2},{dy:2},{Hy:2},{My:2},{Sy:2}.{fy:2}')
        for g in SIGNS], SKQ, names=LAPTOP)
reader('C09', 'Thompson', 'read_dgs_laptop', 'Thompson', 'laptop_Thompson',
       [laptop(g, '{m:2}/{d:2}/{Y:4},{H:2}:{M:2}:{S:2}.{f:3},', date='{Yy:4},{my:2},{dy:2},{Hy:2},{My:2},{Sy:2}.{fy:2}') for g in SIGNS],
       names=('rgrav', 've', 'vcc', 'al', 'ax', 'lat', 'lon', 'date_time'))
_p = 'dgsdata\t{Yp:4}:{jp:3}:{hp:2}:{mp:2}:{sp_:2}.{fp:4}\t'
reader('C09', 'Langseth', 'read_dgs_laptop', 'Langseth', 'laptop_Langseth', [laptop('-', _p), laptop(' ', _p), laptop('', '  ' + _p), laptop(' -')], names=LAPTOP)
reader('C09', 'Langseth: odd lines', 'read_dgs_laptop', 'Langseth', 'laptop_Langseth',
       [laptop('-', _p), laptop(' -'), laptop('', _p, end=',{n_:7},{nn:7}\n'), laptop('', _p, end='\n'), laptop('', _p, end='\n', fields=3),
        'dgsdata\n', 'dgsdata {Y:4}\n', '\n'], names=LAPTOP)


def blank(x, *fields):
    """the layout with other contents in some fields"""
    for old, new in fields:
        assert x.count(old) == 1
        x = x.replace(old, new)
    return x


_l = laptop('', _p)
_la, _ln, _st = real('la', 2, ''), real('ln', 3, ''), '           {st:5}'
reader('C09', 'Langseth: fields without a number', 'read_dgs_laptop', 'Langseth', 'laptop_Langseth',
       [_l, blank(_l, (_la, ''), (_ln, '')), blank(_l, (_st, '      *****')), laptop('', _p, end=',\n'), laptop('', _p, end=',{nn:7},\n')], names=LAPTOP)
for _s in ('Atlantis', 'DGStest'):
    reader('C09', '%s: no position' % _s, 'read_dgs_laptop', _s, 'laptop_general', [laptop(''), blank(laptop(''), (_la, ''), (_ln, ''))], names=LAPTOP)


# -- C10
def serial(sign, head='$AT1M_3.64_{nn:6}', stamp='{Y:4}{m:2}{d:2}{H:2}{M:2}{S:2}', end='\n'):
    i = lambda name, n: '%s{%s_:%d}' % (sign, name, n)
    x = [head, i('gr', 6), i('lo', 5), i('cr', 5), '{be:7}', '{te:3}', '{pr:3}', '{et:3}', i('vc', 7), i('ve', 6), i('al', 5), i('ax', 4), '{st:3}', '{ck:7}',
         real('la', 2, sign), real('ln', 3, sign), '{sp:2}.{sq:4}', '{co:3}.{cq:4}', stamp]
    return ','.join(x) + end


for _on in (True, False):
    _t = 'scaled' if _on else 'as recorded'
    _kw = (lambda on: lambda I: {} if on else {'scale_ccp': FALSE})(_on)
    for _s in ('Atlantis', 'Revelle', 'NBP', 'Ride', 'Langseth'):
        reader('C10', '%s, %s: stamped' % (_s, _t), 'read_dgs_raw', _s, 'raw_stamped', [serial(g, stamp='20{y:2}{m:2}{d:2}{H:2}{M:2}{S:2}') for g in ('', '-')], kw=_kw)
        reader('C10', '%s, %s: logging time before' % (_s, _t), 'read_dgs_raw', _s, 'raw_prefixed',
               [serial(g, '20{y:2}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:6}Z $AT1M_3.64_{nn:6}', '1{u:9}') for g in ('', '-')], kw=_kw)
        reader('C10', '%s, %s: no time' % (_s, _t), 'read_dgs_raw', _s, 'raw_untimed', [serial(g, stamp='1{u:9}') for g in ('', '-')], kw=_kw)
    for _s in ('Atlantis', 'Revelle'):
        _h = '20{y:2}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:6}Z $AT1M_3.64_{nn:6}'
        reader('C10', '%s, %s: clock synchronised later' % (_s, _t), 'read_dgs_raw', _s, 'raw_prefixed', [serial('', _h, '1{u:9}'), serial('', _h, '20{uy:2}{um:2}{ud:2}{uH:2}{uM:2}{uS:2}')],
               kw=_kw, seq=(0, 0, 1, 0, 1))
        reader('C10', '%s, %s: no position' % (_s, _t), 'read_dgs_raw', _s, 'raw_stamped',
               [serial('', stamp='20{y:2}{m:2}{d:2}{H:2}{M:2}{S:2}'), blank(serial('', stamp='20{y:2}{m:2}{d:2}{H:2}{M:2}{S:2}'), (_la, ''), (_ln, ''))], kw=_kw)
    reader('C10', 'Thompson, %s' % _t, 'read_dgs_raw', 'Thompson', 'raw_Thompson',
           [serial(g, '{m:2}/{d:2}/{Y:4},{H:2}:{M:2}:{S:2}.{f:3},$AT1M_3.61_{nn:7}', '{u:11}', ' \n') for g in ('', '-')], kw=_kw)
    reader('C10', 'Sikuliaq, %s' % _t, 'read_dgs_raw', 'Sikuliaq', 'raw_Sikuliaq',
           [serial(g, 'grav_dgs_33_raw\t{Y:4}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:4}Z\t$AT1M_3.64_{nn:6}', '{u:6}') for g in ('', '-')], SKQ, kw=_kw)


# -- C12
FEEDS = {'PHXDT': ('${:.2}HDT,{Heading:og},T*{CheckSum:x}', ['Heading:og', 'T*CheckSum:x']),
         'PHVTG': ('${:.2}VTG,{CourseTrue:of},T,{CourseMag:of},M,{Mode:w}*{CheckSum:x}', ['CourseTrue:of', 'T', 'CourseMag:of', 'M', 'Mode:w*CheckSum:x']),
         'PASHR': ('$PASHR,{GPSTime:g},{Heading:g},T,{Pitch:g}', ['GPSTime:g', 'Heading:g', 'T', 'Pitch:g'])}
FIELDS = {'Heading': {'units': 'degrees', 'description': 'heading'}, 'GPSTime': {'units': '', 'description': 'time'}, 'M': {'units': 'x'}, 'Roll': {'units': 'r'}}
YAML = {'Device': {'category': 'device_type', 'format': {k: f for k, (f, _) in FEEDS.items()}, 'fields': FIELDS}}
_w = '{Y:4}-{m:2}-{d:2}T{H:2}:{M:2}:{S:2}.{f:6}Z '
FEEDLINES = {'PHXDT': ['%s$PHXDT,{h:3}.{i:2},T*5B\r\n', '%s$PHXDT,-{h:2}.{i:1},T*{c:2}\n'],
             'PHVTG': ['%s$PHVTG,{h:3}.{i:3},T,,M,A*2D\n', '%s$PHVTG,{h:1}.{i:3},T,{j:2}.{k:1},M,A*1B\r\n'],
             'PASHR': ['%s$PASHR,{a:6}.{b:2},{h:3}.{i:2},T,-{p:1}.{q:3}\r\n', '%s$PASHR,{a:6}.{b:2},{h:3}.{i:2},T,{p:1}.{q:3}\n', '%s$PASHR,{a:6}.{b:2},,T,V\n']}


def feed(tag, given, layouts, label, seq=None, again=False):
    def check():
        C = cm.Comparer()
        path = sym('p_data', 'str')

        def setup(I):
            I.yaml_content = YAML
            if again:
                I.nlines = {path: len(seq)}

        def ref(I):
            ym = lib2.pyval(I, {c: FIELDS[c.split(':')[0]] for c in FEEDS[tag][1] if c.split(':')[0] in FIELDS})
            return [path, mk('str', '$' + tag), lib2.pyval(I, FEEDS[tag][1]), ym], {}, {}
        o = run.evaluate(files_with_spec(), 'io', 'read_other_stuff', lambda I: ([sym('p_yaml', 'str'), path, mk('str', given)], {}, {}), setup=setup)
        r = run.evaluate(files_with_spec(), 'spec_io', 'feed', ref)
        where = funcline('io', 'read_other_stuff')
        if o.error or r.error:
            return undecided('%s' % (o.error or r.error), where)

        def part(x):
            return Table(layouts, path=path, seq=seq)(x.value)
        return decide(C, o, r, part, where, 'read_other_stuff(%s)' % given)
    check.__name__ = label
    fw.PROPS.setdefault('C12', []).append((label, check, False))


for _t, _ls in FEEDLINES.items():
    for _g in (_t, '$' + _t):
        _all = [x % p for x in _ls for p in ('', _w)] + ['%s$PHGST,{a:6}.{b:2},0.{c:3}*57\r\n' % _w, '$GPZDA,{a:6}.00,05,11,2022,,*61\n',
                                                         '%s#%s,{a:6}\n' % (_w, _t), '\r\n']
        feed(_t, _g, _all, 'feed %s' % _g)
        feed(_t, _g, _all, 'feed %s: many lines' % _g, (4, 1, len(_all) - 1, 0, 5, 6, 3, 3, 2))
        feed(_t, _g, _all, 'feed %s: one record' % _g, (len(_all) - 2, len(_all) - 1, 1))
        _one = {'PHXDT': '$PHXDT,123.45,T*5B\r\n', 'PHVTG': '$PHVTG,123.4,T,,M,A*2D\n', 'PASHR': '$PASHR,123456.00,12.34,T,0.123\r\n'}[_t]
        feed(_t, _g, [_one, _all[-1], _all[1]], 'feed %s: the same line again' % _g, (0, 0, 1, 2, 0), again=True)


def rejected(label, make, content=YAML):
    """a feed that is not there is rejected: no path returns"""
    def check():
        def setup(I):
            I.yaml_content = content
        o = run.evaluate(files_with_spec(), 'io', 'read_other_stuff', make, setup=setup)
        where = funcline('io', 'read_other_stuff')
        if o.error:
            return undecided(o.error, where)
        tag = make(None)[0][2].args[0].lstrip('$')
        here = tm.app('in', mk('str', '$' + tag), mk('readall', sym('p_data', 'str')))
        left = tm.restrict(o.defined, here, False)
        if left is FALSE:
            return holds('rejected')
        if any(x.op == 'unk' for x in tm.subterms(left)):
            return undecided('condition not modelled', where)
        # still returns although the text of the tag is not in the file
        if here in set(tm.subterms(o.defined)) or left is TRUE:
            return violated('read_other_stuff returns a value for a feed that is not in the %s' % ('yaml file' if tag not in content['Device']['format'] else 'data file'), where)
        return undecided('condition not recognised', where)
    check.__name__ = label
    fw.PROPS.setdefault('C12', []).append((label, check, False))


rejected('tag not in the yaml file', lambda I: ([sym('p_yaml', 'str'), sym('p_data', 'str'), mk('str', 'PHGGA')], {}, {}))
rejected('tag not in the data file', lambda I: ([sym('p_yaml', 'str'), sym('p_data', 'str'), mk('str', 'PASHR')], {}, {}))
