"""Readers: time zones, vessel registry, overrides, several files, record integrity."""
from . import run, lib2, terms as tm, compare as cm, framework as fw, chk_io as io, model
from .framework import holds, violated, undecided, funcline, decide
from .terms import sym, num, mk, ite, index, TRUE, FALSE, NONE, UNDEF, Fr
from .chk_num import size
from .chk_io import P, call, files_with_spec


def register(prop, label, check, thorough=False):
    check.__name__ = label
    fw.PROPS.setdefault(prop, []).append((label, check, thorough))


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def frames(t):
    return [x for x in leaves(t) if x.op == 'df']


# --------------------------------------------------------------------------
# C01
# --------------------------------------------------------------------------
TIMEOPS = ('datetime', 'fromtimestamp', 'settz', 'astz', 'todt', 'strptime', 'dtparts')


def zone(d):
    """'utc', 'naive', 'local', 'other', or None (not decided) for one time value"""
    if d.op in ('datetime', 'fromtimestamp', 'settz', 'astz'):
        z = d.args[7 if d.op == 'datetime' else 1]
        if d.op == 'astz' and zone(d.args[0]) == 'naive':
            return 'local'
        if z is lib2.UTC:
            return 'utc'
        if z is NONE:
            return 'local' if d.op in ('fromtimestamp', 'astz') else 'naive'
        return 'other' if z.op in ('tz', 'str', 'num') else None
    if d.op == 'strptime':
        return 'naive'
    if d.op in ('todt', 'dtparts'):
        z = d.args[1] if d.op == 'todt' else d.args[0]
        return 'utc' if z in (TRUE, True) else None
    if d.op == 'str' or d.op == 'cstr':
        return 'text'
    if d.op in ('num', 'poly'):
        return 'number'
    return None


def times(c, n):
    """the time values of a column"""
    if c.op == 'ite':
        return times(c.args[1], n) + times(c.args[2], n)
    if c.op in ('vec', 'tup'):
        return [x for e in c.args for x in leaves(e)]
    if c.op in ('map', 'filt', 'cmap'):
        _, b = tm.open_(c)
        return [x for x in leaves(b[-1])] if c.op != 'cmap' else times(b[-1], None)
    if c.op == 'concat':
        return [x for p in c.args for x in times(p, None)]
    if c is tm.EMPTY:
        return []
    k = tm.fresh('k', 'num', int=True, lo=tm.Fr(0))
    return leaves(index(c, k))


def aware(label, o, value, column, where, needed=True):
    if o.error:
        return undecided(o.error, where)
    fr = frames(value)
    if not fr:
        return undecided('no frame: %s' % tm.show(value, 3)[:200], where)
    open_ = None
    for f in fr:
        cols = dict(f.args[1])
        if column not in cols:
            if needed and f.args[2] is NONE and len(fr) == 1:
                return violated('%s: the frame has no column %r' % (label, column), where)
            continue
        for d in times(cols[column], f.args[0]):
            if d in (UNDEF, tm.NAN):
                continue
            z = zone(d)
            for x in tm.subterms(d):
                if x.op == 'timestamp' and zone(x.args[0]) == 'naive':
                    return violated('%s: %s is made from a time without a zone, read in the zone of the machine' % (label, column),
                                    fw.locate(x, None, o.prov, where), got=tm.show(x, 5)[:300])
            if z is None:
                open_ = d
            elif z != 'utc':
                return violated('%s: %s holds %s' % (label, column, {'naive': 'timestamps without a time zone', 'local': 'local timestamps',
                                                                     'other': 'timestamps of another zone', 'text': 'texts',
                                                                     'number': 'numbers'}[z]), fw.locate(d, None, o.prov, where), got=tm.show(d, 5)[:300])
    if open_ is not None:
        return undecided('%s: %s' % (label, tm.show(open_, 4)[:200]), where)
    return holds(label)


def nav_zone(ship):
    def check():
        real = 'Ride' if ship == 'RideGP' else ship
        o = call('read_nav', real, kw=(lambda I: {'talker': mk('str', 'GPGGA')}) if ship == 'RideGP' else None)
        R = io.dated_lines([io.DATED, io.FIX] * 2) if ship == 'Revelle' else io.lines_of([io.sentence(ship)])
        return aware('read_nav(%s)' % real, o, R()(o.value) if not o.error else None, 'stamps', funcline('io', 'read_nav'))
    register('C01', 'read_nav: %s' % ship, check)


def reader_zone(label, fname, ship, layouts, header, kw):
    def check():
        o = call(fname, ship, kw=kw)
        return aware('%s(%s)' % (fname, ship), o, io.Table(layouts, header)(o.value) if not o.error else None, 'date_time', funcline('io', fname),
                     'no time' not in label)
    register('C01', '%s: %s' % (fname, label), check)


for _s in io.PRE:
    nav_zone(_s)
for _r in io.READERS:
    if 'as recorded' not in _r[0] and 'given scale' not in _r[0]:
        reader_zone(*_r)


def tide():
    """the tide reads the calendar fields of the instant in UTC: no field of a time whose zone is the caller's"""
    from .chk_num import A, S
    out = []
    for names in ({}, {'return_components': TRUE}):
        o = fw.code('grav', 'longman_tide_prediction',
                    lambda I: ([A(I, 'lon', size('N1', 1)), A(I, 'lat', size('N1', 1)), A(I, 'times', size('N1', 1), elem='dt')], dict(names), {}))
        where = funcline('grav', 'longman_tide_prediction')
        if o.error:
            return undecided(o.error, where)
        if any(x.op == 'unk' for x in tm.subterms(o.value)):
            out.append(undecided('value not modelled', where))
        for x in tm.subterms(o.value):
            bad = None
            if x.op == 'dtfield' and x.args[1].op != 'astz' and not (x.args[1].op == 'fromtimestamp' and x.args[1].args[1] is lib2.UTC):
                bad = 'reads %s of a time in the zone of the caller' % x.args[0]
            elif x.op == 'dtfield' and x.args[1].args[1] is not lib2.UTC:
                bad = 'reads %s of a time converted to %s' % (x.args[0], tm.show(x.args[1].args[1], 2))
            elif x.op == 'settz' and x.args[0].op == 'index':
                bad = 'replaces the zone of a time (the clock keeps its reading, the instant changes)'
            if bad:
                return violated('longman_tide_prediction %s' % bad, fw.locate(x, None, o.prov, where), got=tm.show(x, 4))
    return out or holds('calendar fields are of UTC times')


register('C01', 'longman_tide_prediction', tide)


# --------------------------------------------------------------------------
# C02
# --------------------------------------------------------------------------
MINUS = num(-999)


def database():
    import os
    import tomllib
    try:
        with open(os.path.join(run.REPO, 'shipgrav', 'database.toml'), 'rb') as f:
            return tomllib.load(f)
    except Exception:                       # noqa: BLE001
        return {}


DB = database()
NAVSEAM = {'Sikuliaq': 'RideGP'}
SPECS = {'read_bgm_raw': {s: 'bgm_' + s for s in io.BGM},
         'read_dgs_laptop': dict({s: 'laptop_general' for s in ('Atlantis', 'Revelle', 'NBP', 'Ride')}, Sikuliaq='laptop_Sikuliaq',
                                 Thompson='laptop_Thompson', Langseth='laptop_Langseth'),
         'read_dgs_raw': dict({s: 'raw_stamped' for s in ('Atlantis', 'Revelle', 'NBP', 'Ride', 'Langseth')}, Thompson='raw_Thompson',
                              Sikuliaq='raw_Sikuliaq'),
         'read_bgm_rgs': {'Atlantis': 'rgs', 'NBP': 'rgs'}}
KEEP = {'read_dgs_laptop': io.LAPTOP}


def own_layout(fname, ship):
    for label, f, s, layouts, header, kw in io.READERS:
        if f == fname and s == ship and kw is None or f == fname == 'read_dgs_raw' and s == ship and 'no time' not in label and 'before' not in label:
            return lambda: io.Table(layouts, header, seq=tuple(range(len(layouts))) * 2)
    return None


def nothing(v):
    """no path gives data"""
    return all(x in (MINUS, UNDEF, NONE) for x in leaves(v))


def listed(fname, ship):
    def check():
        where = funcline('io', fname)
        what = '%s(%s)' % (fname, ship)
        o = call(fname, ship)
        if o.error:
            return undecided(o.error, where)
        if nothing(o.value):
            return violated('%s: the vessel is listed, but %s' % (what, 'the call fails' if UNDEF in leaves(o.value) and MINUS not in leaves(o.value)
                                                                  else 'the reader does not accept it'), where, got=tm.show(o.value, 3))
        if fname == 'read_nav':
            if ship not in io.PRE:
                return holds('accepted')
            R = io.dated_lines([io.DATED, io.FIX] * 2) if ship == 'Revelle' else io.lines_of([io.sentence(ship)])
            post = io.posix_columns()
            refs = {s: (lambda f=s: call(fname, ship, seam=f)) for s in ('Atlantis', 'Thompson', 'ThompsonWhole', 'NBP', 'Ride', 'RideGP', 'Langseth', 'Revelle')}
            own = NAVSEAM.get(ship, ship)
        else:
            R = own_layout(fname, ship)
            if R is None:
                return holds('accepted')
            names = KEEP.get(fname)
            px, pj = io.posix_columns(), io.columns(names) if names else (lambda t: t)
            post = lambda t: px(pj(t))
            refs = {s: (lambda f=s: run.evaluate(files_with_spec(), 'spec_io', f, lambda I: ([P], {}, {}))) for s in set(SPECS[fname].values())}
            own = SPECS[fname][ship]
        C = cm.Comparer()
        mine = post(R()(o.value))
        fr = frames(mine)
        if nothing(mine) or fr and all(any(set(times(c, None)) == {UNDEF} for _, c in f.args[1]) for f in fr):
            return violated('%s: no record of the vessel\'s own format is read' % what, where, got=tm.show(mine, 3))
        odd = None
        for s in [own] + [x for x in sorted(refs) if x != own]:
            r = refs[s]()
            if r.error:
                continue
            theirs = post(R()(r.value))
            if nothing(theirs):
                continue
            q = C.cmp(mine, theirs)
            if q.v == cm.EQ and (s == own or C.cmp(theirs, mine).v == cm.EQ):
                if s == own or s == 'ThompsonWhole' and own == 'Thompson':
                    return holds('read by the parser of its format')
                return violated('%s: records of the vessel\'s own format are read as those of another (%s)' % (what, s), where)
            if s == own:
                odd = q
                na, nb = [[x.args[0] for x in frames(t)] for t in (mine, theirs)]
                if na and nb and all(tm.const_of(x) is not None for x in na + nb) and not set(na) & set(nb):
                    return violated('%s: a file of %s records gives %s rows: its layout (header lines) is not the one of the parser' %
                                    (what, tm.show(nb[0]), tm.show(na[0])), where)
        return undecided('%s: neither the reference parser nor that of another vessel: %s' % (what, fw.unkdetail(odd) if odd else ''), where)
    register('C02', '%s reads %s' % (fname, ship), check)


for _s in DB.get('nav-talkers', {}):
    listed('read_nav', _s)
for _s in DB.get('BGM-scale', {}):
    listed('read_bgm_raw', _s)
for _s, _v in DB.get('bias-values', {}).items():
    if isinstance(_v, dict) and _v.get('dgs', -999) != -999:
        listed('read_dgs_laptop', _s)
        listed('read_dgs_raw', _s)
for _s in ('Atlantis', 'NBP'):
    listed('read_bgm_rgs', _s)


def registered():
    """the lists of vessels are there and hold the vessels the documentation names"""
    p = (run.REPO + '/shipgrav/database.toml', 1)
    out = []
    for key, names in (('nav-talkers', ('Atlantis', 'Thompson', 'NBP', 'Ride', 'Revelle', 'Langseth', 'Sikuliaq')),
                       ('BGM-scale', ('Atlantis', 'Thompson', 'Revelle', 'Langseth')),
                       ('bias-values', ('Atlantis', 'Thompson', 'Revelle', 'NBP', 'Ride', 'Langseth', 'Sikuliaq'))):
        for n in names:
            if n not in DB.get(key, {}):
                out.append(violated('database.toml: %s does not list %s' % (key, n), p))
    return out or holds('every vessel is listed')


register('C02', 'database lists', registered)
UNKNOWN = ('Nonesuch', 'atlantis', 'R/V Atlantis', '')


def unsupported(fname, ship, kw=None, label=''):
    def check():
        where = funcline('io', fname)
        what = '%s(%r%s)' % (fname, ship, label)
        o = call(fname, ship, kw=kw)
        if o.error:
            return undecided(o.error, where)
        ls = leaves(o.value)
        for e in o.events:
            if e[0] in ('open', 'read') and any(isinstance(x, tm.T) and P in set(tm.subterms(x)) for x in e):
                return (violated if e.certain else undecided)('%s opens the data although the vessel is not supported' % what, e[-1])
        if all(x is MINUS for x in ls) and o.defined is TRUE:
            return holds(what)
        if o.value is UNDEF or UNDEF in ls:
            return violated('%s raises instead of returning -999' % what, where)
        if any(x.op == 'unk' for x in ls):
            return undecided(what, where)
        return violated('%s does not return -999' % what, where, got=tm.show(o.value, 4)[:300])
    register('C02', 'unsupported: %s %r%s' % (fname, ship, label), check)


for _s in UNKNOWN:
    unsupported('read_nav', _s)
    unsupported('read_nav', _s, lambda I: {'talker': mk('str', 'GPGGA')}, ', talker given')
    unsupported('read_bgm_rgs', _s)
    unsupported('read_bgm_raw', _s)
    unsupported('read_bgm_raw', _s, lambda I: {'scale': sym('c_scale', 'num')}, ', scale given')
    unsupported('read_dgs_laptop', _s)
for _s in ('NBP', 'Ride', 'Sikuliaq'):
    unsupported('read_bgm_raw', _s)
for _s in ('Thompson', 'Ride', 'Sikuliaq', 'Revelle', 'Langseth'):
    unsupported('read_bgm_rgs', _s)


# --------------------------------------------------------------------------
# C04
# --------------------------------------------------------------------------
PA, PB, PC, PD = (sym('p_file_%s' % x, 'str') for x in 'abcd')


def fresh_index(t):
    """the index as a column: 0..n-1 unless the value says otherwise"""
    if t.op == 'ite':
        return ite(t.args[0], fresh_index(t.args[1]), fresh_index(t.args[2]))
    if t.op == 'df' and '<index>' not in dict(t.args[1]):
        return mk('df', t.args[0], t.args[1] + (('<index>', tm.rangeT(tm.ZERO, t.args[0])),), *t.args[2:])
    return t


def reads(fname, ship, arg, kw, via=False):
    """outcome of reading arg; via: each file by itself, by the same reader"""
    def make(I):
        k = dict(kw(I)) if kw else {}
        a = arg(I)
        if via:
            return [I.public('io', fname), a, mk('str', ship), I.newdict(k)], {}, {}
        return [a, mk('str', ship)], k, {}
    return run.evaluate(files_with_spec(), 'spec_io' if via else 'io', 'separately' if via else fname, make)


def several(label, fname, ship, layouts, header, kw):
    where = lambda: funcline('io', fname)
    what = '%s(%s)' % (fname, ship)

    def verdict(o, r, part, extra=''):
        C = cm.Comparer()
        if o.error or r.error:
            return undecided('%s' % (o.error or r.error), where())
        for e in o.events:
            if e[0] in ('open', 'read') and isinstance(e[-1], tuple):
                for x in (y for t in e if isinstance(t, tm.T) for y in tm.subterms(t)):
                    if x.op == 'unk' and str(x.args[0]).startswith('iter') and x.args[1].op in ('set', 'setof', 'frozenset'):
                        return violated('%s: the files are read in the order of a set, not of the list' % what, e[-1], got=tm.show(x, 4))
        for f in frames(o.value):
            ix = dict(f.args[1]).get('<index>')
            if ix is not None and ix.op in ('cmap', 'concat') and not (ix.op == 'concat' and any(x.op == 'unk' for x in ix.args)):
                return violated('%s: the rows keep the numbers they have in their own file' % what, where(), got=tm.show(ix, 3))
        return decide(C, o, r, lambda x: fresh_index(part(x)), where(), what + extra)

    def anynumber():
        return verdict(reads(fname, ship, io.paths, kw), reads(fname, ship, io.paths, kw, True), lambda x: x.value, ', any number of files')

    def four():
        arg = lambda I: I.newlist([PB, PA, PC, PD])             # the last is a copy of the second
        n = len(layouts)
        seqs = {PA: (0, n - 1), PB: tuple(range(n)) + (0,), PC: (n - 1,), PD: (0, n - 1)}

        def part(x):
            t = x.value
            for p in (PA, PB, PC, PD):
                t = io.Table(layouts, header, path=p, seq=seqs[p], tag='a' if p is PD else p.args[0][-1])(t)
            return t
        return verdict(reads(fname, ship, arg, kw), reads(fname, ship, arg, kw, True), part, ', four files')

    def copies():
        arg = lambda I: I.newlist([PA, PA])
        T = io.Table(layouts, header, path=PA, seq=(0,), tag='a')
        return verdict(reads(fname, ship, arg, kw), reads(fname, ship, arg, kw, True), lambda x: T(x.value), ', the same records in two files')

    def many():
        ps = [sym('p_file_%02d' % i, 'str') for i in range(14)]
        arg = lambda I: I.newlist(ps[7:] + ps[:7])
        return verdict(reads(fname, ship, arg, kw), reads(fname, ship, arg, kw, True), lambda x: x.value, ', fourteen files')

    def single():
        return verdict(reads(fname, ship, lambda I: P, kw), reads(fname, ship, lambda I: I.newlist([P]), kw), lambda x: x.value, ', one path')
    register('C04', '%s: %s: any number of files' % (fname, label), anynumber)
    register('C04', '%s: %s: four files' % (fname, label), four)
    register('C04', '%s: %s: same records twice' % (fname, label), copies)
    if not (fname == 'read_dgs_raw' and ship == 'Atlantis' or ship == 'Langseth' and 'laptop' in fname):     # (several cases per file)
        register('C04', '%s: %s: fourteen files' % (fname, label), many)
    register('C04', '%s: %s: a path or a list of one' % (fname, label), single)


for _r in io.READERS:
    if 'given scale' in _r[0] or 'as recorded' in _r[0] and _r[2] not in ('Atlantis', 'Thompson', 'Sikuliaq') or \
            _r[1] == 'read_dgs_raw' and _r[2] in ('Revelle', 'NBP', 'Ride', 'Langseth') or _r[1] == 'read_dgs_laptop' and _r[2] in ('Revelle', 'NBP', 'Ride'):
        continue
    several(*_r)
for _s in ('Atlantis', 'Nonesuch'):
    several('%s, user-supplied parser' % _s, 'read_bgm_raw', _s, ['{c:3};{e:2}\n', '{c:5};{e:1}.{f:2}\n'], (),
            lambda I: {'ship_function': I.public('spec_io', 'user_bgm'), 'scale': sym('c_scale', 'num')})
    several('%s, user-supplied parser' % _s, 'read_dgs_laptop', _s, ['{c:3};{e:2}\n', '{c:5};{e:1}.{f:2}\n'], (),
            lambda I: {'ship_function': I.public('spec_io', 'user_laptop')})


# --------------------------------------------------------------------------
# C05, C13: the navigation frame
# --------------------------------------------------------------------------
def own_nodes(op, a):
    """a series interpolated at one of its own nodes is the value there (fixes of one file at the same time are the same fix)"""
    if op != 'interp1' or any(x is not NONE for x in a[3:]):
        return None
    e, xs, ys = a[:3]
    if xs.op != 'map' or ys.op != 'map' or xs.args[0].op != 'nunique':
        return None
    S = xs.args[0].args[0]
    v, (bx,) = tm.open_(xs)
    (by,) = tm.open_with(ys, v)
    u = index(tm.app('uniqidx', S), v)
    if bx is not index(S, u) or by.op != 'index' or by.args[1] is not u:
        return None
    Y = by.args[0]
    return at_element(S, Y, e)


def at_element(S, Y, e):
    """Y at the place where S is e"""
    if S.op in ('map', 'filt') and Y.op == S.op and Y.args[0] is S.args[0]:
        v, bs = tm.open_(S)
        by = tm.open_with(Y, v)
        if S.op == 'filt' and bs[0] is not by[0]:
            return None
        for w in e.fs:
            if tm.subst(bs[-1], {v: w}) is e:
                return tm.subst(by[-1], {v: w})
    if S.op in ('vec', 'tup') and Y.op in ('vec', 'tup') and len(S.args) == len(Y.args) and e in S.args:
        return Y.args[S.args.index(e)]
    return None


def turns(op, a):
    """remainders of longitudes between -180 and 180, and of longitudes moved by a constant"""
    if op != 'mod':
        return None
    x, m = a
    m = tm.const_of(m)
    if m is None or m == 0 or x.op == 'num':
        return None
    c, s, atom = 0, None, None
    for mono, k in (x.args[0] if x.op == 'poly' else (((((x, 1),)), 1),)):
        if not mono:
            c = k
        elif atom is None and len(mono) == 1 and mono[0][1] == 1 and abs(k) == 1:
            atom = mono[0][0]
        else:
            return None
    if atom is None or tm.is_int(atom):
        return None
    lo, hi = (c - 180) / m, (c + 180) / m
    if m < 0:
        lo, hi = hi, lo
    from math import floor
    out = None
    for j in range(floor(hi), floor(lo) - 1, -1):       # x/m in [j, j+1)
        val = tm.sub(x, num(m * j))
        if out is None:
            out = val
        else:
            below = tm.lt0(tm.sub(x, num(m * (j + 1)))) if m > 0 else tm.lt0(tm.sub(num(m * (j + 1)), x))
            out = ite(below, val, out)
    return out


Nodes = io.Rewrite(own_nodes)


calm = io.calm


def nav_columns(names):
    proj = io.columns(names)

    def part(o):
        t = io.Rewrite(own_nodes)(proj(o.value))
        return io.Rewrite(turns)(t)
    return part


def level(m, y):
    """a structure whose track has no jump of a degree"""
    if not isinstance(y, dict):
        return True
    if m.style not in ('smooth', 'run', 'gaps'):
        return False
    lon = [c for k, c in y['cols'].items() if getattr(k, 'args', (k,))[0] == 'lon'][0]
    return all(model.NANTOK in (a, b) or abs(a - b) <= 1 for a, b in zip(lon, lon[1:]))


def navframe(prop, label, ship, arg, names, post=lambda t: t, kw=None, ref_kw=None, talker=None):
    def check():
        where = funcline('io', 'read_nav' if prop != 'C13' else '_clean_180cross')
        tk = mk('str', talker or DB['nav-talkers'][ship])

        def kws(I):
            k = dict(kw(I)) if kw else {}
            if talker:
                k['talker'] = tk
            return k
        o = call('read_nav', ship, arg=arg, seam='user_nav', kw=kws)
        r = run.evaluate(files_with_spec(), 'spec_io', 'nav',
                         lambda I: ([arg(I), tk, I.public('spec_io', 'user_nav')], kw(I) if kw else {}, {}))
        if o.error or r.error:
            return undecided('%s' % (o.error or r.error), where)
        part = nav_columns(names)
        return decide(cm.Comparer(), o, r, lambda x: post(part(x)), where, 'read_nav(%s)' % ship, models=lambda x: io.columns(names)(x.value), admit=level if prop == 'C05' else None)
    register(prop, label, check)


ONE_FILE = lambda I: I.newlist([P])
for _l, _a in (('one file', ONE_FILE), ('any number of files', io.paths)):
    for _s in list(DB.get('nav-talkers', {})) + ['Nonesuch']:
        _t = 'QQGGA' if _s == 'Nonesuch' else None
        for _d, _k in (('', None), (', decimated', lambda I: {'decimate': sym('c_decimate', 'num', int=True, lo=Fr(1))}), (', decimate=0', lambda I: {'decimate': tm.ZERO})):
            if _d == '' or _s == 'Atlantis':
                navframe('C05', '%s, user-supplied parser: %s%s' % (_s, _l, _d), _s, _a, ('time_sec', 'lon', 'lat', 'stamps'), calm, _k, talker=_t)
    navframe('C13', _l, 'Atlantis', _a, ('time_sec', 'lon', 'lat', 'stamps'))


MISSING = {'no talker': [io.OTHER, io.OTHER], 'no lines': [], 'other dates only': [io.DATED, io.OTHER, io.DATED],
           'another talker': ['$GPVTG,136.2,T,,,6.61,N,12.24,K,D*40\n', io.DATED[:-1].split(' ')[0] + ' $QQGGA,{H:2}{M:2}{S:2}.00,{la:2}{lm:2}.{lf:6},N,{lo:3}{om:2}.{of:6},W' + io.TAIL]}


def missing(ship, label, order, empty):
    """a file of the list without a line of the talker"""
    def check():
        where = funcline('io', 'read_nav')
        real = 'Ride' if ship == 'RideGP' else ship
        kw = (lambda I: {'talker': mk('str', 'GPGGA')}) if ship == 'RideGP' else None
        good = [io.DATED, io.FIX] * 2 if ship == 'Revelle' else [io.sentence(ship, clock='{H:2}{M:2}{S:2}.00')] * 2
        texts = {PA: good, PB: MISSING[empty], PC: good}
        o = call('read_nav', real, arg=lambda I: I.newlist(list(order)) if len(order) > 1 else order[0], kw=kw)
        if o.error:
            return undecided(o.error, where)
        env = {}
        for j, (p, x) in enumerate(texts.items()):
            env[mk('lines', p)] = tm.vec(*[io.st.layout(t, num(10 * j + i), '') for i, t in enumerate(x)])
        t = io.st.Refiner(env)(o.value)
        what = 'read_nav(%s): %s' % (real, label)
        r = cm.Comparer().cmp(t, num(-999))
        if r.v == cm.EQ and t.op != 'undef':
            return holds(what)
        if all(x.op in ('undef', 'df') for x in leaves(t)) or r.v == cm.DIFF and not cm.has_unk(t):
            return violated('%s: not -999' % what, where, got=tm.show(t, 4)[:300])
        return undecided('%s: %s' % (what, tm.show(t, 3)[:200]), where)
    register('C05', '%s: %s' % (ship, label), check)


for _s in io.PRE:
    for _e in MISSING:
        missing(_s, 'a file with %s' % _e, (PB,), _e)
    missing(_s, 'the last file with no talker', (PA, PC, PB), 'no talker')
    missing(_s, 'the first file with no talker', (PB, PA), 'no talker')
    missing(_s, 'the middle file empty', (PA, PB, PC), 'no lines')
