"""Overrides of the caller (C03), purity (C14), file handles (C15), conversion (C28)."""
from . import run, terms as tm, compare as cm, framework as fw, chk_io as io
from .framework import holds, violated, undecided, funcline, decide
from .terms import sym, num, mk, ite, NONE, UNDEF, TRUE, FALSE, Fr
from .chk_io import P, call, files_with_spec
from .chk_io2 import register, frames, leaves, DB, ONE_FILE, navframe, calm, reads, nav_columns, level, MINUS, PA, PB, PC

SCALE = sym('c_scale', 'num')


# --------------------------------------------------------------------------
# C03
# --------------------------------------------------------------------------
def rescaled(t, s):
    """the frames of t with rgrav = s * counts"""
    if t.op == 'ite':
        return ite(t.args[0], rescaled(t.args[1], s), rescaled(t.args[2], s))
    if t.op == 'df':
        c = dict(t.args[1])
        if 'counts' in c and 'rgrav' in c:
            new = tm.ew(lambda x: tm.mul(s, x), [c['counts']])
            return mk('df', t.args[0], tuple((n, new if n == 'rgrav' else x) for n, x in t.args[1]), *t.args[2:])
    return t


def given_scale(ship, arg, label):
    def check():
        where = funcline('io', 'read_bgm_raw')
        o = call('read_bgm_raw', ship, arg=arg, kw=lambda I: {'scale': SCALE})
        r = call('read_bgm_raw', ship, arg=arg)
        C = cm.Comparer()
        v = decide(C, o, r, lambda x: rescaled(x.value, SCALE) if x is r else x.value, where, 'read_bgm_raw(%s), scale given' % ship)
        return v
    register('C03', 'scale: %s, %s' % (ship, label), check)


for _s in DB.get('BGM-scale', {}):
    given_scale(_s, io.paths, 'any number of files')
    given_scale(_s, lambda I: P, 'one path')


def own_parser(fname, ship, spec, kw, specargs, label, arg=io.paths):
    """a user-supplied parser is the one used, for every file and vessel"""
    def check():
        where = funcline('io', fname)
        o = call(fname, ship, arg=arg, kw=kw)
        r = run.evaluate(files_with_spec(), 'spec_io', spec, lambda I: ([arg(I)] + specargs, {}, {}))
        return decide(cm.Comparer(), o, r, lambda x: x.value, where, '%s(%s), ship_function given' % (fname, ship))
    register('C03', '%s: %s%s' % (fname, ship, label), check)


VESSELS = sorted(set(DB.get('nav-talkers', {})) | set(DB.get('BGM-scale', {})) | set(DB.get('bias-values', {}))) + ['Nonesuch', 'DGStest']
TWO = lambda I: I.newlist([PB, PA, PC])
USER = '{j:3} GPGGA;{lo:3}.{lp:4};{la:2}.{lb:4};{t:10}.{u:2}\n'


def own_nav(ship, arg, label):
    """files of the user's format, with a user-supplied parser"""
    def check():
        where = funcline('io', 'read_nav')
        tk = mk('str', 'GPGGA')
        o = call('read_nav', ship, arg=arg, seam='user_nav', kw=lambda I: {'talker': tk})
        r = run.evaluate(files_with_spec(), 'spec_io', 'nav', lambda I: ([I.newlist([P]) if arg(I) is P else arg(I), tk, I.public('spec_io', 'user_nav')], {}, {}))
        env = {}
        for j, p in enumerate((P, PA, PB, PC)):
            env[mk('lines', p)] = tm.vec(*[io.st.layout(USER, num(10*j + i), '') for i in range(2 if p is P else 1)])
        R = io.st.Refiner(env)
        c = io.columns(('time_sec', 'stamps'))
        what = 'read_nav(%s), ship_function given%s' % (ship, label)
        if not o.error and R(c(o.value)).op == 'undef':
            return violated('%s: the call fails' % what, where)
        return decide(cm.Comparer(), o, r, lambda x: R(c(x.value)), where, what)
    register('C03', 'read_nav: %s, lines of the user%s' % (ship, label), check)


for _s in VESSELS:
    own_nav(_s, lambda I: P, '')
    if _s in ('Atlantis', 'Sikuliaq', 'Nonesuch'):
        own_nav(_s, TWO, ', three files')
        own_parser('read_bgm_raw', _s, 'many_bgm', lambda I: {'ship_function': I.public('spec_io', 'user_bgm'), 'scale': SCALE}, [SCALE], ', three files', TWO)
        own_parser('read_dgs_laptop', _s, 'many_laptop', lambda I: {'ship_function': I.public('spec_io', 'user_laptop')}, [], ', three files', TWO)
    own_parser('read_bgm_raw', _s, 'many_bgm', lambda I: {'ship_function': I.public('spec_io', 'user_bgm'), 'scale': SCALE}, [SCALE], ', parser and scale')
    own_parser('read_dgs_laptop', _s, 'many_laptop', lambda I: {'ship_function': I.public('spec_io', 'user_laptop')}, [], ', parser')
    if _s in DB.get('BGM-scale', {}):
        own_parser('read_bgm_raw', _s, 'many_bgm', lambda I: {'ship_function': I.public('spec_io', 'user_bgm')}, [num(DB['BGM-scale'][_s])], ', parser')
    for _t in ('QQGGA', 'GPGGA', 'INGGA'):
        navframe('C03', 'read_nav: %s, parser and talker %s' % (_s, _t), _s, io.paths, ('time_sec', 'lon', 'lat', 'stamps'), calm, talker=_t)
    if _s in DB.get('nav-talkers', {}):
        navframe('C03', 'read_nav: %s, parser' % _s, _s, io.paths, ('time_sec', 'lon', 'lat', 'stamps'), calm)


def given_talker(ship, talker, label, arg):
    """a vessel's own parser with another talker: only the lines of that talker count"""
    def check():
        where = funcline('io', 'read_nav')
        own = io.sentence(ship, clock='{H:2}{M:2}{S:2}.00')
        other = own.replace(io.TALKER[ship], talker)
        texts = [io.DATED, own, other, io.OTHER] * 2 if ship == 'Revelle' else [own, other, io.OTHER, other, own]
        tk = mk('str', talker)
        o = call('read_nav', ship, arg=arg, kw=lambda I: {'talker': tk})
        q = call('read_nav', ship, arg=arg, kw=lambda I: {'talker': tk}, seam=ship)
        r = run.evaluate(files_with_spec(), 'spec_io', 'nav', lambda I: ([I.newlist([P]), tk, I.public('spec_io', ship)], {}, {}))
        R = io.dated_lines(texts)()
        what = 'read_nav(%s), talker %s' % (ship, talker)
        t = io.columns(('time_sec', 'stamps'))
        c = io.columns(('lon', 'lat'))
        return [decide(cm.Comparer(), o, r, lambda x: t(R(x.value)), where, what), decide(cm.Comparer(), o, q, lambda x: c(R(x.value)), where, what)]
    register('C03', 'read_nav: %s, talker %s%s' % (ship, talker, label), check)


for _s in io.PRE:
    if _s in DB.get('nav-talkers', {}) and _s not in ('Sikuliaq', 'Ride'):
        for _t in ('QQGGA', 'INGGA', 'GPGGA'):
            if _t != io.TALKER[_s]:
                given_talker(_s, _t, '', lambda I: P)
