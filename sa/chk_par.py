"""Documented parameters: every one of them reaches what the caller observes."""
import copy
from . import run, terms as tm, compare as cm, framework as fw, interp as ip, model
from .framework import code, spec, holds, violated, undecided, funcline, Verdict
from .terms import sym, num, mk, TRUE, FALSE, NONE, UNDEF, Fr
from .chk_num import size, S, A, A2, frame, realpart
from .chk_io import call, paths, P
from .chk_io2 import register, DB
from . import chk_io as io


def parts(o):
    """what a caller can observe of a call"""
    out = [('result', o.value if o.value is not None else NONE), ('return', o.defined), ('effect', o.effects)]
    out += [('exception %s' % n, c) for c, n in o.raises]
    return out + [('argument %s' % k, v) for k, v in sorted(o.args.items())]


def differs(x, y):
    """EQ: nothing that can be observed differs; DIFF: something does"""
    C = cm.Comparer(tries=600, want=40)
    px, py = parts(x), parts(y)
    if len(px) != len(py):
        return cm.UNK
    v = cm.EQ
    for (n, a), (m, b) in zip(px, py):
        if a is b:
            continue
        if n != m:
            return cm.UNK
        if n == 'result' and None not in (form(a), form(b)) and form(a) != form(b):
            return cm.DIFF
        r = C.cmp(a, b).v
        if r == cm.DIFF:
            return cm.DIFF
        if r == cm.UNK:
            v = cm.UNK
    return v


def renamed(o, syms):
    """the same call with another value of some parameters"""
    env = {x: sym('z_' + x.args[0], **tm.SYM[x]) for x in syms}
    f = lambda t: tm.subst(t, env) if isinstance(t, tm.T) else t
    p = copy.copy(o)
    p.value = f(o.value) if o.value is not None else None
    p.defined, p.effects = f(o.defined), f(o.effects)
    p.raises = [(f(c), n) for c, n in o.raises]
    p.args = {k: f(v) for k, v in o.args.items()}
    return p


def occurs(o, x):
    return any(x in set(tm.subterms(t)) for _, t in parts(o))


def asdoc(fname, o, s):
    """the result is the reference result"""
    if o.error or s is None or s.error or o.value is None or s.value is None:
        return None
    part = realpart if fname == 'crustal_thickness_2D' else (lambda q: q.value)
    return cm.Comparer(tries=600, want=40).cmp(part(o), part(s))


def form(t):
    """what kind of value it plainly is"""
    if t.op == 'ite':
        f = form(t.args[1])
        return f if f == form(t.args[2]) else None
    return ('values', len(t.args)) if t.op == 'tup' else 'array' if t.op in ('map', 'vec', 'concat', 'cat', 'fft', 'ifft') else \
        'number' if t.op in ('num', 'poly') else 'frame' if t.op == 'df' else None


def takes(fname, pname, given, o, other, w, refs=()):
    """verdict on one parameter in one configuration"""
    if o.error or other.error:
        return undecided('%s: %s: %s' % (fname, pname, o.error or other.error), w)
    v = differs(o, other)
    if v == cm.EQ:
        if o.undecided and any(u for u in o.undecided):
            return undecided('%s: %s' % (fname, pname), w)
        return violated('%s: parameter %s has no effect (%s)' % (fname, pname, given), w, key='%s-%s' % (fname, pname))
    if v == cm.UNK and refs and all(r is not None and r.v == cm.EQ for r in refs):
        return holds('%s: %s takes effect as in the reference (%s)' % (fname, pname, given), analysed=sorted('%s' % (x,) for x in o.analysed))
    if v == cm.UNK:
        return undecided('%s: effect of %s (%s)' % (fname, pname, given), w)
    return holds('%s: %s takes effect (%s)' % (fname, pname, given), analysed=sorted('%s' % (x,) for x in o.analysed))


def reference(mod, fname, make, seconds):
    try:
        return spec(mod, fname, make, seconds=seconds)
    except ip.AnchorMissing:
        return None


def numeric(mod, fname, label, params, seconds=150):
    """params(I): ordered {name: value}; every symbolic value is varied, the others are fixed"""
    def check():
        w = funcline(mod, fname)
        keep = {}

        def make(I):
            p = params(I)
            keep.update({k.rstrip('='): I.freeze(v) for k, v in p.items()})
            pos = [v for k, v in p.items() if not k.endswith('=')]
            return pos, {k[:-1]: v for k, v in p.items() if k.endswith('=')}, {}
        o = code(mod, fname, make, seconds=seconds)
        s = reference(mod, fname, make, seconds)
        r = asdoc(fname, o, s)
        out = []
        if o.error:
            return undecided('%s: %s' % (fname, o.error), w)
        for k, x in keep.items():
            if x.op != 'sym':
                continue
            if s is not None and not s.error and not occurs(s, x):
                continue                        # the documentation gives it no part in this configuration
            if not occurs(o, x):
                out.append(violated('%s: parameter %s has no effect (%s)' % (fname, k, label), w, key='%s-%s' % (fname, k)))
                continue
            out.append(takes(fname, k, label, o, renamed(o, [x]), w, [r]))
        if r is not None:
            if r.v == cm.DIFF and r.a is not None and r.b is not None:
                sa, sb = set(tm.subterms(r.a)), set(tm.subterms(r.b))
                for k, x in keep.items():
                    if x.op == 'sym' and x in sb and x not in sa:
                        out.append(violated('%s: parameter %s has no effect%s (%s)' % (fname, k, ' on ' + r.path if r.path else '', label),
                                            fw.locate(r.a, None, o.prov, w), got=tm.show(r.a, 6)[:600], want=tm.show(r.b, 6)[:600]))
        return out
    register('C30', '%s(%s)' % (fname, label), check)


def switch(mod, fname, label, params, pname, values, seconds=150):
    """a parameter with fixed values: two of them give different outcomes"""
    def check():
        def make(v):
            def mkargs(I):
                p = params(I)
                return [x for k, x in p.items() if not k.endswith('=')], dict({k[:-1]: x for k, x in p.items() if k.endswith('=')}, **{pname: v}), {}
            return mkargs
        a, b = [code(mod, fname, make(v), seconds=seconds) for v in values]
        r = takes(fname, pname, label, a, b, funcline(mod, fname))
        if r.status == 'undecided':
            r = takes(fname, pname, label, a, b, funcline(mod, fname),
                      [asdoc(fname, o, reference(mod, fname, make(v), seconds)) for v, o in zip(values, (a, b))])
        return r
    register('C30', '%s(%s: %s)' % (fname, label, pname), check)


N1, N2, N3, N11, M1, NX, NY = size('N1', 1), size('N2', 2), size('N3', 3), size('N11', 11), size('M1', 1), size('NX', 2), size('NY', 2)

# -- corrections
_tide = lambda I: dict(lon=A(I, 'lon', N1), lat=A(I, 'lat', N1), times=A(I, 'times', N1, elem='dt'), **{'alt=': S('alt')})
numeric('grav', 'longman_tide_prediction', 'total', _tide)
numeric('grav', 'longman_tide_prediction', 'components', lambda I: dict(_tide(I), **{'return_components=': TRUE}))
switch('grav', 'longman_tide_prediction', 'any', _tide, 'return_components', (TRUE, FALSE))
numeric('grav', 'eotvos_full', 'all parameters', lambda I: dict(lon=A(I, 'lon', N3), lat=A(I, 'lat', N3), ht=A(I, 'ht', N3), samp=S('samp', pos=True),
                                                                **{'a=': S('a', pos=True), 'b=': S('b', pos=True)}))
_free = lambda I: dict(lat=A(I, 'lat'), ht=A(I, 'ht'))
for _v in (TRUE, FALSE):
    numeric('grav', 'free_air_second_order', 'water' if _v is TRUE else 'air', lambda I, v=_v: dict(_free(I), **{'free_water=': v}))
switch('grav', 'free_air_second_order', 'any', _free, 'free_water', (TRUE, FALSE))
numeric('grav', 'wgs_grav', 'array', lambda I: dict(lat=A(I, 'lat')))
_cc = lambda I: {x: A(I, x, N1) for x in ('faa', 'vcc', 've', 'al', 'ax', 'lev')}
numeric('grav', 'calc_cross_coupling_coefficients', 'one segment', _cc)
numeric('grav', 'calc_cross_coupling_coefficients', 'with timestamps', lambda I: dict(_cc(I), **{'times=': A(I, 'times', N1), 'samplerate=': S('rate', lo=Fr(0))}))
for _n in (1, 2):
    numeric('grav', 'center_diff', 'order %d' % _n, lambda I, n=_n: dict(y=A(I, 'y', N3), n=num(n), samp=S('samp', pos=True)))
switch('grav', 'center_diff', 'any', lambda I: dict(y=A(I, 'y', N3), **{'samp=': S('samp', pos=True)}), 'n', (num(1), num(2)))
numeric('grav', 'up_vecs', 'all', lambda I: dict([('dt', S('dt', lo=Fr(0)))] + [(x, A(I, x, N1)) for x in ('g', 'cacc', 'lacc', 'on_off')] +
                                                 [(x, S(x)) for x in ('cper', 'cdamp', 'lper', 'ldamp')]))

# -- models
numeric('grav', 'grav1d_padded', 'all', lambda I: dict(x=A(I, 'x', N2), topo=A(I, 'topo', N2), zlev=S('zlev'), rho=S('rho')))
_fold = lambda I: dict(X=A(I, 'X', NX), Y=A(I, 'Y', NY), Z=A2(I, 'Z', NY, NX), dx=S('dx', pos=True), dy=S('dy', pos=True),
                       **{'drho=': S('drho'), 'dz=': S('dz')})
for _v in (TRUE, FALSE):
    numeric('grav', 'grav2d_folding', 'folded' if _v is TRUE else 'not folded', lambda I, v=_v: dict(_fold(I), **{'ifold=': v, 'npower=': num(2)}))
    switch('grav', 'grav2d_folding', 'folded' if _v is TRUE else 'not folded', lambda I, v=_v: dict(_fold(I), **{'ifold=': v}), 'npower', (num(2), num(3)))
switch('grav', 'grav2d_folding', 'two terms', lambda I: dict(_fold(I), **{'npower=': num(2)}), 'ifold', (TRUE, FALSE))
numeric('grav', 'grav2d_layer_variable_density', 'all', lambda I: dict(rho=A2(I, 'rho', NY, NX), dx=S('dx', pos=True), dy=S('dy', pos=True), z1=S('z1'), z2=S('z2')))
for _f, _second in (('therm_halfspace', 'z'), ('therm_Z_halfspace', 'T'), ('therm_plate', 'z'), ('therm_Z_plate', 'T')):
    def _th(I, f=_f, s=_second):
        p = dict(x=A(I, 'x', N1), **{s: S('T') if f == 'therm_Z_halfspace' else A(I, s, M1)})
        p.update({n + '=': S(n, pos=True) for n in ('u', 'Tm', 'rhom', 'rhow', 'a', 'k')})
        if 'plate' in f:
            p['zL0='] = S('zL0', pos=True)
        if f == 'therm_Z_plate':
            p.update({'minz=': S('minz'), 'maxz=': S('maxz'), 'zsp=': S('zsp', pos=True)})
        return p
    for _t in (TRUE, FALSE):
        numeric('grav', _f, 'ages' if _t is TRUE else 'distance', lambda I, g=_th, t=_t: dict(g(I), **{'time=': t}))
    switch('grav', _f, 'any', _th, 'time', (TRUE, FALSE))
for _two in (False, True):
    def _thick(I, two=_two):
        n = tm.mul(NX, NY) if two else NX
        p = {'ur': A(I, 'ur', n), 'nx=': NX, 'dx=': S('dx', pos=True), 'zdown=': S('zdown'), 'rho=': S('rho', pos=True), 'wlarge=': S('wlarge', pos=True),
             'wsmall=': S('wsmall', pos=True)}
        if two:
            p.update({'ny=': NY, 'dy=': S('dy', pos=True)})
        return p
    for _b in (FALSE, TRUE):
        numeric('grav', 'crustal_thickness_2D', '%s%s' % ('grid' if _two else 'line', ', back' if _b is TRUE else ''),
                lambda I, g=_thick, b=_b: dict(g(I), **{'back=': b}))
    switch('grav', 'crustal_thickness_2D', 'grid' if _two else 'line', _thick, 'back', (TRUE, FALSE))

# -- navigation, filter, status
numeric('nav', 'latlon_to_EN', 'all', lambda I: {'lon': A(I, 'lon', N11), 'lat': A(I, 'lat', N11), 'freq=': S('freq')})
numeric('nav', 'ENvel_to_course_heading', 'all', lambda I: dict(ve=A(I, 've'), vn=A(I, 'vn')))
numeric('nav', 'rotate_acceleration_EN_to_cl', 'all', lambda I: dict(heading=A(I, 'hd'), accE=A(I, 'ae'), accN=A(I, 'an')))
numeric('utils', 'gaussian_filter', 'all', lambda I: dict(x=A(I, 'x', N2), fl=sym('n_fl', 'num', int=True, lo=Fr(1))))
numeric('utils', 'decode_dgs_status_bits', 'word', lambda I: dict(stat=sym('w_stat', 'num', int=True, lo=Fr(0), pytype='int')))
switch('utils', 'decode_dgs_status_bits', 'frame', lambda I: dict(stat=frame(I, size('N1', 1), {'one': dict(elemint=True), 'two': dict(elemint=True)})), 'key',
       (mk('str', 'one'), mk('str', 'two')))


# --------------------------------------------------------------------------
# readers, vessel by vessel
# --------------------------------------------------------------------------
def bars(o):
    """what is displayed while files are read: ('bar', is it shown) and texts"""
    return [(e[0],) + tuple(x for x in e[1:] if isinstance(x, tm.T)) for e in o.events if e[0] in ('tqdm', 'write', 'print')]


def readerpar(fname, ship, label, pname, arg, values, kw=None, refine=None, known=None):
    """two values of a parameter of a reader give different outcomes"""
    def check():
        w = funcline('io', fname)

        def one(v):
            def k(I):
                d = dict(kw(I)) if kw else {}
                x = v(I) if callable(v) else v
                if x is not None:
                    d[pname] = x
                return d
            return call(fname, ship, arg=arg, kw=k)
        a, b = [one(v) for v in values]
        if pname == 'progressbar':
            if a.error or b.error:
                return undecided('%s: %s' % (fname, a.error or b.error), w)
            x, y = bars(a), bars(b)
            if x != y:
                return holds('%s(%s): the progress bar follows the switch (%s)' % (fname, ship, label))
            if x or not (a.undecided or b.undecided):
                return violated('%s(%s): parameter progressbar has no effect (%s)' % (fname, ship, label), w)
            return undecided('%s(%s): progress bar' % (fname, ship), w)
        if not (a.error or b.error) and a.value is not b.value:
            # a small structure in which the outcomes are not the same, or records of the vessel
            if None not in (form(a.value), form(b.value)) and form(a.value) != form(b.value):
                return holds('%s(%s): %s takes effect (%s)' % (fname, ship, pname, label), analysed=sorted('%s' % (x,) for x in a.analysed))
            part = io.columns(('time_sec', 'lon', 'lat', 'stamps')) if fname == 'read_nav' else (lambda t: t)
            x, y = part(a.value), part(b.value)
            if model.refute(x, y, tries=60) or model.refute(y, x, tries=60):
                return holds('%s(%s): %s takes effect (%s)' % (fname, ship, pname, label), analysed=sorted('%s' % (x,) for x in a.analysed))
            r = cm.Comparer().cmp(part(refine()(a.value)), part(refine()(b.value))) if refine else None
            if r is None:
                return undecided('%s(%s): effect of %s (%s)' % (fname, ship, pname, label), w)
            if r.v == cm.UNK:
                return undecided('%s(%s): effect of %s (%s): %s' % (fname, ship, pname, label, fw.unkdetail(r)), w)
            if r.v == cm.DIFF:
                return holds('%s(%s): %s takes effect (%s)' % (fname, ship, pname, label))
            if r.v == cm.EQ:
                return violated('%s(%s): parameter %s has no effect on the records of the vessel (%s)' % (fname, ship, pname, label), w)
        v = takes('%s(%s)' % (fname, ship), pname, label, a, b, w)
        if v.status == 'violated' and known:
            v.key = known
        return v
    register('C30', '%s %s: %s (%s)' % (fname, ship, pname, label), check)


SWITCH = (TRUE, FALSE)
ONE = lambda I: P
MANY = io.paths


def table(fname, ship):
    for label, f, s, layouts, header, kw in io.READERS:
        if f == fname and s == ship:
            return lambda: io.Table(layouts, header, seq=tuple(range(len(layouts))))
    return None


def own(f):
    return lambda I: I.public('spec_io', f)


for _s in DB.get('nav-talkers', {}):
    _tk = {'talker': mk('str', 'GPGGA' if DB['nav-talkers'][_s] != 'GPGGA' else 'INGGA')}
    _R = (lambda s=_s: io.dated_lines([io.DATED, io.FIX] * 2)() if s == 'Revelle' else io.lines_of([io.sentence(s)])()) if _s in io.PRE else None
    _own = lambda I: {'ship_function': I.public('spec_io', 'user_nav')}
    for _l, _a in (('a file', ONE), ('files', MANY)):
        readerpar('read_nav', _s, _l, 'progressbar', _a, SWITCH)
        readerpar('read_nav', _s, _l + ', user-supplied parser', 'progressbar', _a, SWITCH, _own)
        readerpar('read_nav', _s, _l + ', user-supplied parser', 'talker', _a, (None, _tk['talker']), _own)
        readerpar('read_nav', _s, _l + ', user-supplied parser', 'decimate', _a, (num(0), num(3)), _own)
        readerpar('read_nav', _s, _l, 'ship_function', _a, (own('user_nav'), own('user_nav_lat_first')))
    if _R:
        readerpar('read_nav', _s, 'a file', 'talker', ONE, (None, _tk['talker']), None, _R)
    readerpar('read_nav', _s, 'a file', 'sampling', ONE, (None, num(10)), None, _R, 'read_nav-sampling')
readerpar('read_nav', 'Nonesuch', 'files', 'progressbar', MANY, SWITCH, lambda I: {'ship_function': I.public('spec_io', 'user_nav'), 'talker': mk('str', 'QQGGA')})
readerpar('read_nav', 'Nonesuch', 'files', 'decimate', MANY, (num(0), num(3)), lambda I: {'ship_function': I.public('spec_io', 'user_nav'), 'talker': mk('str', 'QQGGA')})
readerpar('read_nav', 'Nonesuch', 'files', 'talker', MANY, (mk('str', 'INGGA'), mk('str', 'QQGGA')), lambda I: {'ship_function': I.public('spec_io', 'user_nav')})
_seen = set()
for _lab, _f, _s, _lay, _head, _kw in io.READERS:
    if (_f, _s) in _seen:
        continue
    _seen.add((_f, _s))
    _R = table(_f, _s)
    _user = {'read_bgm_raw': 'user_bgm', 'read_dgs_laptop': 'user_laptop'}.get(_f)
    for _l, _a in (('a file', ONE), ('files', MANY)):
        readerpar(_f, _s, _l, 'progressbar', _a, SWITCH)
        if _user:
            readerpar(_f, _s, _l + ', user-supplied parser', 'progressbar', _a, SWITCH, lambda I, u=_user: {'ship_function': I.public('spec_io', u)})
            readerpar(_f, _s, _l, 'ship_function', _a, (None, own(_user)), None, _R)
    if _f == 'read_bgm_raw':
        for _l, _a in (('a file', ONE), ('files', MANY)):
            readerpar(_f, _s, _l, 'scale', _a, (None, sym('c_scale', 'num')), None, _R)
        readerpar(_f, _s, 'user-supplied parser', 'scale', MANY, (None, sym('c_scale', 'num')), lambda I: {'ship_function': I.public('spec_io', 'user_bgm')}, _R)
    if _f == 'read_dgs_raw':
        readerpar(_f, _s, 'a file', 'scale_ccp', ONE, SWITCH, None, _R)
for _f, _u in (('read_bgm_raw', 'user_bgm'), ('read_dgs_laptop', 'user_laptop')):
    _k = (lambda I: {'scale': sym('c_scale', 'num')}) if 'bgm' in _f else (lambda I: {})
    readerpar(_f, 'Nonesuch', 'files', 'ship_function', MANY, (None, own(_u)), _k)
    readerpar(_f, 'Nonesuch', 'files, user-supplied parser', 'progressbar', MANY, SWITCH, lambda I, u=_u, k=_k: dict(k(I), ship_function=I.public('spec_io', u)))
readerpar('read_bgm_raw', 'Nonesuch', 'user-supplied parser', 'scale', MANY, (None, sym('c_scale', 'num')), lambda I: {'ship_function': I.public('spec_io', 'user_bgm')})


# -- paths, feeds, vessels
def pathpar(fname, label, make, name, setup=None, files=None):
    """another path gives another outcome"""
    def check():
        w = funcline('utils' if fname == 'clean_ini_to_toml' else 'io', fname)
        mod = 'utils' if fname == 'clean_ini_to_toml' else 'io'
        o = run.evaluate(files or io.files_with_spec(), mod, fname, make, setup=setup)
        if o.error:
            return undecided('%s: %s' % (fname, o.error), w)
        x = sym(name, 'str')
        opened = any(x in set(tm.subterms(t)) for e in o.events if e[0] in ('open', 'read') for t in e if isinstance(t, tm.T))
        if not occurs(o, x) and not opened:
            return violated('%s: parameter %s has no effect (%s)' % (fname, name[2:], label), w)
        if opened and (occurs(o, x) or name == 'p_yaml'):     # (the description is a given text in this configuration)
            return holds('%s: %s is read and its content reaches the result' % (fname, name[2:]))
        return takes(fname, name[2:], label, o, renamed(o, [x]), w)
    register('C30', '%s: path %s (%s)' % (fname, name[2:], label), check)


_feed = lambda tag: (lambda I: ([sym('p_yaml', 'str'), sym('p_data', 'str'), mk('str', tag)], {}, {}))
_yaml = lambda I: setattr(I, 'yaml_content', io.YAML)
for _n in ('p_yaml', 'p_data'):
    pathpar('read_other_stuff', 'feed', _feed('PHXDT'), _n, _yaml)
for _lab, _f, _s, _lay, _head, _kw in io.READERS:
    if _kw is None:
        pathpar(_f, _s, lambda I, s=_s: ([P, mk('str', s)], {}, {}), 'p_file')
for _s in DB.get('nav-talkers', {}):
    pathpar('read_nav', _s, lambda I, s=_s: ([mk('str', s), P], {}, {}), 'p_file')
pathpar('clean_ini_to_toml', 'any', lambda I: ([P], {}, {}), 'p_file')


def vessel(fname, ship):
    def check():
        a, b = [call(fname, s) for s in (ship, 'Nonesuch')]
        w = funcline('io', fname)
        if a.error or b.error:
            return undecided('%s: %s' % (fname, a.error or b.error), w)
        if None not in (form(a.value), form(b.value)) and form(a.value) != form(b.value):
            return holds('%s: the vessel counts (%s)' % (fname, ship))
        return takes(fname, 'ship', ship, a, b, w)
    register('C30', '%s: ship (%s)' % (fname, ship), check)


for _f, _s in (('read_bgm_raw', 'Atlantis'), ('read_bgm_rgs', 'Atlantis'), ('read_dgs_laptop', 'Thompson'), ('read_dgs_raw', 'Thompson')):
    vessel(_f, _s)


def tags():
    out = []
    w = funcline('io', 'read_other_stuff')
    tg = [t for t in io.FEEDS] if hasattr(io, 'FEEDS') else ['PHXDT', 'VTG']
    os_ = [run.evaluate(io.files_with_spec(), 'io', 'read_other_stuff', _feed(t), setup=_yaml) for t in tg[:2]]
    return takes('read_other_stuff', 'tag', '%s, %s' % tuple(tg[:2]), os_[0], os_[1], w)


register('C30', 'read_other_stuff: tag', tags)
