"""Corrections and models: values against their reference definitions."""
from . import run, terms as tm, lib, lib3, compare as cm
from .framework import ref, obligation, code, spec, holds, violated, undecided, funcline
from .terms import sym, num, mk, TRUE, FALSE, NONE

Fr = tm.Fr


def size(name, lo=2):
    return sym(name, 'num', int=True, lo=Fr(lo))


def S(name, **k):
    return sym('s_' + name, 'num', **k)


def A(I, name, n=None, **k):
    return run.arr(I, 'a_' + name, n if n is not None else size('N'), **k)


def A2(I, name, r, c, **k):
    return I.alloc('arr', sym('m_' + name, 'arr', rank=2, elem='num', len=r, shape=(r, c), **k), roots={'m_' + name})


# -- C18
ref('C18', 'wgs_grav(array)', 'grav', 'wgs_grav', lambda I: ([A(I, 'lat')], {}, {}))
ref('C18', 'wgs_grav(scalar)', 'grav', 'wgs_grav', lambda I: ([S('lat')], {}, {}))
for _fw, _n in ((None, 'default'), (TRUE, 'free water'), (FALSE, 'air')):
    ref('C18', 'free_air_second_order(%s)' % _n, 'grav', 'free_air_second_order',
        lambda I, f=_fw: ([A(I, 'lat'), A(I, 'ht')], {'free_water': f} if f is not None else {}, {}))
    ref('C18', 'free_air_second_order(%s, scalar)' % _n, 'grav', 'free_air_second_order',
        lambda I, f=_fw: ([S('lat'), S('ht')], {'free_water': f} if f is not None else {}, {}))

# -- C21
N11 = size('N', 11)
ref('C21', 'latlon_to_EN', 'nav', 'latlon_to_EN', lambda I: ([A(I, 'lon', size('N11', 11)), A(I, 'lat', size('N11', 11))], {'freq': S('freq')}, {}))
ref('C21', 'latlon_to_EN(default freq)', 'nav', 'latlon_to_EN', lambda I: ([A(I, 'lon', size('N11', 11)), A(I, 'lat', size('N11', 11))], {}, {}))
ref('C21', 'ENvel_to_course_heading', 'nav', 'ENvel_to_course_heading', lambda I: ([A(I, 've'), A(I, 'vn')], {}, {}))
ref('C21', 'rotate_acceleration_EN_to_cl', 'nav', 'rotate_acceleration_EN_to_cl', lambda I: ([A(I, 'hd'), A(I, 'ae'), A(I, 'an')], {}, {}))

# -- C16, C17
for _rc in (None, TRUE):
    ref('C16', 'longman_tide_prediction(%s)' % ('components' if _rc else 'total'), 'grav', 'longman_tide_prediction',
        lambda I, r=_rc: ([A(I, 'lon', size('N1', 1)), A(I, 'lat', size('N1', 1)), A(I, 'times', size('N1', 1), elem='dt')],
                          dict({'alt': S('alt')}, **({'return_components': r} if r else {})), {}))
ref('C17', 'eotvos_full', 'grav', 'eotvos_full',
    lambda I: ([A(I, 'lon', size('N3', 3)), A(I, 'lat', size('N3', 3)), A(I, 'ht', size('N3', 3)), S('samp')], {}, {}))

# -- C19
L = ('faa', 'vcc', 've', 'al', 'ax', 'lev')
ref('C19', 'one segment', 'grav', 'calc_cross_coupling_coefficients', lambda I: ([A(I, x, size('N1', 1)) for x in L], {}, {}))
ref('C19', 'with timestamps', 'grav', 'calc_cross_coupling_coefficients',
    lambda I: ([A(I, x, size('N1', 1)) for x in L], {'times': A(I, 'times', size('N1', 1)), 'samplerate': S('rate', lo=Fr(0))}, {}))
ref('C19', 'with timestamps (default rate)', 'grav', 'calc_cross_coupling_coefficients',
    lambda I: ([A(I, x, size('N1', 1)) for x in L], {'times': A(I, 'times', size('N1', 1))}, {}))

# -- C20
ref('C20', 'up_vecs', 'grav', 'up_vecs',
    lambda I: ([S('dt', lo=Fr(0))] + [A(I, x, size('N1', 1)) for x in ('g', 'cacc', 'lacc', 'on_off')] + [S(x) for x in ('cper', 'cdamp', 'lper', 'ldamp')], {}, {}))

# -- C22
ref('C22', 'grav1d_padded', 'grav', 'grav1d_padded',
    lambda I: ([A(I, 'x', size('N2', 2)), A(I, 'topo', size('N2', 2)), S('zlev'), S('rho')], {}, {}))


def _g2(I, **k):
    nx, ny = size('NX', 2), size('NY', 2)
    return [A(I, 'X', nx), A(I, 'Y', ny), A2(I, 'Z', ny, nx), S('dx', pos=True), S('dy', pos=True)], dict(k), {}


for _n, _k in (('defaults', {}), ('not folded', {'ifold': FALSE, 'drho': 'drho', 'dz': 'dz'}), ('two terms', {'npower': num(2), 'drho': 'drho'}),
               ('three terms, not folded', {'npower': num(3), 'ifold': FALSE}), ('seven terms', {'npower': num(7)})):
    ref('C22', 'grav2d_folding(%s)' % _n, 'grav', 'grav2d_folding',
        lambda I, k=_k: _g2(I, **{a: (S(b) if type(b) is str else b) for a, b in k.items()}))

# -- C23
ref('C23', 'grav2d_layer_variable_density', 'grav', 'grav2d_layer_variable_density',
    lambda I: ([A2(I, 'rho', size('NY', 2), size('NX', 2)), S('dx', pos=True), S('dy', pos=True), S('z1'), S('z2')], {}, {}),
    known=[('late-nyquist', 'layer_late_nyquist')])

# -- C24
_th = ('u', 'Tm', 'rhom', 'rhow', 'a', 'k')
for _f, _second in (('therm_halfspace', 'z'), ('therm_Z_halfspace', 'T'), ('therm_plate', 'z'), ('therm_Z_plate', 'T')):
    for _t in (None, TRUE, FALSE):
        for _all in (False, True):
            def _mk(I, f=_f, s=_second, t=_t, al=_all):
                x = A(I, 'x', size('N1', 1))
                y = S('T') if f == 'therm_Z_halfspace' else A(I, s, size('M1', 1))
                kw = {} if t is None else {'time': t}
                if al:
                    kw.update({n: S(n, pos=True) for n in _th})
                    if 'plate' in f:
                        kw['zL0'] = S('zL0', pos=True)
                    if f == 'therm_Z_plate':
                        kw.update(minz=S('minz'), maxz=S('maxz'), zsp=S('zsp', pos=True))
                return [x, y], kw, {}
            ref('C24', '%s(%s%s)' % (_f, {None: 'distance by default', TRUE: 'ages', FALSE: 'distance'}[_t], ', all parameters' if _all else ''),
                'grav', _f, _mk)

# -- C25


def _ct(I, two=False, back=False, **k):
    nx = size('NX', 2)
    ny = size('NY', 2) if two else num(1)
    n = tm.mul(nx, ny)
    kw = dict(nx=nx, **k)
    if two:
        kw.update(ny=ny, dy=S('dy', pos=True))
    if back:
        kw['back'] = TRUE
    return [A(I, 'ur', n)], kw, {}


def _ctp():
    return dict(dx=S('dx', pos=True), zdown=S('zdown'), rho=S('rho', pos=True), wlarge=S('wlarge', pos=True), wsmall=S('wsmall', pos=True))


def realpart(o):
    """the profiles are real quantities, kept in complex arrays by some versions"""
    v = o.value
    if v is None:
        return None
    return mk('tup', *[tm.ew(lib3.real, [x]) for x in v.args]) if v.op == 'tup' else tm.ew(lib3.real, [v])


for _two in (False, True):
    for _back in (False, True):
        for _all in (False, True):
            ref('C25', 'crustal_thickness_2D(%s%s%s)' % ('2D' if _two else 'line', ', back' if _back else '', ', all parameters' if _all else ''),
                'grav', 'crustal_thickness_2D', lambda I, t=_two, b=_back, al=_all: _ct(I, t, b, **(_ctp() if al else {})),
                part=realpart, known=[('forward-transform', 'thickness_forward_transform')])

# -- C26
ref('C26', 'gaussian_filter', 'utils', 'gaussian_filter', lambda I: ([A(I, 'x', size('N2', 2)), sym('n_fl', 'num', int=True, lo=Fr(1))], {}, {}))
for _fl in (1, 2, 4, 5, 9):
    ref('C26', 'gaussian_filter(length %d)' % _fl, 'utils', 'gaussian_filter', lambda I, f=_fl: ([A(I, 'x', size('N2', 2)), num(f)], {}, {}))



@obligation('C26', 'series not longer than the filter are rejected')
def c26_reject():
    out = []
    for fl in (sym('n_fl', 'num', int=True, lo=Fr(1)), num(1), num(2), num(5)):
        make = lambda I, fl=fl: ([A(I, 'x', size('N0', 0)), fl], {}, {})        # noqa: E731
        o, r = code('utils', 'gaussian_filter', make), spec('utils', 'gaussian_filter', make)
        out.append(domain(o, r, 'utils', 'gaussian_filter', 'any series, length %s' % tm.show(fl, 2)))
    return out


def domain(o, r, mod, fname, what):
    """the code returns for the same inputs as the reference"""
    w = funcline(mod, fname)
    if o.error or r.error:
        return undecided('%s(%s): %s' % (fname, what, o.error or r.error), w)
    if o.defined is r.defined:
        return holds('%s: %s: accepted inputs' % (fname, what))
    q = cm.Comparer(tries=600, want=60).cmp(o.defined, r.defined)
    if q.v == cm.EQ:
        return holds('%s: %s: accepted inputs' % (fname, what))
    if q.v == cm.UNK or cm.has_unk(o.defined):
        return undecided('%s(%s): accepted inputs' % (fname, what), w)
    return violated('%s(%s) returns when %s, the reference when %s' % (fname, what, tm.show(o.defined, 5)[:200], tm.show(r.defined, 5)[:200]), w)


# -- C27


def frame(I, n, cols, **meta):
    """a data frame with the named columns: {name: meta of the symbolic column}"""
    t = lib.mkdf(n, [(c, sym('c_' + c, 'arr', rank=1, len=n, **dict(dict(elem='num'), **m))) for c, m in cols.items()])
    return I.alloc('df', t, roots={'frame'})


def _word(I):
    return sym('w_stat', 'num', int=True, lo=Fr(0), pytype='int')


ref('C27', 'integer word', 'utils', 'decode_dgs_status_bits', lambda I: ([_word(I)], {}, {}))
for _i, (_cols, _key) in enumerate(((('rgrav', 'status', 'ccp'), None), (('status', 've'), None), (('a', 'word'), 'word'), (('status',), None))):
    ref('C27', 'frame with columns %s' % ', '.join(_cols), 'utils', 'decode_dgs_status_bits',
        lambda I, c=_cols, k=_key: ([frame(I, size('N0', 0), {x: (dict(elemint=True) if x in ('status', 'word') else {}) for x in c})],
                                    {'key': mk('str', k)} if k else {}, {}))


def _words(I, words):
    n = len(words)
    t = lib.mkdf(num(n), [('status', mk('vec', *map(num, words))), ('ve', sym('c_ve', 'arr', rank=1, len=num(n), elem='num'))])
    return I.alloc('df', t, roots={'frame'})


for _what, _ws in (('recurring words', (1, 1, 6, 1, 6, 9, 1)), ('bits of every position', tuple(1 << i for i in range(16)) + (65535, 0))):
    ref('C27', 'frame with %s' % _what, 'utils', 'decode_dgs_status_bits', lambda I, w=_ws: ([_words(I, w)], {}, {}))


@obligation('C27', 'other inputs are rejected')
def c27_reject():
    out = []
    for what, make in (('text', lambda I: sym('t_text', 'str')), ('a float', lambda I: sym('w_float', 'num', pytype='float')),
                       ('a list', lambda I: I.newlist([num(1), num(2)])), ('an array', lambda I: A(I, 'w', size('N1', 1))),
                       ('a dict', lambda I: I.alloc('dict', mk('dict', ()))), ('None', lambda I: NONE)):
        o = code('utils', 'decode_dgs_status_bits', lambda I, m=make: ([m(I)], {}, {}))
        out.append(rejected(o, 'utils', 'decode_dgs_status_bits', what))
    return out


def rejected(o, mod, fname, what):
    w = funcline(mod, fname)
    if o.error:
        return undecided('%s(%s): %s' % (fname, what, o.error), w)
    if o.defined is FALSE:
        return holds('%s: %s is rejected' % (fname, what), analysed=sorted(o.analysed))
    if o.defined is TRUE and not o.undecided and not any(n for _, n in o.raises):
        return violated('%s accepts %s' % (fname, what), w)
    return undecided('%s(%s)' % (fname, what), w)
