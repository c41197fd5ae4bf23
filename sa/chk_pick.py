"""The point picker (C29): state after every click of a sequence, and after one click on lists of any length."""
import os
from . import run, terms as tm, compare as cm
from . import interp as ip
from .framework import holds, violated, undecided, funcline, repo_files, SPEC
from .terms import Fr, num, mk, sym, index, length, vec, NONE, TRUE, FALSE, UNDEF
from .chk_num import size
from . import lib
from .chk_io2 import register

CLS = '_SnappingCursor'
KNOWN_ATTRS = {'ax1', 'dot', 'data', 'horizontal_line', 'vertical_line', 'x', 'y', '_last_index', 'x_seg', 'y_seg', 'i_seg', 'scatters'}
LISTS = ('x_seg', 'y_seg', 'i_seg')
COLS = ('tsec', 'lon_new', 'lat_new')
KINDS = ('left', 'right', 'middle', 'left outside', 'right outside', 'move', 'move away', 'side button')


def ext(name):
    return sym(name, 'any', external=True)


class Picker:
    """a picker in the interpreter, and what it is to hold"""

    def __init__(self, I, ref, data, label):
        self.I, self.ref, self.data, self.label = I, ref, data, label
        self.rows = []                  # expected row numbers
        self.base = None                # (rows, count) of symbolic contents before the first click

    def lists(self):
        I = self.I
        o = I.obj(self.ref)
        out = []
        for n in LISTS:
            v = I.getattr(self.ref, n)
            out.append(I.freeze(v))
        return out


def make(I):
    n = size('N', 1)
    t = lib.mkdf(n, [(c, sym('c_' + c, 'arr', rank=1, len=n, elem='num')) for c in ('other',) + COLS])
    d = I.alloc('df', t, roots={'data'})
    line, xs = plotted_line(I)
    return [ext('ax1'), ext('ax2'), line, ext('dot'), d], {}, {'data': d, 'xs': xs}


def event(I, kind, k):
    x = sym('clickx%d' % k, 'num')
    y = sym('clicky%d' % k, 'num')
    inside = kind not in ('left outside', 'right outside', 'move away')
    button = {'left': 1, 'left outside': 1, 'middle': 2, 'right': 3, 'right outside': 3, 'side button': 8}.get(kind)
    c = {'button': NONE if button is None else num(button), 'xdata': x if inside else NONE, 'ydata': y if inside else NONE,
         'x': sym('px%d' % k, 'num'), 'y': sym('py%d' % k, 'num'), 'dblclick': FALSE, 'key': NONE, 'name': tm.string('button_press_event'),
         'inaxes': ext('ax1') if inside else NONE}
    return I.alloc('inst', c, frozenset(), None), x


def nearest(I, data, x):
    return I.freeze(I.call(I.public('spec_utils', 'nearest'), [data, x], {}))


def ismarker(t):
    return t.op == 'index' and t.args[1] is num(0) and t.args[0].op == 'call' and t.args[0].args[0] is mk('attr', ext('ax2'), 'plot')


def shown(calls, cur, ismarker=ismarker):
    """what the marker line shows after these effects: (x, y), or None when it is not known"""
    for t in calls:
        if t.op != 'effect' or t.args[0] not in ('call', mk('str', 'call')):
            if t.op == 'effect' and any(ismarker(x) for x in t.args[1:2]):
                return None
            continue
        c = t.args[1]
        f = c.args[0]
        if f.op != 'attr' or not ismarker(f.args[0]):
            continue
        name = f.args[1]
        name = name if isinstance(name, str) else name.args[0]
        kws = {}
        pos = []
        for a in c.args[1:]:
            if a.op == 'kw':
                kws[a.args[0]] = a.args[1]
            else:
                pos.append(a)
        x, y = cur
        if name == 'update' and len(pos) == 1 and pos[0].op == 'dict':
            kws = {k if isinstance(k, str) else k.args[0]: v for k, v in items(pos[0])}
            name, pos = 'set', []
        if name == 'set' and not pos:
            if 'data' in kws:
                return None
            x, y = kws.get('xdata', x), kws.get('ydata', y)
        elif name == 'set_data' and len(pos) == 2:
            x, y = pos
        elif name == 'set_data' and len(pos) == 1 and pos[0].op in ('tup', 'vec') and len(pos[0].args) == 2:
            x, y = pos[0].args
        elif name == 'set_xdata' and len(pos) == 1:
            x = pos[0]
        elif name == 'set_ydata' and len(pos) == 1:
            y = pos[0]
        elif name in ('draw', 'set_visible', 'set_color', 'set_marker', 'set_linestyle', 'set_zorder', 'set_alpha', 'set_label'):
            pass
        else:
            return None
        cur = (x, y)
    return cur


def items(d):
    out = []
    for a in d.args:
        if isinstance(a, tuple):
            out += [(k, v) for k, v in a]
    return out


def same(got, want):
    if got is want:
        return cm.EQ, ''
    v = cm.Comparer().cmp(got, want)
    return v.v, v.note


def run_clicks(seqs, where, what, start=None, two=False):
    """every sequence of clicks from a new picker"""
    verdicts = []

    def after(I, v, watch):
        data = watch['data']
        I.public('spec_utils', 'nearest')
        others = None
        if two:
            others = I.call(I.public('utils', CLS), [ext('ax1b'), ext('ax2b'), plotted_line(I)[0], ext('dotb'), data], {})
        attrs = set(k for k, x in I.obj(v).c.items() if isinstance(k, str))
        lists0 = [I.getattr(v, n) for n in LISTS]
        for n, l in zip(LISTS, lists0):
            if not isinstance(l, ip.Ref) or I.obj(l).kind != 'list':
                return verdicts.append(undecided('%s: %s is not a list' % (what, n), where))
            if I.freeze(l) is not vec():
                verdicts.append(violated('%s: a new picker starts with %s = %s' % (what, n, tm.show(I.freeze(l), 4)[:100]), where))
        plotted = I.st.heap[0].c[1]
        cur0 = None
        for t in plotted:
            c = t.args[1] if t.op == 'effect' and len(t.args) > 1 else None
            if c is not None and c.op == 'call' and c.args[0] is mk('attr', ext('ax2'), 'plot') and len(c.args) > 2:
                cur0 = (c.args[1], c.args[2])
        if start is not None:
            if attrs - KNOWN_ATTRS:
                return verdicts.append(undecided('%s: state besides the lists (%s)' % (what, ', '.join(sorted(attrs - KNOWN_ATTRS))), where))
            cur0 = start(I, data, lists0)
        rows0 = [] if start is None else None
        walk(I, v, data, others, seqs, (), rows0, cur0, lists0 if start is not None else None)

    def walk(I, v, data, others, depth, done, rows, cur, generic):
        for kind in KINDS:
            if depth is not None and not depth(done + (kind,)):
                continue
            st = I.st.copy()
            label = '%s: %s' % (what, ', '.join(done + (kind,)))
            I.st.heap[0] = I.st.heap[0].with_(c=(vec(), ()))
            before = [I.freeze(I.getattr(v, n)) for n in LISTS]
            I.tries += 1
            I.handlers.append([])
            try:
                e, x = event(I, kind, len(done))
                I.call(I.getattr(v, 'on_mouse_move' if kind.startswith('move') else 'on_mouse_click'), [e], {})
                dead = I.st is None
            except ip.Dead:
                dead = True
            I.tries -= 1
            raised = sorted({x[1] for x in I.handlers.pop() if isinstance(x[1], str)})
            if dead:
                verdicts.append(violated('%s: the click raises %s' % (label, ', '.join(raised)), where))
                I.st = st
                continue
            # the expected lists
            if kind == 'left':
                k = nearest(I, data, x)
                cols = I.obj(data).c
                col = {c: t for c, t in cols.args[1]}
                add = (index(col['lon_new'], k), index(col['lat_new'], k), k)
                want = [tm.concat(b, vec(a)) for b, a in zip(before, add)]
            elif kind.startswith('right') and not (before[2].op == 'vec' and not before[2].args):
                want = [tm.ite(tm.eq0(length(b)), b, tm.slice_(b, num(0), tm.sub(length(b), num(1)), None)) for b in before]
            else:
                want = before
            got = [I.freeze(I.getattr(v, n)) for n in LISTS]
            pc = I.st.pc
            bad = False
            names = ('longitudes', 'latitudes', 'indices')
            for n, g, w in zip(names, got, want):
                if pc is not TRUE:
                    g = ip.simp(g, pc)
                    w = ip.simp(w, pc)
                r, note = same(g, w)
                if r == cm.EQ:
                    continue
                bad = True
                f = violated if r == cm.DIFF else undecided
                verdicts.append(f('%s: the %s are %s instead of %s%s' % (label, n, tm.show(g, 6)[:160], tm.show(w, 6)[:160], ' (%s)' % note if note and f is undecided else ''), where))
            # the markers
            ends = []
            for l in tm.leaves(I.freeze_obj(I.st.heap[0])):
                ends.append(shown(l.args, cur) if l.op == 'vec' and cur is not None else None)
            cur2 = ends[0] if all(x == ends[0] for x in ends) else None
            if cur2 is None and not bad:
                verdicts.append(undecided('%s: what the markers show is not decided' % label, where))
            elif not bad:
                for n, g, w in zip(names, cur2, want):
                    r, note = same(g, w)
                    if r != cm.EQ:
                        bad = True
                        f = violated if r == cm.DIFF else undecided
                        verdicts.append(f('%s: the markers show the %s %s instead of %s' % (label, n, tm.show(g, 6)[:160], tm.show(w, 6)[:160]), where))
                        break
            if others is not None:
                for n in LISTS:
                    g = I.freeze(I.getattr(others, n))
                    r, note = same(g, vec())
                    if r != cm.EQ:
                        bad = True
                        verdicts.append((violated if r == cm.DIFF else undecided)('%s: the %s of another picker change too' % (label, n), where))
            if not bad and depth is not None:
                walk(I, v, data, others, depth, done + (kind,), None, cur2, generic)
            I.st = st

    o = run.evaluate(dict(repo_files(), spec_utils=os.path.join(SPEC, 'utils.py')), 'utils', CLS, make, after=after, seconds=300)
    if o.error:
        return undecided('%s: %s' % (what, o.error), where)
    if o.value is UNDEF or o.defined is FALSE:
        return violated('%s: the picker cannot be made' % what, where)
    return verdicts


def limit(n, kinds=KINDS, first=None):
    return lambda seq: len(seq) <= n and seq[-1] in kinds and (first is None or seq[0] == first)


def generic(I, data, lists):
    """lists of any length, in lockstep over rows of the data"""
    n = size('PICKED', 1)
    rows = sym('l_rows', 'arr', rank=1, len=n, elem='num', int=True, lo=Fr(0))
    col = {c: t for c, t in I.obj(data).c.args[1]}
    out = [tm.mapf(n, lambda j: index(col['lon_new'], index(rows, j))), tm.mapf(n, lambda j: index(col['lat_new'], index(rows, j))), rows]
    for l, t in zip(lists, out):
        I.put(l, I.obj(l).with_(c=(t, ())))
    return out[0], out[1]


def obligation(label, seqs, **kw):
    def check():
        where = funcline('utils', CLS)
        r = run_clicks(seqs, where, label, **kw)
        if not isinstance(r, list):
            return r
        bad = [v for v in r if v.status == 'violated']
        seen, out = set(), []
        for v in bad or r:
            key = v.what.split(': ', 2)[-1][:60]
            if key not in seen:
                seen.add(key)
                out.append(v)
        return out[:6] or holds(label)
    register('C29', label, check)


def overite(t, f):
    """f of every outcome; None if one of them is not known"""
    if t.op == 'ite':
        a, b = overite(t.args[1], f), overite(t.args[2], f)
        if a is None or b is None:
            return None
        return tuple(tm.ite(t.args[0], x, y) for x, y in zip(a, b))
    return f(t)


def inserts(*ts):
    """searchsorted gives at most the length"""
    return [tm.le0(tm.sub(t, length(t.args[0]))) for t in {x for y in ts for x in tm.subterms(y)} if t.op == 'searchsorted']


def plotted_line(I):
    """the line of the first axes and its x: sorted and unique"""
    n = size('PLOTTED', 1)
    x, y = [sym('line_' + c, 'arr', rank=1, len=n, elem='num', sorted=c == 'x') for c in 'xy']

    def give(v):
        return ip.Py('line data', lambda I, args, kw: v)
    return I.alloc('inst', {'get_data': give((x, y)), 'get_xdata': give(x), 'get_ydata': give(y), 'get_xydata': give(tm.unk_fresh('xydata'))}, frozenset(), None), x


def dot_follows():
    """the point in the map is the row under the cursor, after any few moves"""
    where = funcline('utils', CLS)
    what = 'the dot after moves of the cursor'
    verdicts = []

    def after(I, v, watch):
        data = watch['data']
        xs = watch['xs']

        def step(done, cur):
            for kind in ('move', 'move away', 'left', 'right'):
                seq = done + (kind,)
                if len(seq) > 3 or not done and kind != 'move':
                    continue
                label = '%s: %s' % (what, ', '.join(seq))
                st = I.st.copy()
                I.st.heap[0] = I.st.heap[0].with_(c=(vec(), ()))
                I.tries += 1
                I.handlers.append([])
                try:
                    e, x = event(I, kind, len(done))
                    I.call(I.getattr(v, 'on_mouse_move' if kind.startswith('move') else 'on_mouse_click'), [e], {})
                    dead = I.st is None
                except ip.Dead:
                    dead = True
                I.tries -= 1
                I.handlers.pop()
                bad = dead                                  # the sequences of clicks report it
                if not dead:
                    new = overite(I.freeze_obj(I.st.heap[0]), lambda l: shown(l.args, cur, isdot) if l.op == 'vec' else None)
                    if kind == 'move':
                        k = I.freeze(I.call(I.public('spec_utils', 'under_cursor'), [data, xs, x], {}))
                        col = dict(I.obj(data).c.args[1])
                        cur2 = (vec(index(col['lon_new'], k)), vec(index(col['lat_new'], k)))
                    else:
                        cur2 = cur
                    if new is None or None in new:
                        bad = True
                        verdicts.append(undecided('%s: what the dot shows is not decided' % label, where))
                    for n, g, w in zip(('longitude', 'latitude'), new if not bad else (), cur2):
                        pc = tm.band(I.st.pc, *inserts(g, w))
                        r, note = same(ip.simp(g, pc), ip.simp(w, pc))
                        if r != cm.EQ:
                            bad = True
                            f = violated if r == cm.DIFF else undecided
                            verdicts.append(f('%s: the dot shows the %s %s instead of %s %s' % (label, n, tm.show(g, 6)[:160], tm.show(w, 6)[:160], note if f is undecided else ''), where))
                            break
                if not bad:
                    step(seq, new)
                I.st = st

        step((), (NONE, NONE))

    o = run.evaluate(dict(repo_files(), spec_utils=os.path.join(SPEC, 'utils.py')), 'utils', CLS, make, after=after, seconds=300)
    if o.error:
        return undecided('%s: %s' % (what, o.error), where)
    bad = [v for v in verdicts if v.status == 'violated']
    return (bad or verdicts)[:3] or holds(what)


def isdot(t):
    return t is ext('dot')


register('C29', 'the dot after moves of the cursor', dot_follows)

for _k in KINDS:
    obligation('clicks from a new picker, first %s' % _k, limit(4, first=_k))
obligation('left and right clicks', limit(6, ('left', 'right')))
obligation('one click on any number of points', limit(1), start=generic)
obligation('a left click and another on any number of points', limit(2, first='left'), start=generic)
obligation('a second picker', limit(2, ('left', 'right')), two=True)
