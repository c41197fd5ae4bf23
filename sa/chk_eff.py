"""Effects: the caller's data and the outside world (C14), open files (C15)."""
import ast
from . import run, terms as tm, compare as cm, framework as fw, chk_io as io, chk_num, chk_io2 as io2
from .calls import Package, Resources, Walk, TooMany, effects
from .framework import holds, violated, undecided, funcline, repo_files
from .interp import Ref, Func, Mod
from .terms import sym, num, mk, NONE, UNDEF, TRUE, FALSE, Fr
from .chk_io import P, files_with_spec
from .chk_io2 import register

_pkg = {}


def package():
    if 'p' not in _pkg:
        _pkg['p'] = Package(repo_files())
    return _pkg['p']


# --------------------------------------------------------------------------
# C15: every path from an opening to an exit closes
# --------------------------------------------------------------------------
def where(fn, line):
    return (fn.path, line)


def closed(entry):
    pkg = package()
    res = Resources(pkg)
    out = []
    for f in pkg.reach(entry):
        if f.name == '<module>' and entry is not f:
            continue
        try:
            w = Walk(res, f).run()
        except TooMany:
            out.append(undecided('%s: too many states' % f.full, where(f, 1)))
            continue
        for rid, how, line in w.leaks:
            l, text = w.sites[rid]
            out.append(violated('%s: the file opened by %s in %s is still open %s%s' %
                                (entry.full, text, f.name, how, ' (line %d)' % line if line else ''), where(f, l), path='%s; exit at line %s' % (f.name, line)))
        for rid, line in w.escapes:
            l, text = w.sites[rid]
            out.append(undecided('%s: the file opened by %s in %s is kept in a container' % (entry.full, text, f.name), where(f, l)))
        if not w.leaks and not w.escapes:
            out.append(holds('%s: %d openings, %d states' % (f.full, len(w.sites), w.states), analysed=[f.full]))
    return out


def entries():
    try:
        return [f for f in package().public()] + [f for (m, n), f in package().fns.items() if n == '<module>']
    except (OSError, SyntaxError):
        return []


for _f in entries():
    register('C15', _f.full, lambda f=_f: closed(f))


# --------------------------------------------------------------------------
# C14: the outside world
# --------------------------------------------------------------------------
WRITER = 'utils.clean_ini_to_toml'


def outside(entry):
    pkg = package()
    seen = pkg.reach(entry)
    out = []
    for f in seen:
        for line, what, sure in effects(pkg, f):
            if entry.full == WRITER and ('writing' in what or 'not a literal' in what) and 'map' not in what:
                continue
            v = violated if sure else undecided
            out.append(v('%s %s: %s' % (f.full, what, pkg.chain(seen, f)), where(f, line)))
    return out or holds('%s: %d functions reachable' % (entry.full, len(seen)), analysed=[f.full for f in seen])


for _f in entries():
    register('C14', '%s: outside world' % _f.full, lambda f=_f: outside(f))


# --------------------------------------------------------------------------
# C14: the caller's data, module state, defaults
# --------------------------------------------------------------------------
def reachable(I, v, seen, name):
    """{address: name} of the objects a value leads to"""
    if isinstance(v, Ref):
        if v.a in seen:
            return
        o = I.st.heap.get(v.a)
        if o is None:
            return
        seen[v.a] = name
        if o.kind == 'list':
            for x in o.c[1]:
                reachable(I, x, seen, name)
        elif o.kind == 'dict' and isinstance(o.c, tuple) and isinstance(o.c[0], dict):
            for k, x in o.c[0].items():
                reachable(I, x, seen, name)
        elif o.kind in ('env', 'inst') and isinstance(o.c, dict):
            for k, x in o.c.items():
                if k != '<parent>':
                    reachable(I, x, seen, name if o.kind == 'inst' else k)
    elif isinstance(v, (tuple, list)):
        for x in v:
            reachable(I, x, seen, name)
    elif isinstance(v, dict):
        for x in v.values():
            reachable(I, x, seen, name)
    elif isinstance(v, Func):
        for x in list(v.defaults) + list(v.kwdefaults.values()):
            reachable(I, x, seen, 'a default argument of %s' % v.name)


def intact(mod, fname, make, label, setup=None, files=None, exempt=(), seconds=150, part=lambda t: t):
    """the objects the caller passes, and those of the module, are after the call what they were before"""
    SAME.setdefault((mod, fname), []).append((make, setup, part))

    def check():
        at = funcline(mod, fname)
        before = {}
        keep = {}

        def make2(I):
            args, kw, _ = make(I)
            objs = {}
            for i, v in enumerate(args):
                seen = {}
                reachable(I, v, seen, 'argument %d' % (i + 1))
                objs.update(seen)
            for k, v in kw.items():
                seen = {}
                reachable(I, v, seen, 'argument %s' % k)
                objs.update(seen)
            state = {}
            for m in I.mods.values():
                if m.name in repo_files():
                    reachable(I, m.env, state, m.name)
            watch = {}
            for kind, group in (('arg', objs), ('state', state)):
                for a, name in group.items():
                    o = I.st.heap[a]
                    if o.kind in ('env', 'file', 'ext'):
                        continue
                    tag = '%s:%s' % (kind, name)
                    from .interp import Obj
                    I.st.heap[a] = Obj(o.kind, o.c, frozenset(o.roots) | {tag}, o.x)
                    r = Ref(a)
                    key = '%s#%d' % (tag, a)
                    try:
                        before[key] = I.freeze(r)
                        watch[key] = r
                    except Exception:                       # noqa: BLE001
                        pass
            return args, kw, watch
        o = run.evaluate(files or repo_files(), mod, fname, make2, setup=setup, seconds=seconds)
        what = '%s.%s, %s' % (mod, fname, label)
        if o.error:
            return undecided('%s: %s' % (what, o.error), at)
        C = cm.Comparer(tries=300)
        out = []
        hit = {}
        for e in o.events:
            if e[0] == 'mutate':
                for r in e[1]:
                    if ':' in r:
                        hit.setdefault(r, (e[2], e[-1]))
            elif e[0] == 'readonly-store':
                out.append((violated if e.certain else undecided)('%s: an element of a read-only array is assigned' % what, e[-1]))
            elif e[0] == 'global-store':
                hit.setdefault('state:' + e[1], ('module variable assigned', e[-1]))
        done = set()
        for key, a in o.args.items():
            tag = key.split('#')[0]
            kind, name = tag.split(':', 1)
            if tag in exempt:
                continue
            b = before[key]
            r = C.cmp(a, b)
            if r.v == cm.EQ:
                if tag in hit and key not in done:
                    h = hit[tag]
                    if any(x.op == 'unk' for x in tm.subterms(a)):
                        out.append(undecided('%s: %s, %s' % (what, name, h[0]), h[1]))
                continue
            if tag not in hit:
                out.append(undecided('%s: %s: %s' % (what, name, r.note), at))
                continue
            done.add(tag)
            text, line = hit[tag]
            if kind == 'arg':
                if r.v == cm.DIFF or not cm.has_unk(a):
                    out.append(violated('%s: %s of the caller is changed (%s)' % (what, name, text), line, got=tm.show(a, 4)[:400], want=tm.show(b, 3)[:200]))
                else:
                    out.append(undecided('%s: %s of the caller is changed (%s)' % (what, name, text), line))
            else:
                out.append(state_changed(mod, fname, make, what, name, text, line, files, setup, b, part))
        for tag, (text, line) in hit.items():
            if tag.startswith('state:') and tag not in done and text == 'module variable assigned':
                out.append(state_changed(mod, fname, make, what, tag[6:], text, line, files, setup, None, part))
        return out or holds(what, analysed=sorted('%s' % (x,) for x in o.analysed), pairs=C.pairs)
    register('C14', '%s.%s: %s' % (mod, fname, label), check)


def empty(t):
    return t is None or t in (NONE, tm.EMPTY, FALSE, tm.ZERO) or t.op in ('vec', 'tup') and not t.args or t.op == 'dict' and all(x in ((), tm.EMPTY) for x in t.args)


def state_changed(mod, fname, make, what, name, text, line, files, setup, before, part):
    """module state is changed by the call: is a later call (of any of the configurations) affected?"""
    fs = dict(files_with_spec())
    left = []
    for make2, setup2, part2 in [(make, setup, part)] + [c for c in SAME.get((mod, fname), ()) if c[0] is not make]:
        def both(I):
            args, kw, _ = make(I)
            args, kw = renamed(I, args, kw)
            args2, kw2, _ = make2(I)
            return [I.public(mod, fname), I.newlist(args), I.newdict(kw), I.newlist(args2), I.newdict(kw2)], {}, {}

        def fresh(I):
            args2, kw2, _ = make2(I)
            return args2, kw2, {}
        a = run.evaluate(fs, 'spec_io', 'after_another', both, setup=setup2, seconds=30)
        b = run.evaluate(fs, mod, fname, fresh, setup=setup2, seconds=30)
        if a.error or b.error:
            left.append(a.error or b.error)
            continue
        r = cm.Comparer(tries=300).cmp(part2(a.value), part2(b.value))
        if r.v == cm.DIFF:
            return violated('%s: %s keeps data from one call to the next (%s), and the result of a later call depends on it' % (what, name, text), line,
                            got=tm.show(r.a, 4)[:400], want=tm.show(r.b, 4)[:400])
        if r.v == cm.UNK:
            left.append(r.note)
    if before is not None and not empty(before):
        return violated('%s: the module-level %s is changed (%s)' % (what, name, text), line)
    return undecided('%s: %s keeps data between calls (%s) %s' % (what, name, text, left[:1]), line)


SAME = {}           # (module, function) -> its configurations


def renamed(I, args, kw):
    """other arguments of the same kinds"""
    def other(v):
        if isinstance(v, Ref):
            o = I.st.heap[v.a]
            if o.kind in ('arr', 'df') and isinstance(o.c, tm.T):
                return I.alloc(o.kind, rename(o.c), roots=())
            if o.kind == 'list':
                return I.alloc('list', (rename(o.c[0]), tuple(rename(x) if isinstance(x, tm.T) else other(x) for x in o.c[1])))
            return v
        if isinstance(v, tm.T) and v.op == 'sym':
            return rename(v)
        return v
    return [other(v) for v in args], {k: other(v) for k, v in kw.items()}


def rename(t):
    m = {x: tm.sym('z_' + x.args[0], **tm.SYM[x]) for x in tm.subterms(t) if x.op == 'sym' and isinstance(x.args[0], str) and x.args[0][:2] in ('a_', 'm_', 's_', 'c_', 'p_', 'l_', 'w_')}
    return tm.subst(t, m) if m else t


def tables(t, layouts, header):
    for p in (io2.PA, io2.PB):
        t = io.Table(layouts, header, path=p, seq=tuple(range(len(layouts))), tag=p.args[0][-1])(t)
    return t


HEAVY = {'all parameters', 'seven terms', 'three terms'}
for _p, _l, _m, _f, _mk in fw.CONFIGS:
    if any(h in _l for h in HEAVY) or 'length' in _l:
        continue
    intact(_m, _f, _mk, _l, exempt={'arg:argument 1'} if _f == 'decode_dgs_status_bits' else ())
for _r in io.READERS:
    _lab, _fn, _ship, _lay, _head, _kw = _r
    if _ship in ('NBP', 'Ride') and _fn == 'read_dgs_laptop' or _fn == 'read_dgs_raw' and _ship in ('NBP', 'Ride', 'Revelle', 'Langseth'):
        continue
    intact('io', _fn, lambda I, s=_ship, k=_kw: ([I.newlist([io2.PA, io2.PB]), mk('str', s)], dict(k(I)) if k else {}, {}), _lab, files=files_with_spec(),
           part=lambda t, l=_lay, h=_head: tables(t, l, h))
for _s in list(io2.DB.get('nav-talkers', {})):
    intact('io', 'read_nav', lambda I, s=_s: ([mk('str', s), I.newlist([io2.PB, io2.PA, io2.PC])], {'sampling': sym('c_sampling', 'num')}, {}), _s, files=files_with_spec())
    intact('io', 'read_nav', lambda I, s=_s: ([mk('str', s), I.newlist([io2.PB, io2.PA, io2.PC])], {'talker': sym('c_talker', 'str'), 'decimate': num(5),
                                                                                           'ship_function': I.public('spec_io', 'user_nav')}, {}),
           '%s, user-supplied parser' % _s, files=files_with_spec())
intact('io', 'read_other_stuff', lambda I: ([sym('p_yaml', 'str'), sym('p_data', 'str'), mk('str', 'PHXDT')], {}, {}), 'feed',
       setup=lambda I: setattr(I, 'yaml_content', io.YAML), files=files_with_spec())
intact('utils', 'clean_ini_to_toml', lambda I: ([P], {}, {}), 'path')
