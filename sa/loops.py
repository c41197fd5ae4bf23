"""Loop summaries: a loop over n (symbolic) elements is replaced by closed forms
of every location it changes (independent last value, induction and sums,
products, appended sequences, element stores, shift registers, searches with
break or return).  What has no closed form here becomes an unknown term."""
import ast
from . import terms as tm
from .terms import (T, mk, fresh, num, ite, band, bor, bnot, index, length, isarr, rank, kind, const_of, unk_fresh, vec,
                    concat, mapf, cmap, subst, eq0, lt0, add, sub, mul, TRUE, FALSE, NONE, UNDEF, EMPTY, ZERO, ONE, Fr)
from . import interp as ip
from .interp import Ref, State, LoopCtx, simp

UNROLL = tm.MAXVEC


def for_loop(I, s):
    seq = I.seq(I.ev(s.iter))
    if seq.n is None:
        u = unk_fresh('iter')
        seq = ip.Seq(length(u), lambda k: index(u, k))
    c = const_of(seq.n)
    if c is not None and c <= UNROLL:
        unrolled(I, s, seq, int(c))
        return
    symbolic(I, seq.n, lambda k: I.assign(s.target, seq.get(k)), s, None)


def while_loop(I, s):
    # a few constant iterations first (loops whose condition is decided)
    pre = I.st
    fr = I.frames[-1]
    for _ in range(UNROLL):
        try:
            c = I.cond(s.test)
        except ip.Dead:
            I.st = None
            return
        if c is FALSE:
            if s.orelse:
                I.exec_block(s.orelse)
            return
        if c is not TRUE or isinstance(s.test, ast.Constant):
            break
        ctx = LoopCtx()
        fr.loops.append(ctx)
        st0 = I.st.copy()
        I.exec_block(s.body)
        fr.loops.pop()
        if ctx.breaks:
            I.st = st0
            break
        I.st = I.merge([I.st] + ctx.continues)
        if I.st is None:
            return
    symbolic(I, None, lambda k: None, s, s.test)


def unrolled(I, s, seq, c):
    fr = I.frames[-1]
    ctx = LoopCtx()
    fr.loops.append(ctx)
    for i in range(c):
        if I.st is None:
            break
        try:
            I.assign(s.target, seq.get(num(i)))
            I.exec_block(s.body)
        except ip.Dead:
            I.st = None
        if ctx.continues:
            I.st = I.merge([I.st] + ctx.continues)
            ctx.continues = []
    fr.loops.pop()
    if s.orelse and I.st is not None:
        I.exec_block(s.orelse)
    if ctx.breaks:
        I.st = I.merge([I.st] + ctx.breaks)


# --------------------------------------------------------------------------
DICTKINDS = ('env', 'inst', 'file')


def changed(pre, st, out):
    for a, o in pre.heap.items():
        o2 = st.heap.get(a)
        if o2 is None or o2 is o:
            continue
        if o.kind in DICTKINDS and o2.kind == o.kind:
            for k in set(o.c) | set(o2.c):
                x, y = o.c.get(k), o2.c.get(k)
                if x is not y and not _same(x, y):
                    out.add(('v', a, k))
        elif o.kind == 'dict' and o2.kind == 'dict':
            (d, e), (d2, e2) = o.c, o2.c
            for k in list(d) + [k for k in d2 if k not in d]:
                if d.get(k) is not d2.get(k):
                    out.add(('d', a, k))
            if e is not e2:
                out.add(('x', a))
        else:
            if o.kind == 'list' and o2.kind == 'list' and o.c == o2.c:
                continue
            if o.c is o2.c:
                continue
            out.add(('o', a))
    for a in st.heap:
        if a == 0 and 0 not in pre.heap:
            out.add(('o', 0))


def _same(x, y):
    return isinstance(x, Ref) and isinstance(y, Ref) and x.a == y.a or \
        (type(x) is type(y) and isinstance(x, (ip.Lib,)) and x == y)


def getloc(I, st, loc):
    """raw value of a location, or None"""
    o = st.heap.get(loc[1])
    if o is None:
        return None
    if loc[0] == 'v':
        return o.c.get(loc[2])
    if loc[0] == 'd':
        return o.c[0].get(loc[2])
    if loc[0] == 'x':
        return o.c[1]
    return ip._Content(o)


def term(I, st, loc):
    v = getloc(I, st, loc)
    if v is None:
        return UNDEF
    return I.fz(st, v)


def vkind(I, st, loc):
    """(heap kind or None, roots)"""
    v = getloc(I, st, loc)
    if isinstance(v, Ref):
        o = st.heap[v.a]
        return o.kind, o.roots
    if isinstance(v, ip._Content):
        return v.o.kind, v.o.roots
    if isinstance(v, tuple):
        return 'tuple', frozenset()
    return None, frozenset()


def setloc(I, st, loc, t, k, roots):
    """write term t back to a location, as heap kind k"""
    old = I.st
    I.st = st
    try:
        o = st.heap.get(loc[1])
        if loc[0] == 'o':
            if o is None:
                st.heap[loc[1]] = ip.Obj('list', (t, ()))
                return
            st.heap[loc[1]] = ip.Obj(o.kind, content(I, o.kind, t), o.roots | roots, o.x)
            return
        if loc[0] == 'x':
            st.heap[loc[1]] = o.with_(c=(o.c[0], t))
            return
        v = wrap(I, t, k, roots)
        if loc[0] == 'd':
            d = dict(o.c[0])
            d[loc[2]] = v
            st.heap[loc[1]] = o.with_(c=(d, o.c[1]))
        else:
            c = dict(o.c)
            c[loc[2]] = v
            st.heap[loc[1]] = o.with_(c=c)
    finally:
        I.st = old


def content(I, k, t):
    if k == 'list':
        return (t, ())
    if k == 'dict':
        return (dict((a, b) for a, b in t.args[0]), t.args[1]) if t.op == 'dict' else ({}, t)
    return t


def wrap(I, t, k, roots):
    if t.op == 'undef':
        return t
    if k in ('arr', 'list', 'df', 'ext') or (k == 'dict' and t.op == 'dict'):
        if k == 'arr' and not isarr(t) and t.op != 'unk':
            return I.thaw(t)
        return I.alloc(k, content(I, k, t), roots)
    return I.thaw(t)


def symbolic(I, n, bind, s, test):
    try:
        _symbolic(I, n, bind, s, test)
    except tm.Overflow:
        raise


def _symbolic(I, n, bind, s, test):
    fr = I.frames[-1]
    pre = I.st
    if n is not None and n.op == 'ite':
        # split on the trip count
        c, a, b = n.args
        I.branch(simp(c, I.st.pc), lambda: _symbolic(I, a, bind, s, test), lambda: _symbolic(I, b, bind, s, test))
        return
    if n is not None:
        k = fresh('i', 'num', int=True, lo=Fr(0), ub=n)
    else:
        k = fresh('i', 'num', int=True, lo=Fr(0))
    mods = set()
    info = {}           # loc -> placeholder settings
    sample = {}         # names without a value before the loop that an iteration may take over from an earlier one
    nret = len(fr.returns)
    nev = len(I.events)
    for attempt in range(7):
        hsave = [len(h) for h in I.handlers]
        I.st = pre.copy()
        ph = {}
        for loc in sorted(mods, key=repr):
            init = term(I, pre, loc)
            kd, roots = vkind(I, pre, loc)
            st_ = info.get(loc, {})
            if init.op == 'undef':
                if loc not in sample:
                    continue
                init, kd, roots = sample[loc]
                st_ = dict(st_, nolen=True)
            if kd == 'tuple':
                p = fresh('p', 'any')
                ph[loc] = p
                setloc(I, I.st, loc, p, None, roots)
                continue
            p = placeholder(init, kd, st_)
            ph[loc] = p
            setloc(I, I.st, loc, p, kd, roots)
        start = I.st.copy()
        ctx = LoopCtx()
        fr.loops.append(ctx)
        I.loopdepth += 1
        stops = []
        del I.events[nev:]
        try:
            if test is not None:
                try:
                    c = I.cond(test)
                    if c.op == 'unk':
                        c = mk('truthy', c)
                    if c is not TRUE:
                        s1 = I.st.copy(band(I.st.pc, bnot(c)))
                        stops.append(s1)
                        I.st.pc = band(I.st.pc, c)
                        if I.st.pc is FALSE:
                            I.st = None
                except ip.Dead:
                    I.st = None
            if I.st is not None:
                try:
                    bind(k)
                    I.exec_block(s.body)
                except ip.Dead:
                    I.st = None
        finally:
            fr.loops.pop()
            I.loopdepth -= 1
        end = I.merge([I.st] + ctx.continues)
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        raised = []
        for h, m in zip(I.handlers, hsave):
            raised.append(h[m:])
            del h[m:]
        new = set()
        allst = ([end] if end is not None else []) + ctx.breaks + rets + [x[0] for r in raised for x in r]
        for st in allst:
            changed(start, st, new)
        # names bound afresh every iteration are not carried
        again = not (new <= mods)
        mods |= new
        if end is not None:
            for loc in mods:
                if loc not in ph and loc not in sample and loc[0] == 'v' and isinstance(loc[2], str) and getloc(I, pre, loc) is None \
                        and getloc(I, end, loc) is not None and exposed(s, test, loc[2]):
                    sample[loc] = (term(I, end, loc), *vkind(I, end, loc))
                    again = sample[loc][0].op != 'undef'
                    if not again:
                        del sample[loc]
            for loc, p in ph.items():
                u = term(I, end, loc)
                st_ = info.setdefault(loc, {})
                for key, val in check(p, u, term(I, pre, loc)).items():
                    if st_.get(key) != val:
                        st_[key] = val
                        again = True
        if not again:
            break
    # ---- closed forms
    updates = {loc: (term(I, end, loc) if end is not None else UNDEF) for loc in mods}
    endpc = end.pc if end is not None else FALSE
    closed = solve(I, k, n, mods, ph, updates, pre)
    psub = {p: closed[loc](k) for loc, p in ph.items()}

    def at(t, j=None):
        """term of iteration k (or j) in terms of the state before the loop"""
        t = subst(t, psub)
        if j is not None:
            t = subst(t, {k: j})
        return t
    # ---- early exits
    exits = [('break', st, None, None) for st in ctx.breaks] + [('ret', st, None, None) for st in rets]
    for hi, lst in enumerate(raised):
        for x in lst:
            exits.append(('raise', x[0], x[1], hi))
    for st in stops:
        exits.append(('stop', st, None, None))
    startpc = start.pc
    E = FALSE
    gs = []
    for e in exits:
        g = at(simp(e[1].pc, startpc))
        gs.append(g)
        E = bor(E, g)
    if any(p in g.fs for g in gs for p in ph.values()):
        E = unk_fresh('exit condition')
    post = pre.copy()
    dead = ('i',)
    if n is None:
        m = trip(E, k)
        if m is None:
            m = unk_fresh('trip count')
        # symbol k of the closed forms has no bound; fine
        ex = TRUE
        total = None
    elif E is FALSE:
        ex, m, total = FALSE, None, n
    else:
        E2 = E
        ex = tm.any_(n, k, E2)
        m = tm.first_(n, k, E2)
        total = n
    outs = []
    if total is not None and ex is not TRUE:
        st = pre.copy(band(pre.pc, bnot(ex)))
        if st.pc is not FALSE:
            write_final(I, st, mods, closed, total, end, pre)
            I.st = st
            if s.orelse:
                I.exec_block(s.orelse)
            if I.st is not None:
                outs.append(I.st)
    for (what, est, name, hi), g in zip(exits, gs):
        # state of the exiting iteration, at k = m
        gm = subst(g, {k: m})
        if len(exits) == 1 and g is E:
            gm = TRUE

        def final(t):
            return subst(tm.assume(at(t), g), {k: m})
        pc = band(pre.pc, ex, gm)
        if pc is FALSE:
            continue
        st = State({}, pc)
        for a, o in est.heap.items():
            if pre.heap.get(a) is o:
                st.heap[a] = o
            else:
                st.heap[a] = substobj(I, o, final, est)
        if what in ('break',):
            outs.append(st)
        elif what == 'stop':
            I.st = st
            if s.orelse:
                I.exec_block(s.orelse)
            if I.st is not None:
                outs.append(I.st)
        elif what == 'ret':
            fr.returns.append(st)
        else:
            I.handlers[hi].append((st, name, None))
    I.st = I.merge(outs)


def substobj(I, o, f, st):
    def val(v):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, tuple):
            return tuple(val(x) for x in v)
        if isinstance(v, ip.Choice):
            return ip.Choice(f(v.c), val(v.a), val(v.b))
        if isinstance(v, ip.Seq):
            t = I.fz(st, v)
            t2 = f(t)
            return v if t2 is t else t2
        return v
    if o.kind in DICTKINDS:
        return o.with_(c={k: val(v) for k, v in o.c.items()})
    if o.kind == 'list':
        return o.with_(c=(f(o.c[0]), tuple(val(x) for x in o.c[1])))
    if o.kind == 'dict':
        return o.with_(c=({k: val(v) for k, v in o.c[0].items()}, f(o.c[1])))
    if isinstance(o.c, T):
        return o.with_(c=f(o.c))
    return o


def write_final(I, st, mods, closed, total, end, pre):
    for loc in sorted(mods, key=repr):
        t = closed[loc](total)
        k1, r1 = vkind(I, end, loc) if end is not None else (None, frozenset())
        k0, r0 = vkind(I, pre, loc)
        setloc(I, st, loc, t, k1 if k1 is not None else k0, r0 | r1)


def exposed(s, test, name):
    """may an iteration read the name before it gives it a value?"""
    def reads(e):
        return e is not None and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(e))

    def writes(t):
        return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load) for x in ast.walk(t))

    def block(b):
        """(read before a value is given, certainly given a value)"""
        for x in b:
            r, w = stmt(x)
            if r:
                return True, False
            if w:
                return False, True
        return False, False

    def stmt(x):
        if isinstance(x, (ast.Return, ast.Continue, ast.Break, ast.Raise)):
            return any(reads(c) for c in ast.iter_child_nodes(x)), True
        if isinstance(x, ast.Assign):
            if reads(x.value) or any(reads(t) for t in x.targets):
                return True, False
            return False, any(writes(t) for t in x.targets)
        if isinstance(x, ast.AugAssign):
            return reads(x.value) or writes(x.target) or reads(x.target), False
        if isinstance(x, ast.If):
            if reads(x.test):
                return True, False
            (r1, w1), (r2, w2) = block(x.body), block(x.orelse)
            return r1 or r2, (w1 and w2) or writes(x.test)
        if isinstance(x, (ast.For, ast.While)):
            if reads(x.iter if isinstance(x, ast.For) else x.test):
                return True, False
            if isinstance(x, ast.For) and writes(x.target):
                return block(x.orelse)[0], False
            return block(x.body)[0] or block(x.orelse)[0], False
        if isinstance(x, ast.With):
            if any(reads(i.context_expr) for i in x.items):
                return True, False
            if any(i.optional_vars is not None and writes(i.optional_vars) for i in x.items):
                return False, True
            return block(x.body)
        if isinstance(x, ast.Try):
            r, w = block(x.body)
            hs = [block(h.body) for h in x.handlers]
            ro, wo = block(x.orelse)
            rf, wf = block(x.finalbody)
            return r or any(h[0] for h in hs) or (ro and not w) or rf and not w, wf or (w or wo) and all(h[1] for h in hs)
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            return False, x.name == name
        return reads(x), False
    return reads(test) or block(s.body)[0]


def placeholder(init, kd, st):
    k = kind(init)
    if kd == 'df' or k == 'df':
        return fresh('p', 'df')
    if isarr(init) or kd in ('list', 'arr'):
        r = st.get('rank', rank(init) or 1)
        meta = {'rank': r}
        if not st.get('nolen'):
            meta['len'] = length(init)
            if r == 2 and init is not EMPTY:
                meta['shape'] = (length(init), length(index(init, ZERO)))
        ek = st.get('elem', tm.elemkind(init))
        if ek != 'any':
            meta['elem'] = ek
        else:
            meta['elem'] = 'num' if not st.get('elem') else st['elem']
        return fresh('p', 'arr', **meta)
    if k == 'num':
        meta = {}
        if tm.is_int(init) and not st.get('noint'):
            meta['int'] = True
            lo, hi = tm.interval(init)
            if lo is not None and lo >= 0 and st.get('nonneg'):
                meta['lo'] = Fr(0)
        if st.get('any'):
            return fresh('p', 'any')
        return fresh('p', 'num', **meta)
    if k in ('str', 'dt') and not st.get('any'):
        return fresh('p', k)
    return fresh('p', 'any')


def check(p, u, init):
    """does the update fit the placeholder's assumptions?"""
    out = {}
    m = tm.SYM[p]
    if m['kind'] == 'arr':
        if u.op == 'unk':
            return out
        if m.get('len') is not None and length(u) is not m['len']:
            out['nolen'] = True
        r = rank(u)
        if r is not None and u is not EMPTY and r != m.get('rank', 1) and r > 0 and init is EMPTY:
            out['rank'] = r
        if init is EMPTY and u is not EMPTY:
            ek = 'any'
            for l in tm.leaves(u):
                for piece in (l.args if l.op == 'concat' else (l,)):
                    if piece is not p and piece is not EMPTY:
                        ek = tm.elemkind(piece)
            if ek in ('num', 'str', 'arr', 'dt', 'df') and ek != m.get('elem'):
                out['elem'] = ek
    elif m['kind'] == 'num':
        if m.get('int') and not tm.is_int(u):
            out['noint'] = True
        if kind(u) not in ('num', 'bool'):
            out['any'] = True
    elif m['kind'] in ('str', 'dt'):
        if kind(u) != m['kind']:
            out['any'] = True
    return out


# --------------------------------------------------------------------------
def solve(I, k, n, mods, ph, updates, pre):
    closed = {}
    todo = set(mods)
    init = {loc: term(I, pre, loc) for loc in mods}
    for loc in list(todo):
        if loc not in ph:
            continue
    psub = {}
    progress = True
    while todo and progress:
        progress = False
        for loc in sorted(todo, key=repr):
            p = ph.get(loc)
            u = subst(updates[loc], psub)
            open_ps = {ph[l] for l in todo if l in ph}
            dep = open_ps & u.fs
            f = None
            if not dep:
                f = delay(init[loc], u, k, pre.pc)
            elif dep == {p}:
                f = recurrence(u, p, k, n, init[loc])
            if f is not None:
                closed[loc] = f
                todo.discard(loc)
                if p is not None:
                    psub = {q: subst(t, {p: f(k)}) for q, t in psub.items()}
                    psub[p] = f(k)
                progress = True
    if todo:
        args = tuple(subst(updates[l], psub) for l in sorted(todo, key=repr))
        for i, loc in enumerate(sorted(todo, key=repr)):
            tag = unk_fresh('loop', *args, *[init[l] for l in sorted(todo, key=repr)])
            closed[loc] = (lambda c, t=tag: t)
    return closed


def delay(init, u, k, pc=TRUE):
    first = None
    if init.op != 'undef' and k in u.fs:
        try:
            first = subst(u, {k: num(-1)})
            first = first if first is init else simp(first, pc)
        except tm.Overflow:
            raise
        except Exception:                               # noqa: BLE001
            first = None

    def f(c):
        if first is init:
            return subst(u, {k: sub(c, ONE)})           # the state before the loop continues the same sequence
        v = subst(u, {k: sub(c, ONE)})
        if init.op == 'undef':
            return v
        if v is init:
            return init
        return ite(eq0(c), init, v)
    return f


def ip_has_unk(t):
    return any(x.op == 'unk' for x in tm.subterms(t))


def recurrence(u, p, k, n, init):
    """closed form (a function of the iteration count) of x' = u(k, x), x = p"""
    if u is p:
        return lambda c: init
    m = tm.SYM[p]
    if m['kind'] == 'arr' or isarr(u):
        r = append_form(u, p, k, init)
        if r:
            return r
        r = shift_form(u, p, k, init)
        if r:
            return r
        r = elementwise(u, p, p, k, init)
        if r is None and m['kind'] == 'arr' and m.get('len') is not None and isarr(u) and length(u) is m['len'] and rank(u) == m.get('rank', 1) \
                and not ip_has_unk(u):
            q = tm.prev(init, u, **m)

            def r(c, b=subst(u, {p: q}), k=k):
                v = fresh('k', 'num', int=True, lo=Fr(0), ub=c)
                return tm.fold_(c, v, init, q, subst(b, {k: v}))
        return r
    return text_form(u, p, k, init) or scalar_form(u, p, k, init)


def text_form(u, p, k, init):
    """a text that grows: x' = x + t(k)"""
    def tail(l):
        if l is p:
            return EMPTY
        if l.op == 'cat' and l.args[0] is p:
            return tm.vec(*l.args[1:])
        return None
    ls = list(tm.leaves(u))
    if tm.kind(u) != 'str' or not all(tail(l) is not None for l in ls):
        return None
    x = tm._leafmap(u, tail)
    if p in x.fs:
        return None

    def f(c):
        from .lib2 import joinT
        w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
        return tm.APP['cat'](init, joinT(tm.string(''), cmap(c, w, subst(x, {k: w}))))
    return f


def scalar_form(u, q, k, init):
    """q is any term standing for the previous value (a symbol or an element)"""
    if u is q:
        return lambda c: init
    qk = kind(q)
    # sums
    if kind(u) in ('num', 'bool', 'any') and qk in ('num', 'any'):
        d = sub(u, q)
        if not occurs(d, q):
            if k not in d.fs:
                return lambda c: add(init, mul(d, c))

            def f(c):
                w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
                return add(init, tm.sum_(c, w, subst(d, {k: w})))
            return f
        # products
        if u.op != 'ite':
            g = tm.div(u, q)
            if not occurs(g, q):
                def f(c):
                    w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
                    return mul(init, tm.prod_(c, w, subst(g, {k: w})))
                return f
    # independent of the previous value
    if not occurs(u, q):
        return delay(init, u, k)
    # selection by position: x' = val(k) if k == k0 else x
    for cnd in sorted(tm.spine_conds(u), key=lambda t: t.id):
        if cnd.op == 'eq0' and k in cnd.fs and not occurs(cnd, q):
            k0 = linear_root(cnd.args[0], k)
            if k0 is None:
                continue
            t, e = tm.restrict(u, cnd, True), tm.restrict(u, cnd, False)
            if e is not q:
                continue

            def f(c, t=t, k0=k0):
                v = subst(t, {k: k0})
                v = replace(v, q if k not in q.fs else q, init)
                inr = band(tm.le(ZERO, k0), tm.lt(k0, c))
                if not tm.is_int(k0):
                    inr = band(inr, eq0(sub(k0, tm.floor(k0))))
                return ite(inr, v, init)
            return f
    # any-write of a constant value
    if u.op == 'ite':
        vals = {l for l in tm.leaves(u)}
        if len(vals) == 2 and q in vals:
            (v,) = vals - {q}
            g = tm._leafmap(u, lambda l: tm.boolc(l is v))
            if not occurs(v, q) and not occurs(g, q):
                if k not in v.fs:
                    def f(c):
                        w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
                        return ite(tm.any_(c, w, subst(g, {k: w})), v, init)
                    return f
    # running minimum / maximum
    for op in ('min', 'max'):
        x = extremum(u, q, op)
        if x is not None and not occurs(x, q):
            def f(c, x=x, op=op):
                w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
                return ite(eq0(c), init, tm.minmax(op, [init, tm.rmin_(c, w, subst(x, {k: w}), 'r' + op)]))
            return f
    # string building
    if u.op == 'cat' and u.args[0] is q and not any(occurs(x, q) for x in u.args[1:]):
        rest = mk('cat', *u.args[1:]) if len(u.args) > 2 else u.args[1]

        def f(c):
            j = mk('join', tm.string(''), mapf(c, lambda w: subst(rest, {k: w})))
            return j if init.op == 'str' and init.args[0] == '' else mk('cat', init, j)
        return f
    return latest(u, q, k, init)


def latest(u, q, k, init):
    """x' = val(k) if g(k) else x: the value of the last time it was set, if it was"""
    if u.op != 'ite' or not any(l is q for l in tm.leaves(u)):
        return None
    g = tm._leafmap(u, lambda l: tm.boolc(l is not q))
    v = tm._leafmap(u, lambda l: UNDEF if l is q else l)
    if occurs(g, q) or occurs(v, q):
        return None
    if init is UNDEF and subst(g, {k: ZERO}) is not TRUE:
        return None         # an iteration may read a name that has no value yet

    def f(c):
        w, z = [fresh('j', 'num', int=True, lo=Fr(0), ub=c) for _ in 'ab']
        j = tm.BIND['last'](c, w, subst(g, {k: w}))
        return ite(tm.any_(c, z, subst(g, {k: z})), subst(v, {k: j}), init)
    return f


def extremum(u, q, op):
    if u.op == op and q in u.args[0] and len(u.args[0]) == 2:
        return [x for x in u.args[0] if x is not q][0]
    if u.op == 'ite' and {u.args[1], u.args[2]} >= {q} and u.args[0].op in ('lt0', 'le0'):
        x = u.args[1] if u.args[2] is q else u.args[2]
        d = u.args[0].args[0]
        s = sub(x, q)
        taken = u.args[2] is q
        if d is s:
            return x if (op == 'min') == taken else None
        if d is tm.neg(s):
            return x if (op == 'max') == taken else None
    return None


def occurs(t, q):
    if q.op == 'sym':
        return q in t.fs
    if not (q.fs <= t.fs):
        return False
    base = q
    while base.op == 'index':
        base = base.args[0]
    return base in t.fs


def replace(t, q, v):
    if q.op == 'sym':
        return subst(t, {q: v})
    return tm.rewrite(t, {q: v})


def linear_root(poly, k):
    """k0 with poly == 0 iff k == k0 (poly = +-k + rest)"""
    d = tm.P(poly)
    c = None
    rest = {}
    for m, cf in d.items():
        if any(k in a.fs for a, e in m):
            if len(m) == 1 and m[0][0] is k and m[0][1] == 1:
                c = cf
            else:
                return None
        else:
            rest[m] = cf
    if c is None:
        return None
    return tm.mul(tm.fromP(rest), num(-1 / c))


def append_form(u, p, k, init):
    """u = p ++ X(k) (possibly under conditions)"""
    def tail(l):
        if l is p:
            return EMPTY
        if l.op == 'concat' and l.args[0] is p:
            return concat(*l.args[1:])
        return None
    ls = list(tm.leaves(u))
    if not all(tail(l) is not None for l in ls):
        return None
    x = tm._leafmap(u, tail)
    if p in x.fs:
        return None

    def f(c):
        w = fresh('j', 'num', int=True, lo=Fr(0), ub=c)
        return concat(init, cmap(c, w, subst(x, {k: w})))
    return f


def shift_form(u, p, k, init):
    """u = p[1:] ++ [x(k)]"""
    if u.op == 'vec' and tm.SYM[p].get('len') is not None:
        L = len(u.args)
        if L > 1 and all(u.args[i] is index(p, num(i + 1)) for i in range(L - 1)) and p not in u.args[-1].fs:
            return _shift(u.args[-1], num(L), k, init)
    if u.op == 'concat' and len(u.args) == 2 and u.args[1].op == 'vec' and len(u.args[1].args) == 1 and u.args[0].op == 'map':
        x = u.args[1].args[0]
        L = tm.SYM[p].get('len')
        v, (b,) = tm.open_(u.args[0])
        if L is not None and p not in x.fs and b is index(p, add(v, ONE)) and u.args[0].args[0] is sub(L, ONE):
            return _shift(x, L, k, init)
    return None


def _shift(x, L, k, init):
    def f(c):
        def el(j):
            t = add(sub(c, L), j)
            return ite(tm.le(ZERO, t), subst(x, {k: t}), index(init, add(j, c)))
        return mapf(L, el)
    return f


def elementwise(u, p, q, k, init):
    """u and q arrays of the same length: solve element by element"""
    if u.op == 'vec':
        fs = []
        for i, e in enumerate(u.args):
            f = _element(e, p, index(q, num(i)), k, index(init, num(i)))
            if f is None:
                return None
            fs.append(f)
        return lambda c: vec(*[f(c) for f in fs])
    if u.op == 'map':
        nn = u.args[0]
        if p in nn.fs or k in nn.fs:
            return None
        v, (b,) = tm.open_(u)
        qe = mk('index', q, v)
        f = _element(b, p, qe, k, index(init, v))
        if f is None:
            return None

        def g(c, v=v):
            w = fresh('e', 'num', int=True, lo=Fr(0), ub=nn)
            return tm.map_(nn, w, subst(f(c), {v: w}))
        return g
    if u.op == 'ite':
        # a store under a condition: push it to the elements
        L = tm.SYM[p].get('len') if q is p else None
        L = length(q)
        if all(l is q or l.op in ('map', 'vec') for l in tm.leaves(u)):
            c = const_of(L)
            if c is not None and c <= tm.MAXVEC:
                uu = vec(*[index(u, num(i)) for i in range(int(c))])
                return elementwise(uu, p, q, k, init)
            v = fresh('e', 'num', int=True, lo=Fr(0), ub=L)
            b = index(u, v)
            f = _element(b, p, mk('index', q, v), k, index(init, v))
            if f is None:
                return None

            def g(c, v=v):
                w = fresh('e', 'num', int=True, lo=Fr(0), ub=L)
                return tm.map_(L, w, subst(f(c), {v: w}))
            return g
    return None


def _element(e, p, q, k, init):
    if e is q:
        return lambda c: init
    if not isarr(e):
        e = unify(e, q)
        if e is q:
            return lambda c: init
    # other elements of p used?
    t = tm.rewrite(e, {q: ZERO}) if not isarr(e) else e
    if isarr(e) and e.op in ('map', 'vec', 'ite'):
        r = None
        if not (e.op == 'ite' and any(l is q for l in tm.leaves(e)) and _posform(e, p, q, k)):
            r = elementwise(e, p, q, k, init)
        if r is not None:
            return r
    if not isarr(e) and p in t.fs:
        return None
    if p not in e.fs:
        return delay(init, e, k)
    return scalar_form(e, q, k, init)


def _qvars(q):
    out = set()
    while q.op == 'index':
        if q.args[1].op == 'sym':
            out.add(q.args[1])
        q = q.args[0]
    return out


def unify(e, q, qv=None):
    """under  i == v  (v an index of the element q), write v for i"""
    if qv is None:
        qv = _qvars(q)
    if e.op != 'ite' or not qv:
        return e
    c, a, b = e.args
    if c.op == 'eq0':
        for x in sorted(c.args[0].fs - qv, key=lambda t: t.id):
            m = tm.SYM[x]
            if m.get('int') and x in a.fs:
                r = linear_root(c.args[0], x)
                if r is not None and r in qv:
                    a = subst(a, {x: r})
                    break
    a2, b2 = unify(a, q, qv), unify(b, q, qv)
    if a2 is e.args[1] and b2 is e.args[2]:
        return e
    return ite(c, a2, b2)


def _posform(e, p, q, k):
    for cnd in tm.spine_conds(e):
        if cnd.op == 'eq0' and k in cnd.fs and linear_root(cnd.args[0], k) is not None:
            t, f = tm.restrict(e, cnd, True), tm.restrict(e, cnd, False)
            if f is q and p not in t.fs:
                return True
    return False


def trip(E, k):
    """smallest k with E(k), for exit conditions of the form not (k*a + b < 0)"""
    if E is TRUE:
        return ZERO
    c = E
    v = True
    if c.op == 'ite' and c.args[1] is FALSE and c.args[2] is TRUE:
        c, v = c.args[0], False
    if c.op in ('lt0', 'le0'):
        d = tm.P(c.args[0])
        a = None
        rest = {}
        for m, cf in d.items():
            if any(k in x.fs for x, e in m):
                if len(m) == 1 and m[0] == (k, 1):
                    a = cf
                else:
                    return None
            else:
                rest[m] = cf
        if a is None:
            return None
        b = tm.fromP(rest)
        # continue while  a k + b < 0  (v False) with a > 0; or exit when a k + b < 0 (v True) with a < 0
        if not v and a > 0:
            r = num(0) if False else tm.mul(b, num(-1 / a))      # k >= -b/a
            if c.op == 'le0':
                r = tm.add(tm.floor(r), ONE)
            return _nn(tm.ceil(r))
        if v and a < 0:
            r = tm.mul(b, num(-1 / a))          # k > -b/a  (lt)   k >= (le)
            return _nn(tm.add(tm.floor(r), ONE) if c.op == 'lt0' else tm.ceil(r))
    if c.op == 'eq0' and v:
        r = linear_root(c.args[0], k)
        if r is not None:
            return r
    if E.op == 'any' or True:
        return None


def _nn(t):
    lo, hi = tm.interval(t)
    return t
