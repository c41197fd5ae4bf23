"""Obligations, verdicts, reports and evidence."""
import json
import os
import warnings
import re
import sys
import time
import traceback
from . import run, terms as tm, interp as ip, compare as cm, model
from .terms import sym, show, FALSE, TRUE, UNDEF, NONE, band, bor, bnot

warnings.simplefilter('ignore', SyntaxWarning)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
TIER = os.environ.get('VERIF_TIER', 'quick')
CONFIGS = []        # the configurations of the public functions that are compared with a reference
PROPS = {}          # id -> list of (label, function)


class Verdict:
    """outcome of one obligation"""

    def __init__(self, status, what='', where=None, key='', detail=None):
        self.status = status          # holds | violated | known | undecided
        self.what, self.where, self.key, self.detail = what, where, key, detail or {}


def holds(what='', **d):
    return Verdict('holds', what, detail=d)


def undecided(what, where=None, **d):
    return Verdict('undecided', what, where, detail=d)


def violated(what, where=None, key='', **d):
    return Verdict('violated', what, where, key, d)


def obligation(prop, label, thorough=False):
    def deco(f):
        PROPS.setdefault(prop, []).append((label, f, thorough))
        return f
    return deco


# --------------------------------------------------------------------------
_files = {}


def repo_files():
    if 'repo' not in _files:
        _files['repo'] = run.package_files()
    return _files['repo']


def spec_files():
    if 'spec' not in _files:
        _files['spec'] = run.package_files(SPEC)
    return _files['spec']


def code(mod, fname, make, **kw):
    return run.evaluate(repo_files(), mod, fname, make, **kw)


def spec(mod, fname, make, **kw):
    return run.evaluate(spec_files(), mod, fname, make, **kw)


def rel(where):
    if not where:
        return ''
    f, l = where
    f = os.path.relpath(f, run.REPO) if f and os.path.isabs(str(f)) else str(f)
    return '%s:%s' % (f, l)


def locate(a, specterms, prov, default=None):
    """source line of the smallest construct that computes the differing value"""
    q = [a]
    seen = set()
    hit = None
    while q:
        nq = []
        for x in q:
            if x in seen:
                continue
            seen.add(x)
            w = prov.get(x)
            if w and str(w[0]).startswith(run.REPO) and x.op not in ('num', 'sym', 'bool', 'str', 'none', 'pi'):
                return w
            if w and hit is None and str(w[0]).startswith(run.REPO):
                hit = w
            nq.extend(tm.kids(x))
        q = nq
        if len(seen) > 20000:
            break
    return hit or default


def funcline(mod, fname):
    import ast
    p = repo_files().get(mod)
    try:
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == fname.split('.')[-1]:
                return (p, n.lineno)
    except Exception:                       # noqa: BLE001
        pass
    return (p, 1)


def decide(C, out, ref, part=lambda o: o.value, where=None, what='', known=(), models=None, admit=None):
    """compare one part of the outcome of the code with the reference"""
    if out.error:
        return undecided('%s: %s' % (what, out.error), where)
    if ref.error:
        return undecided('%s: reference: %s' % (what, ref.error), where)
    a, b = part(out), part(ref)
    if a is None or b is None:
        return undecided('%s: no value' % what, where)

    def cmp(a, b):
        """where the reference returns at all, when the values may differ elsewhere"""
        r = C.cmp(a, b)
        d = ref.defined
        if r.v != cm.EQ and d is not None and d.op not in ('bool', 'unk') and not cm.has_unk(d) and a.op != 'unk':
            q = C.cmp(a, b, conjuncts(d))
            if q.v != cm.EQ:
                w = C.cmp(tm.ite(d, a, tm.UNDEF), tm.ite(d, b, tm.UNDEF))
                if w.v == cm.EQ:
                    return w
            if q.v == cm.EQ or r.v == cm.DIFF:
                return q
        return r
    r = cmp(a, b)
    if r.v == cm.EQ:
        rej = rejected(C, out, ref)
        if rej:
            return violated('%s: %s is raised where the reference returns a value' % (what, rej[0]), where, when=show(rej[1], 5)[:600])
        return holds(what)
    for key, alt in known:
        v = part(alt) if not alt.error else None
        if v is not None:
            q = cmp(a, v)
            if os.environ.get('SA_DEBUG'):
                print('  alternative %s: %s %s' % (key, q.v, unkdetail(q)))
            if q.v == cm.EQ:
                return Verdict('known', what, where, key)
    if r.v == cm.UNK:
        if models:
            a, b = models(out), models(ref)
            m = model.refute(a, b, tries=400 if TIER == 'thorough' else 120, admit=admit)
            if m:
                return violated('%s %s: %s instead of %s in a model with a few lines (no. %d)' % (what, m[0], m[1], m[2], m[3]), where,
                                got=show(a, 5)[:600], want=show(b, 5)[:600])
        m = instance(a, b)
        if m:
            return violated('%s %s: %s instead of %s' % (what, m[0], m[1], m[2]), where, got=m[3], want=m[4])
        return undecided('%s: %s' % (what, unkdetail(r)), where, undec=out.undecided[:8])
    w = locate(r.a, None, out.prov, where)
    return violated('%s%s: %s' % (what, ' ' + r.path if r.path else '', r.note), w,
                    got=show(r.a, 6)[:600], want=show(r.b, 6)[:600])


def instance(a, b):
    """where records with particular digits tell the graphs apart"""
    from . import strings as st
    for f in st.instances((a, b)):
        try:
            x, y = f(a), f(b)
        except RecursionError:
            return None
        if st.undefs(y) and y is tm.UNDEF:
            continue
        r = cm.Comparer().cmp(x, y)
        if os.environ.get('SA_DEBUG'):
            print('  digits no. %d: %s %s' % (f.seed, r.v, unkdetail(r)[:200]))
        if r.v == cm.DIFF:
            return r.path, '%s (digits no. %d)' % (r.note or show(r.a, 4)[:80], f.seed), show(r.b, 4)[:80], show(x, 5)[:600], show(y, 5)[:600]
    return None


def rejected(C, out, ref):
    """an exception of the code under a condition under which the reference returns"""
    for cond, name in out.raises:
        d = ref.defined
        if d is None or cm.has_unk(cond) or cm.has_unk(d):
            continue
        both = tm.band(d, cond)
        if both is tm.FALSE:
            continue
        if os.environ.get('SA_DEBUG'):
            print('  raises %s when %s' % (name, show(both, 5)[:300]))
        if C.cmp(both, tm.FALSE, ()).v == cm.DIFF:
            return name, both
    return None


def conjuncts(d):
    """the conditions a conjunction consists of, as decisions of a path"""
    out = ()
    while d.op == 'ite' and len(out) < 12:
        c, x, y = d.args
        if x is tm.FALSE:
            out, d = out + ((c, False),), y
        elif y is tm.FALSE:
            out, d = out + ((c, True),), x
        else:
            break
    return out


def unkdetail(r):
    return '%s %s (%s | %s)' % (r.path, r.note, show(r.a, 3)[:200] if r.a is not None else '', show(r.b, 3)[:200] if r.b is not None else '')


def ref(prop, label, mod, fname, make, spec_fn=None, part=lambda o: o.value, thorough=False, seconds=150, known=(), specmake=None,
        specmod=None, after=None, setup=None, mask=None):
    """obligation: the value of a public function equals its reference for every input of the configuration"""
    def check():
        C = cm.Comparer(tries=3000 if TIER == 'thorough' else 600, want=200 if TIER == 'thorough' else 40)
        o = code(mod, fname, make, seconds=seconds, after=after, setup=setup, mask=mask)
        sm, sf = (specmod or mod), (spec_fn or fname)
        s = spec(sm, sf, specmake or make, seconds=seconds, after=after, setup=setup, mask=mask)
        alts = [(k, spec(sm, f, specmake or make, seconds=seconds)) for k, f in known] if known else []
        v = decide(C, o, s, part, funcline(mod, fname), '%s.%s' % (mod, fname), alts)
        v.detail.setdefault('pairs', C.pairs)
        v.detail['numeric'] = C.numeric
        v.detail['analysed'] = sorted('%s' % (x,) for x in o.analysed)
        v.detail['raises'] = sorted({n for _, n in o.raises})
        return v
    check.__name__ = label
    PROPS.setdefault(prop, []).append((label, check, thorough))
    CONFIGS.append((prop, label, mod, fname, make))
    return check


# --------------------------------------------------------------------------
def load_known():
    """{property: {key}} of the recorded findings"""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def isolated(f, seconds):
    """run one obligation in its own process: a clean term table, bounded time and memory"""
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    a, b = ctx.Pipe(False)

    def go():
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            vs = f()
            if isinstance(vs, Verdict):
                vs = [vs]
            b.send(('ok', [(v.status, v.what, v.where, v.key, clean(v.detail)) for v in vs]))
        except ip.AnchorMissing as e:
            b.send(('anchor', str(e)))
        except MemoryError:
            b.send(('err', 'out of memory'))
        except BaseException as e:                  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            b.send(('err', '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)))
        os._exit(0)
    p = ctx.Process(target=go)
    p.start()
    b.close()
    return p, a, time.time() + seconds


def clean(d):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None))) else [str(x) for x in v] if isinstance(v, (list, tuple, set)) else str(v))
            for k, v in d.items()}


def run_all(obs, jobs=6, seconds=240, budget=None):
    """[(label, result)] in order; what has not been looked at when the budget (seconds) is used up stays undecided"""
    from multiprocessing.connection import wait
    res = [None] * len(obs)
    todo = list(range(len(obs)))
    live = {}
    end = None if budget is None else time.time() + budget
    while todo or live:
        if end is not None and time.time() > end:
            for i, p, t in live.values():
                p.kill()
                p.join()
                todo.append(i)
            for i in todo:
                res[i] = ('err', 'time limit of %d s for the whole property' % budget)
            break
        while todo and len(live) < jobs:
            i = todo.pop(0)
            p, c, t = isolated(obs[i][1], seconds)
            live[c] = (i, p, t)
        ready = wait(list(live), timeout=0.5)
        now = time.time()
        for c in list(live):
            i, p, t = live[c]
            if c in ready:
                try:
                    res[i] = c.recv()
                except EOFError:
                    res[i] = ('err', 'the analysis process ended early')
                p.join()
                del live[c]
            elif now > t:
                p.kill()
                p.join()
                res[i] = ('err', 'time limit of %d s' % seconds)
                del live[c]
    return res


def main(argv):
    from . import checks                      # noqa: F401  (registers the obligations)
    props = [a for a in argv if not a.startswith('-')]
    global TIER
    if '--thorough' in argv:
        TIER = 'thorough'
    verbose = '-v' in argv
    only = [a[2:] for a in argv if a.startswith('-k')]
    rc = 0
    for p in props:
        rc = max(rc, check_property(p, verbose, only))
    return rc


def check_property(prop, verbose=False, only=()):
    t0 = time.time()
    obs = [(l, f) for l, f, th in PROPS[prop] if (TIER == 'thorough' or not th) and (not only or any(o in l for o in only))]
    res = run_all(obs, seconds=240 if TIER == 'quick' else 800, budget=700 if TIER == 'quick' else None)
    known = load_known().get(prop, {})
    viol, undec, kn, anch = [], [], [], []
    n = {'obligations': 0, 'holds': 0}
    pairs = numeric = 0
    analysed = set()
    samples = []
    for (label, _), (st, r) in zip(obs, res):
        if st == 'anchor':
            anch.append((label, r))
            continue
        if st == 'err':
            n['obligations'] += 1
            undec.append((label, r, None))
            continue
        for status, what, where, key, d in r:
            n['obligations'] += 1
            try:
                pairs += int(d.get('pairs', 0))
                numeric += int(d.get('numeric', 0))
            except Exception:                       # noqa: BLE001
                pass
            analysed |= set(d.get('analysed', []) or [])
            if status == 'holds':
                n['holds'] += 1
                if len(samples) < 12:
                    samples.append('%s: %s' % (label, what))
            elif status == 'undecided':
                undec.append((label, what, where))
            elif status == 'known' or (status == 'violated' and key and key in known):
                if key in known:
                    kn.append((key, known[key], where))
                else:
                    viol.append((label, what, where, d))
            else:
                viol.append((label, what, where, d))
            if verbose:
                print('  %-10s %-40s %s %s' % (status, label, rel(where) if status != 'holds' else '', what if status != 'holds' else ''))
                if status == 'violated' or os.environ.get('SA_DEBUG'):
                    for k in ('got', 'want'):
                        if k in d:
                            print('      %s: %s' % (k, d[k]))
    for label, r in anch:
        print('ANALYSIS-BROKEN: property=%s %s: anchor missing: %s' % (prop, label, r))
    for label, what, where in undec:
        print('UNDECIDED: property=%s %s: %s %s' % (prop, label, what, rel(where)))
    for key, text, where in sorted(set(kn)):
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, text, key, rel(where)))
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rp = os.path.join(evdir, '%s.violations.txt' % prop)
    if viol:
        with open(rp, 'w') as f:
            for label, what, where, d in viol:
                f.write('%s: %s\n  rule: %s\n' % (rel(where), what, label))
                for k in ('got', 'want', 'path'):
                    if k in d:
                        f.write('  %s: %s\n' % (k, d[k]))
                f.write('\n')
        for label, what, where, d in viol:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  %s: %s [%s]' % (rel(where), what, label))
    elif os.path.exists(rp):
        os.remove(rp)
    level = 'other'
    ev = {'property': prop, 'tier': TIER, 'seed': cm.SEED, 'level': level,
          'coverage': {
              'explanation': 'Source of %s analysed by abstract interpretation into normalised value graphs; each obligation is decided on the '
                             'graph (see DESIGN.md); an undecided obligation is not reported as a violation.' % run.PKG,
              'obligations': n['obligations'], 'discharged': n['holds'], 'undecided': len(undec),
              'undecided_list': ['%s: %s' % (a, str(b)[:200]) for a, b, _ in undec][:40],
              'functions_analysed': sorted(analysed), 'graph_pairs_compared': pairs, 'numeric_identities_tested': numeric,
              'samples': samples},
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(evdir, '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1f s)' %
          (prop, n['obligations'], n['holds'], len(undec), len(set(kn)), len(viol), time.time() - t0))
    if viol:
        return 1
    if anch:
        return 2
    if n['obligations'] == 0:
        print('ANALYSIS-BROKEN: property=%s no obligation was examined' % prop)
        return 2
    return 0


ASSUME = ['numpy, scipy, pandas, statsmodels and the standard library behave as the models in sa/lib*.py say',
          'arithmetic is over the reals (round-off is not modelled)',
          'arguments have the documented kinds (arrays of matching lengths, strings, file paths)']
