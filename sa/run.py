"""Evaluate one function of a source tree under one abstract configuration."""
import os
import signal
import sys
import time
from . import engine                                    # noqa: F401
from . import terms as tm
from . import interp as ip
from .terms import sym, mk, ite, band, TRUE, FALSE, NONE, UNDEF, EMPTY

REPO = os.environ.get('SHIPGRAV_REPO', '/repo')
PKG = os.path.join(REPO, 'shipgrav')
sys.setrecursionlimit(20000)


def package_files(root=None):
    root = root or PKG
    out = {}
    for f in sorted(os.listdir(root)):
        if f.endswith('.py'):
            out[f[:-3]] = os.path.join(root, f)
    return out


class Timeout(Exception):
    pass


class Outcome:
    """value graph of a call: result, exceptions, effects and final contents of the arguments"""

    def __init__(self):
        self.value = None          # term (UNDEF when no path returns)
        self.defined = FALSE       # condition under which the call returns
        self.raises = []           # (condition, name)
        self.effects = EMPTY
        self.args = {}             # name -> final content term
        self.events = []
        self.undecided = []
        self.analysed = set()
        self.prov = {}
        self.error = None
        self.extra = {}


def limited(seconds, f):
    """run f, giving up after a number of seconds"""
    def onalarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def evaluate(files, mod, fname, make_args, mask=None, setup=None, seconds=120, prov=None, after=None):
    """files: {module: path}; make_args(I) -> (args, kw, {name: value whose final content matters})"""
    out = Outcome()
    I = ip.Interp(files, mask=mask)
    if prov is not None:
        I.prov = prov

    def go():
        f = I.public(mod, fname)
        if setup:
            setup(I)
        args, kw, watch = make_args(I)
        pc0 = I.st.pc
        del I.handlers[0][:]
        try:
            v = I.call(f, args, kw)
            if I.st is None:
                raise ip.Dead()
            out.value = I.freeze(v)
            out.rawvalue = v
            out.defined = I.st.pc
            out.args = {k: I.freeze(x) for k, x in watch.items()}
            e = I.st.heap.get(0)
            if e is not None:
                out.effects = I.freeze_obj(e)
            if after:
                out.extra = after(I, v, watch)
        except ip.Dead:
            out.value = UNDEF
            out.defined = FALSE
        for st, name, _ in I.handlers[0]:
            out.raises.append((st.pc, name))
    try:
        limited(seconds, go)
    except ip.AnchorMissing:
        raise
    except Timeout:
        out.error = 'time limit of %d s reached' % seconds
    except RecursionError:
        out.error = 'recursion limit of the analyser reached'
    except tm.Overflow as e:
        out.error = 'value graph too large (%s)' % e
    except ip.Unsupported as e:
        out.error = 'unsupported construct: %s' % e
    except Exception as e:                      # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out.error = 'analyser error %s: %s (%s:%d) at line %s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, I.line)
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    out.events = I.events
    out.undecided = I.undecided
    out.analysed = I.analysed
    out.prov = I.prov
    out.I = I
    return out


def arr(I, name, n=None, rank=1, root=True, elem='num', **meta):
    t = sym(name, 'arr', rank=rank, elem=elem, **dict(meta, **({'len': n} if n is not None else {})))
    return I.alloc('arr', t, roots={name} if root else ())
