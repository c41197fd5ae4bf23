"""run with the interpreter of the library: which dotted names exist in the installed libraries, and which calls bind to their signatures.

stdin: {"names": [dotted, ...], "calls": [[dotted, positional, [keyword, ...]], ...]}; stdout: {"missing": {dotted: why}, "calls": {index: why}}
Nothing of the analysed repository is imported or run; names whose library is not installed are left out."""
import importlib
import inspect
import json
import sys
import types


def walk(d):
    p = d.split('.')
    try:
        v = importlib.import_module(p[0])
    except Exception:                           # noqa: BLE001
        return None, None
    for i, a in enumerate(p[1:], 1):
        if not isinstance(v, (types.ModuleType, type)):
            return None, None
        if not hasattr(v, a):
            if isinstance(v, types.ModuleType):
                try:
                    v = importlib.import_module('.'.join(p[:i + 1]))
                    continue
                except Exception:               # noqa: BLE001
                    pass
            return None, '%s has no %s' % ('.'.join(p[:i]), a)
        v = getattr(v, a)
    return v, None


def main():
    q = json.load(sys.stdin)
    missing, calls = {}, {}
    for d in q['names']:
        _, why = walk(d)
        if why:
            missing[d] = why
    for i, (d, n, kws) in enumerate(q['calls']):
        f, why = walk(d)
        if f is None or why or not callable(f):
            continue
        try:
            s = inspect.signature(f)
        except (TypeError, ValueError):
            continue
        try:
            s.bind(*[None] * n, **dict.fromkeys(kws))
        except TypeError as e:
            calls[str(i)] = '%s: %s' % (d, e)
    json.dump({'missing': missing, 'calls': calls}, sys.stdout)


main()
