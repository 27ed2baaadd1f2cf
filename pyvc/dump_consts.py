"""Runs under the project's interpreter: prints the values of module and class
level constants of the imported nxt modules as JSON (the real values)."""
import importlib
import json
import sys

MODS = sys.argv[1:]


class Skip(Exception):
    pass


def enc(v, depth=0):
    if depth > 4:
        raise Skip()
    if v is None or isinstance(v, (bool, int, str)):
        return {'c': v}
    if isinstance(v, float):
        return {'f': repr(v)}
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return {'nt': [list(v._fields), [enc(x, depth + 1) for x in v]]}
    if isinstance(v, tuple):
        return {'t': [enc(x, depth + 1) for x in v]}
    if isinstance(v, list):
        return {'l': [enc(x, depth + 1) for x in v]}
    raise Skip()


out = {}
for m in MODS:
    full = 'nxt.' + m if m else 'nxt'
    try:
        mod = importlib.import_module(full)
    except Exception as e:
        sys.stderr.write('%s: %r\n' % (full, e))
        continue
    d = out.setdefault(m, {})
    for k, v in list(vars(mod).items()):
        if k.startswith('__'):
            continue
        try:
            d[k] = enc(v)
        except Skip:
            pass
        if isinstance(v, type) and getattr(v, '__module__', '') == full:
            cd = out.setdefault((m + '.' if m else '.') + k, {})
            for a in dir(v):
                if a.startswith('__'):
                    continue
                try:
                    cd[a] = enc(getattr(v, a))
                except Skip:
                    pass
                except Exception:
                    pass
json.dump(out, sys.stdout)
