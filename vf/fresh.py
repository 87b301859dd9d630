"""Every run of a harness starts from the state the package has just after its import.

Module globals, default arguments, class and function attributes and result caches are put back, so that no run
depends on what an earlier run in the same process left behind (a fresh process per run would do the same).
"""
import copy
import sys
import types

PKG = 'esp_idf_size'
SNAP = {}


def _slots(m):
    """(container of values, kind) of everything in module m that can keep state."""
    seen = []

    def scan(ns):
        for k, v in list(ns.items()):
            if k.startswith('__'):
                continue
            if isinstance(v, (classmethod, staticmethod)):
                v = v.__func__
            if isinstance(v, (dict, list, set)):
                seen.append(v)
            elif hasattr(v, 'cache_clear') and getattr(v, '__module__', None) == m.__name__:
                seen.append(v)
                if hasattr(v, '__wrapped__'):
                    func(v.__wrapped__)
            elif isinstance(v, types.FunctionType) and v.__module__ == m.__name__:
                func(v)
            elif isinstance(v, type) and v.__module__ == m.__name__:
                scan(vars(v))

    def func(f):
        for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
            if isinstance(d, (dict, list, set)):
                seen.append(d)
        if not isinstance(f.__dict__, types.MappingProxyType):
            seen.append(f.__dict__)
    scan(vars(m))
    return seen


def note():
    """Remember the state of the modules imported since the last call."""
    for n, m in list(sys.modules.items()):
        if (n == PKG or n.startswith(PKG + '.')) and id(m) not in SNAP and isinstance(m, types.ModuleType):
            keep = []
            for x in _slots(m):
                try:
                    keep.append((x, None if hasattr(x, 'cache_clear') else copy.deepcopy(x)))
                except Exception:
                    pass
            classes = [(c, dict(vars(c))) for c in vars(m).values() if isinstance(c, type) and c.__module__ == n]
            SNAP[id(m)] = (m, dict(vars(m)), classes, keep)


def restore():
    for m, ns, classes, keep in SNAP.values():
        cur = vars(m)
        for k in [k for k, v in cur.items() if k not in ns and not isinstance(v, types.ModuleType) and not k.startswith('__')]:
            del cur[k]
        for k, v in ns.items():
            if cur.get(k, SNAP) is not v:
                cur[k] = v
        for c, attrs in classes:
            for k in [k for k in vars(c) if k not in attrs and not k.startswith('__')]:
                delattr(c, k)
            for k, v in attrs.items():
                if not k.startswith('__') and vars(c).get(k, SNAP) is not v:
                    setattr(c, k, v)
        for x, was in keep:
            if was is None:
                x.cache_clear()
            elif isinstance(x, list):
                x[:] = copy.deepcopy(was)
            elif len(x) or len(was):
                x.clear()
                x.update(copy.deepcopy(was))
