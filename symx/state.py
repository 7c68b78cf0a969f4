"""Snapshot and restore of the mutable module-level state of the code under test, so that every explored
path starts from the state right after import."""
import sys
import types

PREFIX = "aas_test_engines"


def _copy(x, memo, depth=5):
    t = type(x)
    if depth and (t in (list, set) or t is dict):
        if t is list:
            return [_copy(i, memo, depth - 1) for i in x]
        if t is set:
            return set(x)
        return {k: _copy(v, memo, depth - 1) for k, v in x.items()}
    return x


def _is_ours(o):
    return getattr(type(o), "__module__", "").startswith(PREFIX)


class Snapshot:
    def __init__(self):
        self.mods = {}
        self.conts = []       # (container, copy)
        self.objs = []        # (obj, dict copy)
        self.classes = []
        self.funcs = []
        self.caches = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] != PREFIX or m is None:
                continue
            self.mods[name] = dict(m.__dict__)
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                self._scan(v, seen, name, 4)

    def _scan(self, v, seen, mod, depth):
        if id(v) in seen or depth == 0:
            return
        if isinstance(v, (list, dict, set)):
            seen.add(id(v))
            self.conts.append((v, list(v) if isinstance(v, (list, set)) else list(v.items())))
            it = v.values() if isinstance(v, dict) else v
            for i in list(it):
                self._scan(i, seen, mod, depth - 1)
        elif isinstance(v, tuple):
            for i in v:
                self._scan(i, seen, mod, depth - 1)
        elif isinstance(v, type):
            if v.__module__.split(".")[0] != PREFIX:
                return
            seen.add(id(v))
            self.classes.append((v, dict(v.__dict__)))
            for k, i in list(v.__dict__.items()):
                if k in ("__dict__", "__weakref__", "__doc__", "__module__", "_member_map_", "_value2member_map_"):
                    continue
                if k.startswith("__dataclass") or k in ("__annotations__", "__mro__"):
                    continue
                self._scan(i, seen, mod, depth - 1)
        elif isinstance(v, types.FunctionType):
            if not (v.__module__ or "").startswith(PREFIX):
                return
            seen.add(id(v))
            for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                self._scan(d, seen, mod, depth - 1)
            for c in v.__closure__ or ():
                try:
                    self._scan(c.cell_contents, seen, mod, depth - 1)
                except ValueError:
                    pass
            if v.__dict__:
                self.objs.append((v, dict(v.__dict__)))
                for i in v.__dict__.values():
                    self._scan(i, seen, mod, depth - 1)
        elif isinstance(v, (staticmethod, classmethod)):
            self._scan(v.__func__, seen, mod, depth)
        elif hasattr(v, "cache_clear") and callable(v.cache_clear):
            seen.add(id(v))
            self.caches.append(v)
        elif _is_ours(v) and hasattr(v, "__dict__"):
            seen.add(id(v))
            self.objs.append((v, dict(v.__dict__)))
            for i in list(v.__dict__.values()):
                self._scan(i, seen, mod, depth - 1)

    def restore(self):
        for name, d in self.mods.items():
            m = sys.modules.get(name)
            if m is None:
                continue
            md = m.__dict__
            if len(md) != len(d) or any(md.get(k) is not v for k, v in d.items()):
                md.clear()
                md.update(d)
        for c, cp in self.conts:
            if isinstance(c, list):
                if len(c) != len(cp) or any(a is not b for a, b in zip(c, cp)):
                    c[:] = cp
            elif isinstance(c, set):
                if len(c) != len(cp) or getattr(c, "_sym", None):
                    c.clear()
                    c.update(cp)
            else:
                if len(c) != len(cp) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(c.items(), cp)):
                    c.clear()
                    for k, v in cp:
                        c[k] = v
        for o, d in self.objs:
            od = o.__dict__
            if len(od) != len(d) or any(od.get(k) is not v for k, v in d.items()):
                od.clear()
                od.update(d)
        for c, d in self.classes:
            cd = c.__dict__
            if len(cd) != len(d) or any(cd.get(k) is not v for k, v in d.items()):
                for k in list(cd):
                    if k not in d:
                        try:
                            delattr(c, k)
                        except Exception:
                            pass
                for k, v in d.items():
                    if cd.get(k) is not v:
                        try:
                            setattr(c, k, v)
                        except Exception:
                            pass
        for f in self.caches:
            f.cache_clear()
