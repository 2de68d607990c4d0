"""Snapshot and restore of the module-level state of the code under test.

Every explored path (and every replay) starts from the state right after import.
"""
import sys
import types

_CONT = (dict, list, set)


class Snapshot:
    def __init__(self, prefixes):
        self.mods = [m for n, m in list(sys.modules.items())
                     if m is not None and n.split(".")[0] in prefixes]
        self.saved = []          # (container, copy)
        self.dicts = []          # (module or class, shallow dict copy)
        self.caches = []
        seen = set()
        for m in self.mods:
            self.dicts.append((m, dict(m.__dict__)))
            for v in list(m.__dict__.values()):
                self._visit(v, seen, prefixes, 0)

    def _visit(self, v, seen, prefixes, depth):
        if id(v) in seen or depth > 4:
            return
        if isinstance(v, _CONT):
            seen.add(id(v))
            self.saved.append((v, v.copy()))
            for x in (list(v.values()) if isinstance(v, dict) else list(v)):
                self._visit(x, seen, prefixes, depth + 1)
        elif isinstance(v, type):
            if (v.__module__ or "").split(".")[0] not in prefixes:
                return
            seen.add(id(v))
            self.dicts.append((v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._visit(x, seen, prefixes, depth + 1)
        elif isinstance(v, (staticmethod, classmethod)):
            self._visit(v.__func__, seen, prefixes, depth)
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or "").split(".")[0] not in prefixes:
                return
            seen.add(id(v))
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self._visit(x, seen, prefixes, depth + 1)
            for c in v.__closure__ or ():
                try:
                    self._visit(c.cell_contents, seen, prefixes, depth + 1)
                except ValueError:
                    pass
            w = getattr(v, "__wrapped__", None)
            if w is not None:
                self._visit(w, seen, prefixes, depth + 1)
            if v.__dict__:
                self._visit(v.__dict__, seen, prefixes, depth + 1)
        elif hasattr(v, "cache_clear") and callable(v.cache_clear):
            seen.add(id(v))
            self.caches.append(v)
            w = getattr(v, "__wrapped__", None)
            if w is not None:
                self._visit(w, seen, prefixes, depth + 1)

    def restore(self):
        for o, d in self.dicts:
            cur = o.__dict__
            if isinstance(o, type):
                for k in list(cur):
                    if k not in d:
                        try:
                            delattr(o, k)
                        except (AttributeError, TypeError):
                            pass
                for k, x in d.items():
                    if cur.get(k) is not x and not k.startswith("__"):
                        try:
                            setattr(o, k, x)
                        except (AttributeError, TypeError):
                            pass
            else:
                if len(cur) != len(d) or any(cur.get(k) is not x for k, x in d.items()):
                    for k in list(cur):
                        if k not in d:
                            del cur[k]
                    cur.update(d)
        for c, copy in self.saved:
            if isinstance(c, list):
                if len(c) != len(copy) or any(a is not b for a, b in zip(c, copy)):
                    c[:] = copy
            elif isinstance(c, dict):
                if len(c) != len(copy) or any(k not in c or c[k] is not x for k, x in copy.items()) \
                        or list(c) != list(copy):
                    c.clear()
                    c.update(copy)
            else:
                c.clear()
                c.update(copy)
        for f in self.caches:
            f.cache_clear()
