"""Puts pypsrp's process-wide state (globals, class attributes, default arguments, caches) back to what it was after import.

Every run is to be a process of its own: what one run leaves behind in a module must not be seen by the next one, else a seed would not
say everything about an execution.  Forking for each run costs too much, so the containers are copied once and put back.
"""
from __future__ import annotations

import functools
import sys
import types
import typing as t

SKIP = {"__builtins__", "__dict__", "__weakref__", "__abstractmethods__", "__annotations__", "__doc__", "__module__", "__slots__", "__spec__", "__loader__", "__slotnames__"}


class Snapshot:
    def __init__(self, package: str) -> None:
        self.package = package
        self.seen: t.Set[int] = set()
        self.keep: t.List[t.Any] = []  # ids stay valid while the objects live
        self.boxes: t.List[t.Tuple[t.Any, t.Any]] = []
        self.classes: t.List[t.Tuple[type, t.Dict[str, t.Any]]] = []
        self.caches: t.List[t.Any] = []
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == package or name.startswith(package + ".")):
                self.visit(vars(mod), 0)

    def ours(self, x: t.Any) -> bool:
        m = getattr(x, "__module__", None)
        return isinstance(m, str) and (m == self.package or m.startswith(self.package + "."))

    def visit(self, x: t.Any, depth: int) -> None:
        if id(x) in self.seen or depth > 12:
            return
        if isinstance(x, (dict, list, set)) and type(x).__module__ in ("builtins", "collections"):
            self.mark(x)
            self.boxes.append((x, x.copy()))
            for v in list(x.values() if isinstance(x, dict) else x):
                self.visit(v, depth + 1)
        elif isinstance(x, tuple):
            self.mark(x)
            for v in x:
                self.visit(v, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            self.visit(x.__func__, depth + 1)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                self.visit(f, depth + 1)
        elif isinstance(x, functools._lru_cache_wrapper):
            if self.ours(x):
                self.mark(x)
                self.caches.append(x)
        elif isinstance(x, types.FunctionType):
            if self.ours(x):
                self.mark(x)
                self.visit(x.__defaults__, depth + 1)
                self.visit(x.__kwdefaults__, depth + 1)
                self.visit(x.__dict__, depth + 1)
                for cell in x.__closure__ or ():
                    try:
                        self.visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(x, type):
            if self.ours(x):
                self.mark(x)
                attrs = {k: v for k, v in vars(x).items() if k not in SKIP and not k.startswith("_abc_")}
                self.classes.append((x, attrs))
                for v in attrs.values():
                    self.visit(v, depth + 1)
        elif not isinstance(x, types.ModuleType) and self.ours(type(x)) and hasattr(x, "__dict__"):
            self.mark(x)
            self.visit(vars(x), depth + 1)

    def mark(self, x: t.Any) -> None:
        self.seen.add(id(x))
        self.keep.append(x)

    def restore(self) -> t.List[str]:
        """What had to be put back (for the curious)."""
        out: t.List[str] = []
        for x, saved in self.boxes:
            if isinstance(x, dict):
                if len(x) == len(saved) and all(k in x and x[k] is v for k, v in saved.items()):
                    continue
                x.clear()
                x.update(saved)
            elif isinstance(x, set):
                if x == saved:
                    continue
                x.clear()
                x.update(saved)
            else:
                if len(x) == len(saved) and all(a is b for a, b in zip(x, saved)):
                    continue
                x[:] = saved
            out.append(type(x).__name__)
        for cls, attrs in self.classes:
            now = vars(cls)
            for k in [k for k in now if k not in attrs and k not in SKIP and not k.startswith("_abc_")]:
                delattr(cls, k)
                out.append("%s.%s" % (cls.__name__, k))
            for k, v in attrs.items():
                if now.get(k) is not v:
                    setattr(cls, k, v)
                    out.append("%s.%s" % (cls.__name__, k))
        for c in self.caches:
            c.cache_clear()
        return out
