"""symcel.state: what a set of modules holds between calls.

Every path and every replay starts from modules in the state they are in when
freshly loaded; what one path leaves behind (a cache, a default argument that
was written) must not reach another.
"""
import types

import numpy as np

CONT = (list, dict, set, bytearray, np.ndarray)


class State:
    def __init__(self, mods):
        self.seen, self.kept = set(), []
        self.own = set(m.__name__ for m in mods)
        for m in mods:
            self.visit(m.__dict__, 0)
        # loading is over by the time of the first comparison
        self.kept = [(v, mark(v), c) for v, _, c in self.kept]

    def mine(self, v):
        return getattr(v, "__module__", None) in self.own

    def visit(self, v, depth):
        if id(v) in self.seen or depth > 6:
            return
        if isinstance(v, CONT):
            self.seen.add(id(v))
            c = contents(v)
            self.kept.append((v, mark(v), c))
            if isinstance(v, np.ndarray):
                return
            for x in c:
                self.visit(x, depth + 1)
        elif isinstance(v, tuple):
            for x in v:
                self.visit(x, depth + 1)
        elif isinstance(v, types.FunctionType):
            if v.__module__ in self.own:
                self.seen.add(id(v))
                self.visit(v.__dict__, depth + 1)
                for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.visit(x, depth + 1)
                for cell in v.__closure__ or ():
                    try:
                        self.kept.append((cell, mark(cell), contents(cell)))
                        self.visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
        elif isinstance(v, type):
            if self.mine(v):
                self.seen.add(id(v))
                self.kept.append((v, mark(v), contents(v)))
                for x in list(vars(v).values()):
                    self.visit(x, depth + 1)
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, depth)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.visit(f, depth)
        elif hasattr(v, "cache_info") and hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.kept.append((v, mark(v), contents(v)))
        elif isinstance(v, types.ModuleType):
            return
        elif self.mine(type(v)) and hasattr(v, "__dict__"):
            self.seen.add(id(v))
            self.visit(v.__dict__, depth + 1)

    def changed(self):
        for v, ids, _ in self.kept:
            if mark(v) != ids:
                return True
        return False


def contents(v):
    """What a container refers to."""
    if isinstance(v, dict):
        return list(v.values())
    if isinstance(v, np.ndarray):
        return [np.array(v, copy=True, subok=False)]
    if isinstance(v, type):
        return list(vars(v).values())
    if isinstance(v, types.CellType):
        try:
            return [v.cell_contents]
        except ValueError:
            return []
    if hasattr(v, "cache_info"):
        return []
    return list(v)


def mark(v):
    """Equal for equal contents (by identity of the elements)."""
    if isinstance(v, dict):
        return tuple(map(id, v.values()))
    if isinstance(v, np.ndarray):
        return np.ndarray.tobytes(v)
    if isinstance(v, type):
        return tuple(map(id, vars(v).values()))
    if isinstance(v, types.CellType):
        return tuple(map(id, contents(v)))
    if hasattr(v, "cache_info"):
        return v.cache_info().currsize
    if isinstance(v, bytearray):
        return bytes(v)
    return tuple(map(id, v))
