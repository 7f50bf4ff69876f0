"""symcel.loader: load celest's source from /repo so that it can run over
symbolic values.

The source files are read afresh in every process.  Each is parsed, a few
constructs Python does not let an object overload are rewritten to calls of
helpers (`a % b` and f-strings for symbolic strings, `and`/`or`/`not` are left
alone: truth values fork), and the module is executed with `numpy`, `math`,
`random` and a few builtins replaced by symbolic counterparts.
"""

import warnings
warnings.filterwarnings('ignore')
import ast
import builtins
import math as real_math
import os
import sys
import types
from fractions import Fraction
import numpy as real_np
from symcel import core, dates, nps, strs
from symcel.core import Sym, SymBool, SymError

REPO = os.environ.get("CELEST_REPO", "/repo")


# ---- builtins --------------------------------------------------------------

class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return (cls.__symcel_kind__ == "f") == (not x.isint)
        if isinstance(x, SymBool):
            return cls.__symcel_kind__ in ("b", "i")
        return isinstance(x, cls.__symcel_real__)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "__symcel_real__", c), cls.__symcel_real__)

    def __eq__(cls, o):
        return o is cls or o is cls.__symcel_real__

    def __hash__(cls):
        return hash(cls.__symcel_real__)

    def __getattr__(cls, n):
        return getattr(cls.__symcel_real__, n)

    def __call__(cls, x=0, *a):
        x = nps.unwrap(x)
        if isinstance(x, nps.SArr):
            x = x.reshape((-1,))[0] if x.size == 1 else x
        if isinstance(x, (Sym, SymBool)):
            return nps.cast_elem(x, cls.__symcel_kind__)
        if isinstance(x, strs.SymStr):
            return cls.__symcel_kind__ == "f" and _parse(x) or core.trunc(_parse(x))
        return cls.__symcel_real__(x, *a)


def _parse(s):
    """Number denoted by a SymStr of digits, sign and one point."""
    v = 0
    scale = None
    sign = 1
    for p in s.pieces:
        if isinstance(p, str):
            for ch in p.strip():
                if ch == "-":
                    sign = -1
                elif ch == "+":
                    pass
                elif ch == ".":
                    scale = 0
                elif ch.isdigit():
                    v = v * 10 + int(ch)
                    if scale is not None:
                        scale += 1
                else:
                    raise ValueError("could not convert string to float")
        else:
            v = v * 10 ** len(p) + p.value()
            if scale is not None:
                scale += len(p)
    v = v * sign
    return v * Fraction(1, 10 ** scale) if scale else v


s_float = _NumMeta("float", (), {"__symcel_kind__": "f", "__symcel_real__": float})
s_int = _NumMeta("int", (), {"__symcel_kind__": "i", "__symcel_real__": int})


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, strs.SymStr))

    def __call__(cls, x="", *a):
        if isinstance(x, (Sym, strs.SymStr, SymBool)):
            return strs.sym_str(x)
        if strs.SYMSTR[0] and not a and not isinstance(x, (str, int, float, real_np.ndarray)):
            return strs.text(x)
        f = type(x).__dict__.get("__str__") if hasattr(type(x), "__dict__") else None
        if f is not None and isinstance(f, types.FunctionType):
            r = f(x)
            return r
        r = _user_str(x)
        return str(x, *a) if r is None else r

    def __getattr__(cls, n):
        return getattr(str, n)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


def _user_str(x):
    for c in type(x).__mro__:
        f = c.__dict__.get("__str__")
        if f is not None:
            return f(x) if isinstance(f, types.FunctionType) else None
    return None


s_str = _StrMeta("str", (), {})


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, y) for y in t)
    if isinstance(x, Sym):
        if t is s_float or t is float or t is nps.NP.float64:
            return not x.isint
        if t is s_int or t is int:
            return x.isint
        import numbers
        if t in (numbers.Number, numbers.Real):
            return True
        if t is object:
            return True
        if t in (real_np.floating, real_np.number, real_np.generic):
            return False
        return isinstance(x, t) if t is Sym else False
    if isinstance(x, SymBool):
        return t in (bool, s_int, int, real_np.bool_, object)
    if t is str and isinstance(x, strs.SymStr):
        return True
    if t is list and isinstance(x, strs.StrArr):
        return False
    if t is real_np.ndarray and isinstance(x, (nps.SArr, strs.StrArr)):
        return True
    return isinstance(x, t)


def s_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def s_any(xs):
    for x in xs:
        if bool(x):
            return True
    return False


def s_all(xs):
    for x in xs:
        if not bool(x):
            return False
    return True


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def s_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Sym):
            return s_int if x.isint else s_float
        if isinstance(x, strs.SymStr):
            return s_str
        if isinstance(x, nps.SArr):
            return real_np.ndarray
    return type(*a)


def s_repr(x):
    return strs.text(x, "__repr__") if strs.SYMSTR[0] else repr(x)


def s_format(v, spec=""):
    return strs.fmt(v, spec)


def s_len(x):
    return len(x)


def s_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


# ---- math, random ----------------------------------------------------------

def _math():
    m = types.ModuleType("math")
    for n in dir(real_math):
        if not n.startswith("__"):
            setattr(m, n, getattr(real_math, n))

    def dom(f, real):
        def g(x):
            x = nps.unwrap(x)
            if isinstance(x, nps.SArr):
                x = x.reshape((-1,))[0]
            if isinstance(x, SymBool):
                x = int(x)
            if not isinstance(x, Sym):
                return real(x)
            r = f(x)
            if isinstance(r, float) and r != r:
                raise ValueError("math domain error")
            return r
        return g

    for n, f in (("sin", core.sin), ("cos", core.cos), ("asin", core.asin),
                 ("acos", core.acos), ("atan", core.atan), ("sqrt", core.sqrt),
                 ("exp", core.exp), ("floor", core.floor), ("trunc", core.trunc),
                 ("fabs", abs)):
        setattr(m, n, dom(f, getattr(real_math, n)))
    m.tan = dom(lambda x: core.tan(x, False), real_math.tan)
    m.ceil = dom(lambda x: -core.floor(-x), real_math.ceil)
    m.radians = dom(lambda x: x * nps._radc(), real_math.radians)
    m.degrees = dom(lambda x: x * nps._degc(), real_math.degrees)
    m.log = lambda x, *b: (nps.k_log(x) / (real_math.log(b[0]) if b else 1)
                           if isinstance(x, Sym) else real_math.log(x, *b))

    def two(f, real):
        def g(a, b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return f(a, b)
            return real(a, b)
        return g
    m.atan2 = two(core.atan2, real_math.atan2)
    m.fmod = two(nps.k_fmod, real_math.fmod)
    m.remainder = two(lambda a, b: a - b * core.round_half_even(core.lift(a) / b), real_math.remainder)
    m.pow = two(lambda a, b: a ** b, real_math.pow)
    m.copysign = two(lambda a, b: abs(a) if b >= 0 else -abs(a), real_math.copysign)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        abs(a - b) <= nps.k_max(rel_tol * nps.k_max(abs(a), abs(b)), abs_tol))
    m.hypot = lambda *a: core.hypot(*a) if any(isinstance(x, Sym) for x in a) else real_math.hypot(*a)
    m.isnan = lambda x: False if isinstance(x, Sym) else real_math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, Sym) else real_math.isinf(x)
    m.isfinite = lambda x: True if isinstance(x, Sym) else real_math.isfinite(x)
    m.fsum = s_sum

    def modf(x):
        if not isinstance(x, Sym):
            return real_math.modf(x)
        i = core.trunc(x)
        return x - i, nps.cast_elem(i, "f")
    m.modf = modf
    m.dist = lambda p, q: core.hypot(*[a - b for a, b in zip(p, q)])
    return m


class RandomStub(types.ModuleType):
    """Nondeterministic `random`: every value in range is explored."""

    def __init__(self, env):
        super().__init__("random")
        self._env = env

    def _pick(self, n):
        return self._env.choice("rnd", n)

    def random(self):
        return self._env.unit("rnd")

    def uniform(self, a, b):
        return a + (b - a) * self._env.unit("rnd")

    def choice(self, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._pick(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        if weights is not None:
            self._env.weights(weights)
        return [population[self._pick(len(population))] for _ in range(k)]

    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        if not len(r):
            raise ValueError("empty range for randrange()")
        return r[self._pick(len(r))]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def sample(self, population, k, **kw):
        pop = list(population)
        if not 0 <= k <= len(pop):
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pop.pop(self._pick(len(pop))))
        return out

    def shuffle(self, x):
        pop = list(x)
        for i in range(len(x)):
            x[i] = pop.pop(self._pick(len(pop)))

    def seed(self, *a, **k):
        pass


# ---- AST -------------------------------------------------------------------

class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.nloops = 0

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in ("data", "dtype"):
            return ast.copy_location(ast.Call(
                ast.Name("__sc_%s__" % node.attr, ast.Load()), [node.value], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                ast.Name("__sc_mod__", ast.Load()), [node.left, node.right], []), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Call(ast.Name("__sc_fmt__", ast.Load()),
                                      [v.value, spec, ast.Constant(v.conversion)], []))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(
            ast.Name("__sc_fstr__", ast.Load()), parts, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("join", "format") and not node.keywords:
            return ast.copy_location(ast.Call(
                ast.Name("__sc_%s__" % f.attr, ast.Load()), [f.value] + node.args, []), node)
        return node

    def visit_While(self, node):
        """Loop abstraction: see Loop below."""
        self.generic_visit(node)
        return self._loop(node, _assigned(node.body), [node.test] + node.body)

    def visit_For(self, node):
        self.generic_visit(node)
        if not _breaks(node.body):
            return node
        names = _assigned(node.body)
        head = _assigned([node])
        r = self._loop(node, names, [ast.Assign([node.target], ast.Constant(0))] + node.body,
                       [n for n in head if n not in names and n in _targets(node.target)])
        if r is not node:
            tag = r[0].targets[0].id
            node.iter = ast.copy_location(ast.Call(ast.Attribute(
                ast.Name(tag, ast.Load()), "items", ast.Load()), [node.iter], []), node.iter)
        return r

    def _loop(self, node, names, body, targets=()):
        carried = _carried(body, names)
        if not self.stack or not carried:
            return node
        names = names + list(targets)
        self.nloops += 1
        tag = "__sc_loop_%d" % self.nloops
        pre = ast.Assign([ast.Name(tag, ast.Store())], ast.Call(
            ast.Name("__sc_newloop__", ast.Load()), [
                ast.Call(ast.Name("locals", ast.Load()), [], []),
                ast.Tuple([ast.Constant(n) for n in carried], ast.Load()),
                ast.Constant("%s:%s" % (self.mod, tag))], []))
        hav = ast.Assign(
            [ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
            ast.Call(ast.Attribute(ast.Name(tag, ast.Load()), "head", ast.Load()), [
                ast.Call(ast.Name("locals", ast.Load()), [], []),
                ast.Tuple([ast.Constant(n) for n in names], ast.Load())], []))
        step = ast.If(ast.Attribute(ast.Name(tag, ast.Load()), "on", ast.Load()), [hav], [])
        node.body = [step] + node.body
        for x in (pre, step):
            ast.copy_location(x, node)
        return [pre, node]

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        q = self.mod + "." + ".".join(self.stack)
        self.stack.pop()
        enter = ast.Expr(ast.Call(ast.Name("__sc_enter__", ast.Load()),
                                  [ast.Constant(q)], []))
        ast.copy_location(enter, node.body[0])
        body = node.body
        # keep a docstring first
        if (body and isinstance(body[0], ast.Expr) and
                isinstance(body[0].value, ast.Constant) and
                isinstance(body[0].value.value, str)):
            node.body = [body[0], enter] + body[1:]
        else:
            node.body = [enter] + body
        return node


def _assigned(body):
    """Names assigned by the statements, in order."""
    out = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_ListComp = visit_FunctionDef
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_FunctionDef

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out and not n.id.startswith("__sc_"):
                out.append(n.id)
    for st in body:
        V().visit(st)
    return out


def _breaks(body):
    """Does a break of this loop occur in its body?"""
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if _breaks(st.orelse):
                return True
        elif not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            for f in ("body", "orelse", "finalbody"):
                if _breaks(getattr(st, f, None) or []):
                    return True
            for h in getattr(st, "handlers", None) or []:
                if _breaks(h.body):
                    return True
    return False


def _targets(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def _carried(body, names):
    """Of the names, those whose value from the previous round may be read."""
    done, out = set(), []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and n.id in names and n.id not in done and n.id not in out:
                if isinstance(n.ctx, ast.Load) or isinstance(st, ast.AugAssign):
                    out.append(n.id)
        if isinstance(st, ast.Assign):
            for t in st.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        done.add(n.id)
    return out


class Loop:
    """A loop whose state is abstracted: a while loop, or a for loop with a
    break, that carries symbolic values from round to round.

    With `on`, the variables the body assigns take arbitrary values when the
    body is first entered; the body runs once from there, and only the paths
    that then leave the loop are followed.  Every state in which the real loop
    can stop after one or more rounds is among those, whatever their number.
    Counters take the values of the first rounds: a cap on the number of
    rounds is taken not to be reached.
    """

    def __init__(self, on, env, d=(), names=(), uid=None):
        self.env, self.n, self.uid = env, 0, uid
        self.on = on and builtins.any(_symbolic(d.get(k)) for k in names)
        for k in names if self.on else ():
            v = nps.unwrap(d.get(k))
            for x in v.reshape((-1,)) if isinstance(v, nps.SArr) else [v]:
                if isinstance(x, Sym):
                    env.havoced.append(x)

    def items(self, it):
        if not self.on or self.env.path.forced is not None:
            yield from it
            return
        for x in it:
            yield x
            raise core.PathAbort()
        raise core.PathAbort()

    def head(self, d, names):
        self.n += 1
        forced = self.env.path.forced is not None
        if self.n > 1 and not forced:
            raise core.PathAbort()
        if forced:
            return tuple(self._fresh(d.get(k), k) for k in names)
        # the same loop entered in the same state stops in the same state
        key = (self.uid,) + tuple((k, _state(d[k])) for k in sorted(d) if not k.startswith("__"))
        memo = self.env.loop_memo
        if key not in memo:
            memo[key] = tuple(self._fresh(d.get(k), k) for k in names)
        return tuple(v.copy() if isinstance(v, nps.SArr) else v for v in memo[key])

    def _fresh(self, v, name):
        v = nps.unwrap(v)
        if isinstance(v, nps.SArr):
            flat = [self._fresh(x, name) for x in v.reshape((-1,))]
            return nps.sarr(flat, "f").reshape(v.shape)
        if isinstance(v, (list, tuple)):
            return type(v)(self._fresh(x, name) for x in v)
        if isinstance(v, SymBool):
            raise SymError("loop abstraction of %s" % name)
        if isinstance(v, (Sym, int, float)) and not isinstance(v, bool):
            k = len(self.env.havoced)
            lo = hi = None
            if isinstance(v, int):
                lo, hi = v, v + 3
            f = core.var("loop_%s_%d" % (name, k), lo, hi,
                         v.isint if isinstance(v, Sym) else isinstance(v, int))
            if self.env.path.forced is not None:
                # evaluating the encoding at concrete inputs: keep the value
                env, cache = self.env.path.fenv
                env["loop_%s_%d" % (name, k)] = (
                    core.eval_poly(v.p, env, cache) if isinstance(v, Sym) else v)
                if isinstance(v, int):
                    return v
            if not isinstance(v, int):
                self.env.havoced.append(f)
            return f
        if isinstance(v, real_np.ndarray):
            return self._fresh(nps.sarr(list(v.reshape(-1)), "f").reshape(v.shape), name)
        return v


def _symbolic(v):
    v = nps.unwrap(v)
    if isinstance(v, (list, tuple)):
        return builtins.any(_symbolic(x) for x in v)
    return isinstance(v, Sym) or (isinstance(v, nps.SArr) and nps.has_sym(v))


def _state(v):
    """A value that is equal only for equal states."""
    v = nps.unwrap(v)
    if isinstance(v, Sym):
        return ("s", v.p)
    if isinstance(v, np_types):
        return ("a", v.shape, tuple(_state(x) for x in v.reshape((-1,))))
    if isinstance(v, (int, float, str, bytes, bool, type(None))):
        return ("c", repr(v))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(_state(x) for x in v)
    if isinstance(v, types.FunctionType):
        return ("f", v.__code__, tuple(_state(c.cell_contents) if not isinstance(
            c.cell_contents, types.FunctionType) else id(c.cell_contents) for c in v.__closure__ or ()))
    return ("o", id(v))


np_types = real_np.ndarray


def sc_mod(a, b):
    if isinstance(a, str):
        items = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, (Sym, SymBool, strs.SymStr)) for x in items):
            return strs.percent(a, b)
        return a % b
    return a % b


def sc_fstr(*parts):
    if any(isinstance(p, strs.SymStr) for p in parts):
        return strs.SymStr(parts).simplify()
    return "".join(parts)


def sc_join(sep, *a):
    if isinstance(sep, (str, strs.SymStr)):
        return strs.sym_join(sep, *a)
    return sep.join(*a)


def sc_format(s, *a):
    if isinstance(s, str):
        if not any(isinstance(x, (Sym, SymBool, strs.SymStr)) for x in a):
            return s.format(*a)
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            else:
                raise SymError("format field " + field)
            out.append(strs.fmt(v, spec or "", ord(conv) if conv else -1))
        return strs.SymStr(out).simplify()
    return s.format(*a)


class Recorder:
    """A file object that records what is written to it."""

    def __init__(self, name):
        self.name = name
        self.parts = []
        self.closed = False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def text(self):
        return strs.SymStr(self.parts).simplify()


_AST_CACHE = {}


def parse(path, modname):
    key = (path, modname)
    if key not in _AST_CACHE:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _AST_CACHE[key] = compile(tree, path, "exec")
    return _AST_CACHE[key]


class World:
    """One loaded copy of celest over symbolic values."""

    def __init__(self, env, stubs=None):
        self.mods = {}
        self.env = env
        self.entered = set()
        self.files = {}
        self.stubs = stubs or {}       # module name -> replacement module
        self.math = _math()
        self.random = RandomStub(env)
        self.bi = dict(vars(builtins))
        self.bi.update(
            __import__=self._import, isinstance=s_isinstance, float=s_float,
            int=s_int, str=s_str, repr=s_repr, sum=s_sum, any=s_any, all=s_all, round=s_round,
            type=s_type, format=s_format, range=s_range, open=self._open,
            print=lambda *a, **k: None)

    def _open(self, name, mode="r", *a, **k):
        if "w" in mode or "a" in mode or "x" in mode:
            r = Recorder(name)
            if "a" in mode and name in self.files:
                r.parts = list(self.files[name].parts)
            self.files[name] = r
            return r
        raise SymError("open(%r, %r)" % (name, mode))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == "numpy" or name.startswith("numpy."):
            return nps._LA if name == "numpy.linalg" and fromlist else nps.NP
        if name == "math":
            return self.math
        if name == "random":
            return self.random
        if name == "datetime":
            return dates.MODULE
        top = name.split(".")[0]
        if top in self.stubs and top != "celest":
            m = self.stubs.get(name, self.stubs[top])
            return m
        if top == "celest":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + "." + f))
                        except ImportError:
                            pass
                return m
            return self.load("celest")
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            m = self.stubs[name]
            self.mods[name] = m
            return m
        rel = os.path.join(REPO, *name.split("."))
        pkg = os.path.isdir(rel)
        path = os.path.join(rel, "__init__.py") if pkg else rel + ".py"
        if not os.path.exists(path):
            raise ImportError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [rel]
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        self.mods[name] = m
        d = m.__dict__
        d.update(__builtins__=self.bi, __sc_data__=nps.get_data,
                 __sc_dtype__=nps.get_dtype, __sc_mod__=sc_mod,
                 __sc_fstr__=sc_fstr, __sc_fmt__=strs.fmt, __sc_join__=sc_join,
                 __sc_newloop__=lambda d, ns, uid: Loop(
                     getattr(self.env, "havoc", False),
                     self.env, d, ns, uid),
                 __sc_format__=sc_format, __sc_enter__=self.entered.add)
        try:
            exec(parse(path, name), d)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            setattr(parent, name.rpartition(".")[2], m)
        return m
