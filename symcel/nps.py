"""symcel.nps: numpy over symbolic elements.

`SArr` is an object-dtype ndarray whose elements are Python numbers, `Sym` and
`SymBool`, with a logical dtype (`ldt`: 'b', 'i', 'f' or 'O') so that integer
arrays truncate on assignment and refuse in-place float results as numpy's do.
`NP` is the module the code under test sees as `numpy`.
"""

import builtins
import functools
import inspect
import itertools
import math
import types
from fractions import Fraction
import numpy as np
from symcel import core
from symcel.core import (Sym, SymBool, SymError, b_and, b_or, b_not, is_num)

NAN = float("nan")


# ---- logical dtypes --------------------------------------------------------

def kind_of_dtype(t):
    if t is None:
        return None
    if isinstance(t, str) and t in ("f", "i", "b", "O"):
        return t
    name = getattr(t, "__symcel_kind__", None)
    if name:
        return name
    if t is float or t is Fraction:
        return "f"
    if t is bool:
        return "b"
    if t is int:
        return "i"
    if t is object:
        return "O"
    k = np.dtype(t).kind
    if k in "iu":
        return "i"
    if k == "f":
        return "f"
    if k == "b":
        return "b"
    if k == "O":
        return "O"
    if k in "US":
        return "S"
    raise SymError("dtype %r" % (t,))


def kind_of_elem(x):
    if isinstance(x, Sym):
        return "i" if x.isint else "f"
    if isinstance(x, (bool, np.bool_, SymBool)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    return "O"


_ORDER = {"b": 0, "i": 1, "f": 2, "O": 3}


def promote(*ks):
    return max(ks, key=lambda k: _ORDER[k]) if ks else "f"


def cast_elem(x, k):
    if k == "O" or k is None:
        return x
    if k == "f":
        if isinstance(x, Sym):
            return Sym(x.p, False) if x.isint else x
        if isinstance(x, SymBool):
            return float(bool(x))
        return x if isinstance(x, Fraction) else float(x)
    if k == "i":
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, (float, np.floating)) and (x != x or abs(x) == core.INF):
            return -2 ** 63
        return int(x)
    if k == "b":
        if isinstance(x, Sym):
            r = x != 0
            return r
        if isinstance(x, SymBool):
            return x
        return bool(x)
    if k == "S":
        from symcel import strs
        return strs.sym_str(x)
    raise SymError("cast to " + k)


def out_elem(x):
    """An array element as numpy hands it out."""
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if abs(x) < 2 ** 63 else x
    if isinstance(x, float):
        return np.float64(x)
    if isinstance(x, Fraction):
        return np.float64(float(x))
    return x


class SArr(np.ndarray):
    ldt = "f"

    def __array_finalize__(self, obj):
        self.ldt = getattr(obj, "ldt", "O" if obj is None else "f")

    def __deepcopy__(self, memo):
        return wrap(np.array(np.ndarray.view(self, np.ndarray), dtype=object,
                             copy=True), self.ldt)

    # -- indexing
    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self.view(np.ndarray), clean_key(key))
        if isinstance(r, np.ndarray) and r.dtype == object and not (
                r.ndim == 0 and False):
            return wrap(r, self.ldt)
        return out_elem(r)

    def __setitem__(self, key, value):
        base = self.view(np.ndarray)
        key = clean_key(key)
        value = unwrap(value)
        if isinstance(value, (list, tuple, np.ndarray)):
            v = obj_array(value)
            if v is None:
                raise SymError("assignment of %r" % (value,))
            vv = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                vv[i] = cast_elem(v[i], self.ldt)
            base[key] = vv if vv.ndim else vv[()]
        else:
            base[key] = cast_elem(value, self.ldt)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __reduce__(self):
        return (_rebuild, (np.array(self.view(np.ndarray), copy=True), self.ldt))

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape((-1,))[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.reshape((-1,))[0])

    def __int__(self):
        return int(self.reshape((-1,))[0])

    def __index__(self):
        return self.reshape((-1,))[0].__index__()

    def __contains__(self, x):
        return bool(any_(self == x))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        mine = FUNCS.get(func)
        if mine is not None:
            return mine(*args, **kwargs)
        args = tuple(unwrap(a) for a in args)
        r = func._implementation(*args, **kwargs)
        return tidy(r, self.ldt)

    # -- methods
    def astype(self, t, *a, **k):
        kk = kind_of_dtype(t)
        if kk == "S":
            return _strarr([cast_elem(x, "S") for x in self.ravel_list()],
                           self.shape)
        return emap(lambda x: cast_elem(x, kk), kk, self)

    def ravel_list(self):
        return list(self.view(np.ndarray).ravel())

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def copy(self, *a, **k):
        return wrap(np.array(self.view(np.ndarray), copy=True), self.ldt)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(self, axis, out=out, keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return prod(self, axis, out=out, keepdims=keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, out=out, keepdims=keepdims, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return amax(self, axis, out=out, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return amin(self, axis, out=out, keepdims=keepdims, **k)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return any_(self, axis, out=out, keepdims=keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return all_(self, axis, out=out, keepdims=keepdims, **k)

    def dot(self, other):
        return dot(self, other)

    def clip(self, lo=None, hi=None, **k):
        return clip(self, lo, hi, **k)

    def round(self, n=0, **k):
        return around(self, n)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis, **k)

    def argmax(self, axis=None, **k):
        return argmax(self, axis, **k)

    def argmin(self, axis=None, **k):
        return argmin(self, axis, **k)

    def argsort(self, *a, **k):
        return argsort(self)

    def sort(self, *a, **k):
        if self.ndim != 1:
            raise SymError("sort of a multi-dimensional array")
        v = sorted(self.ravel_list())
        self.view(np.ndarray)[:] = v

    def nonzero(self):
        return np.nonzero(concrete_mask(self))

    def std(self, axis=None, **k):
        return std(self, axis, **k)

    def var(self, axis=None, **k):
        return var_(self, axis, **k)


def _rebuild(a, ldt):
    return wrap(a, ldt)


class MemView:
    """What `array.data` gives: a buffer numpy functions accept."""

    def __init__(self, arr):
        self.arr = arr

    def __array__(self, dtype=None):
        return self.arr.view(np.ndarray)

    def __len__(self):
        return len(self.arr)

    def __getitem__(self, i):
        r = self.arr[i]
        return MemView(r) if isinstance(r, SArr) else r

    def __setitem__(self, i, v):
        self.arr[i] = v

    def __iter__(self):
        return iter(self.arr)

    def __eq__(self, o):
        o = o.arr if isinstance(o, MemView) else o
        if isinstance(o, np.ndarray):
            if o.shape != self.arr.shape:
                return False
            return bool(all_(self.arr == o))
        return NotImplemented

    __hash__ = None

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'memoryview' object")

    @property
    def shape(self):
        return self.arr.shape

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def nbytes(self):
        return 8 * self.arr.size

    def tolist(self):
        return self.arr.tolist()


def unwrap(x):
    return x.arr if isinstance(x, MemView) else x


def wrap(a, ldt):
    r = a.view(SArr)
    r.ldt = ldt
    return r


def tidy(r, ldt):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object and r.size and all(kind_of_elem(x) != "O" for x in r.ravel()):
            return wrap(r, promote(*[kind_of_elem(x) for x in r.ravel()]) if ldt is None else ldt)
        return r
    if isinstance(r, list):
        return [tidy(x, ldt) for x in r]
    if isinstance(r, tuple):
        return tuple(tidy(x, ldt) for x in r)
    return r


def clean_key(key):
    if isinstance(key, tuple):
        return tuple(clean_key(k) for k in key)
    key = unwrap(key)
    if isinstance(key, SArr):
        if key.ldt == "b":
            return concrete_mask(key)
        if key.ldt == "f":
            if key.size == 0:
                return np.array([], dtype=int)
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
        return concrete_ints(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, Sym):
        return key.__index__()
    if isinstance(key, list):
        if any(isinstance(k, (Sym, SymBool)) for k in key):
            return [clean_key(k) for k in key]
        return key
    if isinstance(key, slice):
        f = lambda v: v.__index__() if isinstance(v, Sym) else v
        return slice(f(key.start), f(key.stop), f(key.step))
    return key


def concrete_mask(a):
    a = unwrap(a)
    if not isinstance(a, np.ndarray):
        return bool(a)
    b = a.view(np.ndarray)
    r = np.zeros(b.shape, dtype=bool)
    for i in np.ndindex(*b.shape):
        r[i] = bool(b[i])
    return r


def concrete_ints(a):
    b = a.view(np.ndarray)
    r = np.zeros(b.shape, dtype=int)
    for i in np.ndindex(*b.shape):
        v = b[i]
        r[i] = v.__index__() if isinstance(v, Sym) else int(v)
    return r


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SArr, MemView)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(has_sym(y) for y in x)
    return False


def obj_array(x):
    """Object ndarray of numbers, or None when x holds something else."""
    x = unwrap(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        if x.dtype.kind in "iufb":
            return x.astype(object)
        return None
    if isinstance(x, (Sym, SymBool)) or is_num(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple, range)):
        parts = [obj_array(y) for y in x]
        if builtins.any(p is None for p in parts):
            return None
        if not parts:
            return np.empty((0,), dtype=object)
        shapes = {p.shape for p in parts}
        if len(shapes) > 1:
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
        a = np.empty((len(parts),) + parts[0].shape, dtype=object)
        for i, p in enumerate(parts):
            a[i] = p if p.ndim else p[()]
        return a
    if isinstance(x, memoryview):
        return obj_array(np.asarray(x))
    return None


def arr_kind(x):
    x = unwrap(x)
    if isinstance(x, SArr):
        return x.ldt
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return promote(*[kind_of_elem(e) for e in x.ravel()]) if x.size else "f"
        return kind_of_dtype(x.dtype)
    if isinstance(x, (list, tuple)):
        ks = [arr_kind(y) for y in x]
        return promote(*ks) if ks else "f"
    return kind_of_elem(x)


def sarr(x, ldt=None):
    """Anything array-like holding numbers -> SArr (shares no memory)."""
    x = unwrap(x)
    if isinstance(x, SArr):
        return x if ldt in (None, x.ldt) else x.astype(ldt)
    o = obj_array(x)
    if o is None:
        raise SymError("not a numeric array: %r" % (type(x),))
    k = ldt or arr_kind(x)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        r[i] = cast_elem(o[i], k)
    return wrap(r, k)


def emap(f, kind, *xs):
    """Elementwise map with broadcasting; 0-d results come back as scalars."""
    os = []
    for x in xs:
        o = obj_array(x)
        if o is None:
            return NotImplemented
        os.append(o)
    shape = np.broadcast_shapes(*[o.shape for o in os])
    bs = [np.broadcast_to(o, shape) for o in os]
    allscalar = builtins.all(not isinstance(unwrap(x), np.ndarray) and
                             not isinstance(x, (list, tuple)) for x in xs)
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        r[i] = f(*[b[i] for b in bs])
    if allscalar or shape == ():
        return out_elem(r[()])
    return wrap(r, kind)


# ---- scalar kernels --------------------------------------------------------

def _c(x):
    """A concrete element as a plain Python number."""
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def k_div(a, b):
    a, b = _c(a), _c(b)
    if isinstance(a, SymBool):
        a = int(a)
    if isinstance(b, SymBool):
        b = int(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return float(np.float64(float(a)) / np.float64(float(b)))
    if isinstance(a, float) and (a != a or abs(a) == core.INF):
        return b.__rtruediv__(a)
    if isinstance(b, float) and (b != b or abs(b) == core.INF):
        return a.__truediv__(b)
    return core.div(a, b, np_semantics=True)


def k_floordiv(a, b):
    a, b = _c(a), _c(b)
    return a // b


def k_mod(a, b):
    a, b = _c(a), _c(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with np.errstate(all="ignore"):
            return _c(np.mod(a, b))
    return a % b


def k_fmod(a, b):
    a, b = _c(a), _c(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.fmod(a, b)
    if a >= 0:
        return a % abs(b)
    return -((-a) % abs(b))


def k_pow(a, b):
    a, b = _c(a), _c(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        try:
            with np.errstate(all="ignore"):
                return _c(np.power(a, b)) if not (isinstance(a, int) and isinstance(b, int)) else a ** b
        except ZeroDivisionError:
            return core.INF
    return a ** b


def _unary(fsym, fnum):
    def k(x):
        x = _c(x)
        if isinstance(x, SymBool):
            x = int(x)
        if isinstance(x, Sym):
            return fsym(x)
        with np.errstate(all="ignore"):
            return _c(fnum(x if not isinstance(x, Fraction) else float(x)))
    return k


def k_sign(x):
    x = _c(x)
    if isinstance(x, Sym):
        if x > 0:
            return 1 if x.isint else 1.0
        if x < 0:
            return -1 if x.isint else -1.0
        return 0 if x.isint else 0.0
    return _c(np.sign(x))


def k_heaviside(a, b):
    a, b = _c(a), _c(b)
    if a < 0:
        return 0.0
    if a > 0:
        return 1.0
    return b


def k_max(a, b):
    a, b = _c(a), _c(b)
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a >= b) else b


def k_min(a, b):
    a, b = _c(a), _c(b)
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a <= b) else b


def k_atan2(a, b):
    a, b = _c(a), _c(b)
    return core.atan2(a, b)


def _cmp(op):
    def k(a, b):
        a, b = _c(a), _c(b)
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        if op == "eq":
            return a == b
        return a != b
    return k


def k_isnan(x):
    x = _c(x)
    return False if isinstance(x, (Sym, SymBool)) else x != x


def k_isinf(x):
    x = _c(x)
    return False if isinstance(x, (Sym, SymBool)) else abs(x) == core.INF


def k_isfinite(x):
    return not (k_isnan(x) or k_isinf(x))


def k_log(x):
    x = _c(x)
    if isinstance(x, Sym):
        c = x.p.const()
        if c is None:
            raise SymError("log of a symbolic value")
        x = float(c)
    return math.log(x)


def _degc():
    return Fraction(180.0 / math.pi)


def _radc():
    return Fraction(math.pi / 180.0)


BIN = {
    "add": (lambda a, b: _c(a) + _c(b), None),
    "subtract": (lambda a, b: _c(a) - _c(b), None),
    "multiply": (lambda a, b: _c(a) * _c(b), None),
    "divide": (k_div, "f"),
    "true_divide": (k_div, "f"),
    "floor_divide": (k_floordiv, None),
    "remainder": (k_mod, None),
    "fmod": (k_fmod, None),
    "power": (k_pow, None),
    "float_power": (k_pow, "f"),
    "arctan2": (k_atan2, "f"),
    "hypot": (lambda a, b: core.hypot(_c(a), _c(b)), "f"),
    "maximum": (k_max, None),
    "minimum": (k_min, None),
    "fmax": (k_max, None),
    "fmin": (k_min, None),
    "less": (_cmp("lt"), "b"),
    "less_equal": (_cmp("le"), "b"),
    "greater": (_cmp("gt"), "b"),
    "greater_equal": (_cmp("ge"), "b"),
    "equal": (_cmp("eq"), "b"),
    "not_equal": (_cmp("ne"), "b"),
    "logical_and": (lambda a, b: b_and(_tb(a), _tb(b)), "b"),
    "logical_or": (lambda a, b: b_or(_tb(a), _tb(b)), "b"),
    "logical_xor": (lambda a, b: b_not(SymEq(_tb(a), _tb(b))), "b"),
    "bitwise_and": (lambda a, b: _bit(a, b, "and"), "b"),
    "bitwise_or": (lambda a, b: _bit(a, b, "or"), "b"),
    "bitwise_xor": (lambda a, b: _bit(a, b, "xor"), "b"),
    "heaviside": (k_heaviside, "f"),
    "copysign": (lambda a, b: abs(_c(a)) if bool(_c(b) >= 0) else -abs(_c(a)), "f"),
}


def _tb(x):
    x = _c(x)
    if isinstance(x, (bool, SymBool)):
        return x
    return x != 0


def SymEq(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def _bit(a, b, op):
    a, b = _c(a), _c(b)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        if op == "and":
            return b_and(a, b)
        if op == "or":
            return b_or(a, b)
        return b_not(SymEq(a, b))
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    raise SymError("bitwise operation on symbolic numbers")


UN = {
    "negative": (lambda a: -_c(a), None),
    "positive": (lambda a: a, None),
    "absolute": (lambda a: abs(_c(a)), None),
    "fabs": (lambda a: abs(_c(a)), "f"),
    "conjugate": (lambda a: a, None),
    "sin": (_unary(core.sin, np.sin), "f"),
    "cos": (_unary(core.cos, np.cos), "f"),
    "tan": (_unary(core.tan, np.tan), "f"),
    "arcsin": (_unary(core.asin, np.arcsin), "f"),
    "arccos": (_unary(core.acos, np.arccos), "f"),
    "arctan": (_unary(core.atan, np.arctan), "f"),
    "sqrt": (_unary(core.sqrt, np.sqrt), "f"),
    "square": (lambda a: _c(a) * _c(a), None),
    "reciprocal": (lambda a: k_div(1.0, a), None),
    "exp": (_unary(core.exp, np.exp), "f"),
    "log": (k_log, "f"),
    "degrees": (_unary(lambda x: x * _degc(), np.degrees), "f"),
    "rad2deg": (_unary(lambda x: x * _degc(), np.degrees), "f"),
    "radians": (_unary(lambda x: x * _radc(), np.radians), "f"),
    "deg2rad": (_unary(lambda x: x * _radc(), np.radians), "f"),
    "floor": (_unary(core.floor, np.floor), "keepf"),
    "ceil": (_unary(lambda x: -core.floor(-x), np.ceil), "keepf"),
    "trunc": (_unary(core.trunc, np.trunc), "keepf"),
    "rint": (_unary(lambda x: core.round_half_even(x), np.rint), "f"),
    "sign": (k_sign, None),
    "signbit": (lambda x: _c(x) < 0, "b"),
    "isnan": (k_isnan, "b"),
    "isinf": (k_isinf, "b"),
    "isfinite": (k_isfinite, "b"),
    "logical_not": (lambda a: b_not(_tb(a)), "b"),
    "invert": (lambda a: b_not(a) if isinstance(_c(a), (bool, SymBool)) else ~_c(a), "b"),
}

for _n in ("log10", "log2", "log1p", "expm1", "sinh", "cosh", "tanh", "cbrt"):
    def _mk(n):
        def f(x):
            raise SymError(n + " of a symbolic value")
        return _unary(f, getattr(np, n))
    UN[_n] = (_mk(_n), "f")


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    inputs = tuple(unwrap(x) for x in inputs)
    kw = dict(kw)
    out = kw.pop("out", None)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    if method == "__call__":
        if name == "matmul":
            r = matmul(*inputs)
        elif name == "divmod":
            return (array_ufunc(np.floor_divide, method, inputs, {}),
                    array_ufunc(np.remainder, method, inputs, {}))
        elif name == "clip":
            r = clip(*inputs)
        elif name == "modf":
            whole = emap(UN["trunc"][0], "f", inputs[0])
            return emap(lambda a, b: a - b, "f", inputs[0], whole), whole
        elif name.endswith("(vectorized)"):
            r = _frompyfunc(ufunc, inputs)
        elif name in BIN and len(inputs) == 2:
            f, k = BIN[name]
            if k is None:
                k = promote(*[arr_kind(x) for x in inputs])
                if k == "b" and name not in ("maximum", "minimum"):
                    if name in ("add", "multiply"):
                        f = (lambda a, b: b_or(a, b)) if name == "add" else (lambda a, b: b_and(a, b))
                    else:
                        k = "i"
            r = emap(f, k, *inputs)
        elif name in UN and len(inputs) == 1:
            f, k = UN[name]
            if k is None:
                k = arr_kind(inputs[0])
            if k == "keepf":
                k = "f"
            r = emap(f, k, *inputs)
        else:
            raise SymError("ufunc %s is not modelled" % name)
        if r is NotImplemented:
            return NotImplemented
        where = kw.pop("where", True)
        if where is not True:
            if out is None:
                raise SymError("ufunc where without out")
            m = concrete_mask(np.broadcast_to(obj_array(where), out.shape))
            r = where3(m, r, out)
        if out is not None:
            if isinstance(out, SArr):
                rk = arr_kind(r)
                if _ORDER[rk] > _ORDER[out.ldt]:
                    raise TypeError(
                        "Cannot cast ufunc '%s' output from float64 to int64 "
                        "with casting rule 'same_kind'" % name)
                out[...] = r
            elif isinstance(out, np.ndarray) and out.dtype == object:
                out[...] = obj_array(r)
            elif isinstance(out, np.ndarray):
                o = obj_array(r)
                for i in np.ndindex(*out.shape):
                    v = np.broadcast_to(o, out.shape)[i]
                    if isinstance(v, (Sym, SymBool)):
                        raise SymError("symbolic value stored in a native array")
                    out[i] = v
            return out
        return r
    if method == "reduce":
        axis = kw.get("axis", 0)
        return reduce_(name, inputs[0], axis, kw.get("keepdims", False),
                       kw.get("initial", None))
    if method == "accumulate":
        return accumulate(name, inputs[0], kw.get("axis", 0))
    if method == "outer":
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return array_ufunc(ufunc, "__call__",
                           (a.reshape(a.shape + (1,) * b.ndim), b), {})
    raise SymError("ufunc method " + method)


PYFUNCS = {}


def _frompyfunc(ufunc, inputs):
    f = PYFUNCS.get(id(ufunc))
    if f is None:
        raise SymError("vectorised function of unknown source")
    bs = np.broadcast_arrays(*[obj_array(x) for x in inputs])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*bs[0].shape):
        out[i] = f(*[b[i] for b in bs])
    if out.shape == ():
        return out_elem(out[()])
    return sarr(out)


def frompyfunc(f, nin, nout, **k):
    u = np.frompyfunc(f, nin, nout, **k)
    if nout != 1:
        return u
    PYFUNCS[id(u)] = f
    KEEP.append(u)
    return _pyu(u)


KEEP = []


def _pyu(u):
    def call(*a, **k):
        a = tuple(unwrap(x) for x in a)
        if builtins.any(has_sym(x) for x in a):
            return _frompyfunc(u, a)
        return u(*a, **k)
    return call


class Vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.pyfunc, self.signature = pyfunc, signature
        self.real = np.vectorize(pyfunc, otypes=otypes, excluded=excluded, signature=signature)
        self.excluded = excluded or set()
        self.otypes = otypes

    def __call__(self, *a, **k):
        a = tuple(unwrap(x) for x in a)
        if not builtins.any(has_sym(x) for x in list(a) + list(k.values())):
            return self.real(*a, **k)
        if self.signature:
            raise SymError("vectorize with a signature")
        names = [n for n in k if n not in self.excluded]
        pos = [i for i in range(len(a)) if i not in self.excluded]
        bs = np.broadcast_arrays(*([obj_array(a[i]) for i in pos] + [obj_array(k[n]) for n in names]))
        shape = bs[0].shape
        res = np.empty(shape, dtype=object)
        for q in np.ndindex(*shape):
            args = list(a)
            for i, b in zip(pos, bs):
                args[i] = b[q]
            kw = dict(k)
            kw.update((n, b[q]) for n, b in zip(names, bs[len(pos):]))
            res[q] = self.pyfunc(*args, **kw)
        if shape and res.size and isinstance(res.flat[0], tuple):
            return tuple(sarr([v[j] for v in res.ravel()]).reshape(shape) for j in range(len(res.flat[0])))
        if shape == ():
            r = res[()]
            return tuple(sarr(v) for v in r) if isinstance(r, tuple) else out_elem(r)
        r = sarr(res)
        return r.astype(self.otypes[0]) if self.otypes else r


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False,
         "bitwise_and": True, "bitwise_or": False}


def _fold(name, vals, kind):
    f = BIN[name][0]
    if not vals:
        if name in IDENT:
            v = IDENT[name]
            return float(v) if kind == "f" else v
        raise ValueError("zero-size array to reduction operation %s which has "
                         "no identity" % name)
    if name in ("logical_and", "bitwise_and") and kind == "b":
        return b_and(*[_tb(v) for v in vals])
    if name in ("logical_or", "bitwise_or") and kind == "b":
        return b_or(*[_tb(v) for v in vals])
    r = vals[0]
    if name.startswith("logical"):
        r = _tb(r)
    elif name == "add" and kind == "i" and isinstance(r, (SymBool, bool)):
        r = int(r)
    for v in vals[1:]:
        r = f(r, v)
    return r


def reduce_(name, a, axis=None, keepdims=False, initial=None):
    a = sarr(a)
    kind = a.ldt
    if name.startswith("logical"):
        kind = "b"
    elif name in ("add", "multiply") and kind == "b":
        kind = "i"
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        if not -a.ndim <= axis < a.ndim:
            raise np.AxisError(axis, a.ndim)
        axes = (axis % a.ndim,)
    base = a.view(np.ndarray)
    keep = [i for i in range(a.ndim) if i not in axes]
    oshape = tuple(a.shape[i] for i in keep)
    r = np.empty(oshape, dtype=object)
    for idx in np.ndindex(*oshape):
        sel = [slice(None)] * a.ndim
        for i, v in zip(keep, idx):
            sel[i] = v
        sub = base[tuple(sel)]
        vals = list(sub.ravel()) if isinstance(sub, np.ndarray) else [sub]
        if initial is not None and not isinstance(initial, type(np._NoValue)):
            vals = [initial] + vals
        r[idx] = _fold(name, vals, kind)
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if r.shape == ():
        return out_elem(r[()])
    return wrap(r, kind)


def accumulate(name, a, axis=0):
    a = sarr(a)
    if a.ndim != 1:
        raise SymError("accumulate over a multi-dimensional array")
    f = BIN[name][0]
    out = []
    for v in a.ravel_list():
        out.append(v if not out else f(out[-1], v))
    return sarr(out, a.ldt if a.ldt != "b" else "i") if out else a


# ---- array functions -------------------------------------------------------

def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
    x = unwrap(x)
    kk = kind_of_dtype(dtype)
    if kk == "S":
        return np.array(x, dtype=dtype)
    if kk == "O" and not has_sym(x):
        return np.array(x, dtype=object)
    try:
        o = obj_array(x)
    except ValueError:
        if kk == "O":
            return np.array(x, dtype=object)
        raise
    if o is None:
        return np.array(x, dtype=dtype) if dtype is not None and kk != "O" else np.array(x, dtype=dtype)
    if o.size == 0 and kk is None and not isinstance(x, SArr):
        kk = "f" if not isinstance(x, np.ndarray) else arr_kind(x)
    k2 = kk if kk else arr_kind(x)
    r = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape):
        r[i] = cast_elem(o[i], k2)
    while r.ndim < ndmin:
        r = r[None]
    return wrap(r, k2)


def asarray(x, dtype=None, order=None, **k):
    x = unwrap(x)
    if isinstance(x, SArr) and kind_of_dtype(dtype) in (None, x.ldt):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return array(x, dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(v.__index__()) if isinstance(v, Sym) else int(v) for v in s)
    return (s.__index__() if isinstance(s, Sym) else int(s),)


def full(shape, fill, dtype=None, order=None, **k):
    shape = _shape(shape)
    fill = unwrap(fill)
    if isinstance(fill, (np.ndarray, list, tuple)):
        o = sarr(fill, kind_of_dtype(dtype))
        return wrap(np.array(np.broadcast_to(o.view(np.ndarray), shape), dtype=object,
                             copy=True), o.ldt)
    if kind_of_elem(fill) == "O" and dtype is None:
        return np.full(shape, fill)
    kk = kind_of_dtype(dtype) or kind_of_elem(fill)
    if kk == "S":
        return np.full(shape, fill, dtype)
    r = np.empty(shape, dtype=object)
    r[...] = cast_elem(fill, kk)
    return wrap(r, kk)


def zeros(shape, dtype=None, order="C", **k):
    kk = kind_of_dtype(dtype) or "f"
    if kk in ("S", "O"):
        return np.zeros(_shape(shape), dtype=dtype)
    return full(shape, 0 if kk == "i" else False if kk == "b" else 0.0, kk)


def ones(shape, dtype=None, order="C", **k):
    return full(shape, 1.0, kind_of_dtype(dtype) or "f")


def empty(shape, dtype=None, order="C", **k):
    kk = kind_of_dtype(dtype) or "f"
    if kk in ("S", "O"):
        return np.empty(_shape(shape), dtype=dtype)
    return full(shape, NAN if kk == "f" else 0, kk)


def eye(n, m=None, k=0, dtype=None, **kw):
    return array(np.eye(n, m, k), dtype)


def full_like(a, fill, dtype=None, **k):
    a = sarr(a)
    shape = k.get("shape")
    return full(a.shape if shape is None else shape, fill, kind_of_dtype(dtype) or a.ldt)


def zeros_like(a, dtype=None, **k):
    return full_like(a, 0, dtype, **k)


def ones_like(a, dtype=None, **k):
    return full_like(a, 1, dtype, **k)


def empty_like(a, dtype=None, **k):
    kind = kind_of_dtype(dtype) or sarr(a).ldt
    return full_like(a, NAN if kind == "f" else 0, dtype, **k)


def copy_(a, order="K", subok=False):
    a = unwrap(a)
    if isinstance(a, SArr):
        return a.copy()
    return array(a)


def linspace(a, b, n=50, endpoint=True, retstep=False, dtype=None, **k):
    if not has_sym((a, b)):
        return array(np.linspace(a, b, n, endpoint=endpoint), dtype)
    d = (b - a) * Fraction(1, (n - 1 if endpoint else n))
    return sarr([a + d * i for i in range(n)], "f")


def where3(c, a, b):
    c = unwrap(c)
    k = promote(arr_kind(a), arr_kind(b))
    if k == "O":
        raise SymError("where over objects")
    return emap(lambda m, x, y: cast_elem(x if bool(m) else y, k), k, c, a, b)


def where(c, *xy):
    c = unwrap(c)
    if xy:
        return where3(c, *xy)
    return np.where(concrete_mask(c))


def nonzero(c):
    return np.nonzero(concrete_mask(unwrap(c)))


def argwhere(c):
    return np.argwhere(concrete_mask(unwrap(c)))


def flatnonzero(c):
    return np.flatnonzero(concrete_mask(unwrap(c)))


def count_nonzero(c, axis=None, **k):
    return np.count_nonzero(concrete_mask(unwrap(c)), axis=axis)


def any_(a, axis=None, out=None, keepdims=False, **k):
    r = reduce_("logical_or", a, axis, bool(keepdims) if not isinstance(keepdims, type(np._NoValue)) else False)
    return r


def all_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_("logical_and", a, axis, bool(keepdims) if not isinstance(keepdims, type(np._NoValue)) else False)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return reduce_("add", a, axis, keepdims if keepdims is True else False)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_("multiply", a, axis, keepdims if keepdims is True else False)


def amax(a, axis=None, out=None, keepdims=False, **k):
    return reduce_("maximum", a, axis, keepdims if keepdims is True else False)


def amin(a, axis=None, out=None, keepdims=False, **k):
    return reduce_("minimum", a, axis, keepdims if keepdims is True else False)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = sarr(a)
    s = reduce_("add", a, axis, keepdims if keepdims is True else False)
    n = a.size if axis is None else (
        a.shape[axis] if not isinstance(axis, tuple) else
        math.prod(a.shape[i] for i in axis))
    return _div_any(s, n)


def _div_any(s, n):
    if isinstance(s, np.ndarray):
        return emap(lambda x: k_div(x, n), "f", s)
    return out_elem(k_div(s, n))


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    a, w = sarr(a), sarr(weights)
    return _div_any(reduce_("add", a * w, axis), reduce_("add", w, axis))


def var_(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = sarr(a)
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    r = mean((a - m) ** 2, axis, keepdims=keepdims)
    if ddof:
        n = a.size if axis is None else a.shape[axis]
        r = r * Fraction(n, n - ddof)
    return r


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return emap(UN["sqrt"][0], "f", var_(a, axis, ddof=ddof, keepdims=keepdims))


def median(a, axis=None, **k):
    a = sarr(a)
    if axis is not None and a.ndim > 1:
        raise SymError("median along an axis")
    v = sorted(a.ravel_list())
    n = len(v)
    return v[n // 2] if n % 2 else k_div(v[n // 2 - 1] + v[n // 2], 2)


def ptp(a, axis=None, **k):
    return amax(a, axis) - amin(a, axis)


def cumsum(a, axis=None, **k):
    a = sarr(a)
    if axis is not None and a.ndim > 1:
        raise SymError("cumulated along an axis")
    return accumulate("add", a.reshape((-1,)) if axis is None else a)


def diff(a, n=1, axis=-1, prepend=None, append=None, **k):
    a = sarr(a)
    parts = [a]
    for v, first in ((prepend, True), (append, False)):
        if v is not None:
            v = sarr(v)
            if v.ndim == 0:
                sh = list(a.shape)
                sh[axis] = 1
                v = broadcast_to(v, tuple(sh))
            parts = [v] + parts if first else parts + [v]
    if len(parts) > 1:
        a = sarr(concatenate(parts, axis=axis))
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis], s2[axis] = slice(1, None), slice(None, -1)
        if a.ldt == "b":
            a = emap(lambda x, y: b_not(SymEq(x, y)), "b", a[tuple(s1)], a[tuple(s2)])
        else:
            a = a[tuple(s1)] - a[tuple(s2)]
    return a


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = sarr(a), sarr(b)
    a = wrap(np.moveaxis(a.view(np.ndarray), axisa, -1), a.ldt)
    b = wrap(np.moveaxis(b.view(np.ndarray), axisb, -1), b.ldt)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise SymError("cross of non-3-vectors")
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    cs = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    r = np.stack([obj_array(c) for c in cs], axis=-1)
    r = np.moveaxis(r, -1, axisc if r.ndim > 1 else -1)
    return wrap(r, promote(a.ldt, b.ldt))


def dot(a, b, out=None):
    a, b = unwrap(a), unwrap(b)
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return a * b
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        if a.shape[-1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        return reduce_("add", a * b, -1)
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    if b.ndim == 2:
        A = a.view(np.ndarray)[..., :, None]
        B = b.view(np.ndarray)
        return reduce_("add", wrap(A, a.ldt) * wrap(B, b.ldt), -2)
    raise SymError("dot of %d-d arrays" % b.ndim)


def matmul(a, b, **k):
    a, b = sarr(a), sarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim == 1:
        r = matmul(a[None, :], b)
        return r[..., 0, :]
    if b.ndim == 1:
        r = matmul(a, b[:, None])
        return r[..., 0]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core "
                         "dimension 0")
    A = wrap(a.view(np.ndarray)[..., :, :, None], a.ldt)
    B = wrap(b.view(np.ndarray)[..., None, :, :], b.ldt)
    return reduce_("add", A * B, -2)


def inner(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return tensordot(a, b, axes=((-1,), (-1,)))


def tensordot(a, b, axes=2):
    a, b = sarr(a), sarr(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = ([q] if isinstance(q, int) else list(q) for q in axes)
    ax, bx = [q % a.ndim for q in ax], [q % b.ndim for q in bx]
    A = list("abcdefgh"[:a.ndim])
    B = list("stuvwxyz"[:b.ndim])
    for p, q in zip(ax, bx):
        if a.shape[p] != b.shape[q]:
            raise ValueError("shape-mismatch for sum")
        B[q] = A[p]
    out = [l for i, l in enumerate(A) if i not in ax] + [l for i, l in enumerate(B) if i not in bx]
    return einsum("%s,%s->%s" % ("".join(A), "".join(B), "".join(out)), a, b)


def vdot(a, b):
    return dot(sarr(a).reshape((-1,)), sarr(b).reshape((-1,)))


def outer(a, b, out=None):
    a, b = sarr(a).reshape((-1, 1)), sarr(b).reshape((1, -1))
    return a * b


def trace(a, offset=0, axis1=0, axis2=1, **k):
    a = sarr(a)
    d = np.diagonal(a.view(np.ndarray), offset, axis1, axis2)
    return reduce_("add", wrap(d, a.ldt), -1)


def einsum(subs, *ops, **k):
    ops = [sarr(o) for o in ops]
    subs = subs.replace(" ", "")
    if "..." in subs:
        parts = subs.split("->")
        free = [l for l in "ABCDEFGHIJ" if l not in subs]
        terms = parts[0].split(",")
        extra = [o.ndim - len(t.replace("...", "")) if "..." in t else 0 for t, o in zip(terms, ops)]
        n = max(extra)
        terms = [t.replace("...", "".join(free[n - e:n])) for t, e in zip(terms, extra)]
        if len(parts) == 1:
            letters = sorted(set(parts[0].replace(",", "").replace(".", "")))
            parts.append("..." + "".join(l for l in letters if parts[0].count(l) == 1))
        subs = ",".join(terms) + "->" + parts[1].replace("...", "".join(free[:n]))
    if "->" in subs:
        ins, out = subs.split("->")
    else:
        ins = subs
        letters = sorted(set(ins.replace(",", "")))
        out = "".join(l for l in letters if ins.count(l) == 1)
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("more operands provided to einstein sum function than "
                         "specified in the subscripts string")
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains too many "
                             "or too few subscripts for operand")
        for l, n in zip(s, o.shape):
            if dims.setdefault(l, n) != n:
                if dims[l] == 1:
                    dims[l] = n
                elif n != 1:
                    raise ValueError("operands could not be broadcast together")
    summed = [l for l in dims if l not in out]
    shape = tuple(dims[l] for l in out)
    r = np.empty(shape, dtype=object)
    bases = [o.view(np.ndarray) for o in ops]
    for idx in np.ndindex(*shape):
        env = dict(zip(out, idx))
        acc = 0
        for sidx in itertools.product(*[range(dims[l]) for l in summed]):
            env.update(zip(summed, sidx))
            t = None
            for s, b in zip(ins, bases):
                v = b[tuple(env[l] if b.shape[q] != 1 else 0 for q, l in enumerate(s))]
                v = _c(v)
                t = v if t is None else t * v
            acc = t if isinstance(acc, int) and acc == 0 else acc + t
        r[idx] = acc
    if shape == ():
        return out_elem(r[()])
    return wrap(r, promote(*[o.ldt for o in ops]))


def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", lo) if lo is None else lo
    hi = k.get("a_max", hi) if hi is None else hi
    r = a
    kind = promote(arr_kind(a), *[arr_kind(v) for v in (lo, hi) if v is not None])
    if lo is not None:
        r = emap(k_max, kind, r, lo)
    if hi is not None:
        r = emap(k_min, kind, r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def around(a, decimals=0, out=None):
    return emap(lambda x: core.round_half_even(x, decimals) if isinstance(x, Sym)
                else float(np.round(x, decimals)), "f", a)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return emap(lambda x, y: abs(_c(x) - _c(y)) <= atol + rtol * abs(_c(y)), "b", a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(all_(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = sarr(a), sarr(b)
    return a.shape == b.shape and bool(all_(a == b))


def sort(a, axis=-1, **k):
    a = sarr(a)
    if a.ndim != 1:
        raise SymError("sort of a multi-dimensional array")
    return sarr(sorted(a.ravel_list()), a.ldt)


def argsort(a, *args, **k):
    a = sarr(a)
    if a.ndim != 1:
        raise SymError("argsort of a multi-dimensional array")
    v = a.ravel_list()
    return np.array(sorted(range(len(v)), key=lambda i: v[i]), dtype=int)


def argmax(a, axis=None, **k):
    v = sarr(a).ravel_list() if axis is None or sarr(a).ndim == 1 else None
    if v is None:
        raise SymError("argmax along an axis")
    best = 0
    for i in range(1, len(v)):
        if bool(_gt(v[i], v[best])):
            best = i
    return best


def _gt(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool):
        return b_and(_tb(a), b_not(_tb(b)))
    return a > b


def argmin(a, axis=None, **k):
    a = sarr(a)
    if axis is not None and a.ndim != 1:
        raise SymError("argmin along an axis")
    v = a.ravel_list()
    best = 0
    for i in range(1, len(v)):
        if bool(_gt(v[best], v[i])):
            best = i
    return best


def searchsorted(a, v, side="left", sorter=None):
    a = sarr(a).ravel_list()

    def one(x):
        n = 0
        for e in a:
            if bool(e < x) if side == "left" else bool(e <= x):
                n += 1
            else:
                break
        return n
    v = unwrap(v)
    if isinstance(v, (np.ndarray, list, tuple)):
        return np.array([one(x) for x in sarr(v).ravel_list()], dtype=int)
    return one(v)


def interp(x, xp, fp, **k):
    xp, fp = sarr(xp).ravel_list(), sarr(fp).ravel_list()

    def one(t):
        if bool(t <= xp[0]):
            return fp[0]
        if bool(t >= xp[-1]):
            return fp[-1]
        for i in range(len(xp) - 1):
            if bool(t <= xp[i + 1]):
                return fp[i] + k_div((fp[i + 1] - fp[i]) * (t - xp[i]), xp[i + 1] - xp[i])
    return emap(one, "f", x)


def nan_to_num(a, copy=True, nan=0.0, **k):
    return emap(lambda x: nan if k_isnan(x) else x, "f", a)


def select(condlist, choicelist, default=0):
    r = default
    for c, x in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = where3(c, x, r)
    return r


def concatenate(arrs, axis=0, out=None, **k):
    arrs = [unwrap(a) for a in arrs]
    if not builtins.any(has_sym(a) for a in arrs):
        return np.concatenate(arrs, axis=axis)
    os = []
    for a in arrs:
        o = obj_array(a)
        if o is None:
            o = np.asarray(a).astype(object)
        os.append(o)
    kinds = [arr_kind(a) if builtins.all(kind_of_elem(e) != "O" for e in o.ravel()) else "O"
             for a, o in zip(arrs, os)]
    r = np.concatenate(os, axis=axis)
    k2 = promote(*kinds)
    return wrap(r, k2)


def stack(arrs, axis=0, **k):
    arrs = [unwrap(a) for a in arrs]
    if not builtins.any(has_sym(a) for a in arrs):
        return np.stack(arrs, axis=axis)
    r = np.stack([obj_array(a) for a in arrs], axis=axis)
    return wrap(r, promote(*[arr_kind(a) for a in arrs]))


def vstack(arrs, **k):
    return concatenate([sarr(a).reshape((1, -1)) if sarr(a).ndim < 2 else sarr(a) for a in arrs], 0)


def hstack(arrs, **k):
    arrs = [sarr(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def column_stack(arrs, **k):
    return concatenate([sarr(a).reshape((-1, 1)) if sarr(a).ndim == 1 else sarr(a) for a in arrs], 1)


def append(a, v, axis=None):
    a, v = sarr(a), sarr(v)
    if axis is None:
        return concatenate([a.reshape((-1,)), v.reshape((-1,))])
    return concatenate([a, v], axis)


def broadcast_to(a, shape, subok=False):
    a = sarr(a)
    return wrap(np.array(np.broadcast_to(a.view(np.ndarray), shape)), a.ldt)


def _without_nan(f, zero=None):
    def g(a, axis=None, **k):
        a = sarr(a)
        flat = [_c(v) for v in a.ravel_list()] if hasattr(a, "ravel_list") else []
        bad = [bool(k_isnan(v)) for v in flat]
        if builtins.any(bad):
            if axis is None and zero is None:
                a = sarr([v for v, b in zip(flat, bad) if not b])
            elif zero is not None:
                a = where3(sarr(bad).reshape(a.shape), zero, a)
            else:
                raise SymError("NaN reduction along an axis")
        return f(a, axis=axis, **k)
    return g


nanmax, nanmin, nansum = _without_nan(amax), _without_nan(amin), _without_nan(sum_, 0.0)
nanmean, nanprod = _without_nan(mean), _without_nan(prod, 1.0)
nanmedian, nanstd = _without_nan(median), _without_nan(std)


def copyto(dst, src, casting=None, where=True):
    dst = unwrap(dst)
    if where is True:
        dst[...] = src
    else:
        dst[...] = where3(np.broadcast_to(obj_array(where), dst.shape), src, dst)


def isin(a, b, **k):
    b = sarr(b).ravel_list()
    return emap(lambda x: b_or(*[x == y for y in b]) if b else False, "b", a)


def logical_reduce(name):
    return lambda *a: a


def _strarr(vals, shape):
    from symcel import strs
    return strs.StrArr(vals, shape)


# ---- linalg ----------------------------------------------------------------

def norm(x, ord=None, axis=None, keepdims=False):
    x = sarr(x)
    if ord not in (None, 2, "fro"):
        if ord == 1:
            return reduce_("add", abs(x), axis, keepdims)
        if ord == math.inf:
            return reduce_("maximum", abs(x), axis, keepdims)
        raise SymError("norm ord")
    s = reduce_("add", x * x, axis, keepdims)
    return emap(UN["sqrt"][0], "f", s)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return _c(m[0, 0])
    if n == 2:
        return _c(m[0, 0]) * _c(m[1, 1]) - _c(m[0, 1]) * _c(m[1, 0])
    t = 0
    for j in range(n):
        e = _c(m[0, j])
        if not isinstance(e, Sym) and e == 0:
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = t + e * _det(minor) * (-1 if j % 2 else 1)
    return t


def det(a):
    a = sarr(a)
    if a.ndim == 2:
        return _det(a.view(np.ndarray))
    return sarr([det(a[i]) for i in range(a.shape[0])], "f")


def _inv2(m):
    n = m.shape[0]
    if not builtins.any(isinstance(v, Sym) for v in m.ravel()):
        return np.linalg.inv(m.astype(float)).astype(object)
    d = _det(m)
    r = np.empty((n, n), dtype=object)
    if n == 1:
        r[0, 0] = k_div(1, m[0, 0])
        return r
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, i, 0), j, 1)
            r[j, i] = k_div(_det(minor) * (-1 if (i + j) % 2 else 1), d)
    return r


def inv(a):
    a = sarr(a)
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    if a.ndim == 2:
        return wrap(_inv2(a.view(np.ndarray)), "f")
    r = np.empty(a.shape, dtype=object)
    for i in range(a.shape[0]):
        r[i] = inv(a[i]).view(np.ndarray)
    return wrap(r, "f")


def solve(a, b):
    a, b = sarr(a), sarr(b)
    if a.ndim == 3 and b.ndim == 2:
        b = b[..., None]
        return matmul(inv(a), b)[..., 0]
    return matmul(inv(a), b)


# arguments that change nothing about the values
_PLAIN = {"order", "subok", "like", "casting", "kind", "device", "stable", "copy", "optimize"}
_USED = {"full_like": {"shape"}, "zeros_like": {"shape"}, "ones_like": {"shape"}, "empty_like": {"shape"},
         "clip": {"a_min", "a_max", "out"}, "concatenate": {"out"}, "frompyfunc": None, "matmul": set()}
_NEUTRAL = {"sum_": 0, "prod": 1, "any_": False, "all_": True}


def _strict(f):
    """Refuse what an encoding would silently drop; masks and initial values
    of reductions."""
    names = {n for n, p in inspect.signature(f).parameters.items() if p.kind != p.VAR_KEYWORD}
    used = _USED.get(f.__name__, set())

    def given(v):
        return v is not None and v is not np._NoValue

    @functools.wraps(f)
    def g(*a, **k):
        mask, first = k.pop("where", None), k.pop("initial", None)
        for n, v in k.items():
            if given(v) and n not in used and (n == "out" or n not in names and n not in _PLAIN
                                                   and not (n == "dtype" and kind_of_dtype(v) == "f")):
                raise SymError("%s of numpy's %s" % (n, f.__name__))
        if given(mask) and mask is not True:
            if f.__name__ in _NEUTRAL:
                a = (where(mask, a[0], _NEUTRAL[f.__name__]),) + a[1:]
            elif f.__name__ in ("amax", "amin") and given(first):
                a = (where(mask, a[0], first),) + a[1:]
            else:
                raise SymError("where of numpy's %s" % f.__name__)
        r = f(*a, **k)
        if given(first):
            r = {"amax": maximum_, "amin": minimum_, "sum_": lambda x, y: x + y,
                 "prod": lambda x, y: x * y}[f.__name__](r, first)
        return r
    return g


def maximum_(a, b):
    return np.maximum(a, b) if isinstance(a, np.ndarray) else where(sarr(a) >= sarr(b), a, b)[()]


def minimum_(a, b):
    return np.minimum(a, b) if isinstance(a, np.ndarray) else where(sarr(a) <= sarr(b), a, b)[()]


for _n, _f in list(globals().items()):
    if (inspect.isfunction(_f) and _f.__module__ == __name__ and _n not in ("frompyfunc", "_strict", "nditer") and builtins.any(
            p.kind == p.VAR_KEYWORD for p in inspect.signature(_f).parameters.values())):
        globals()[_n] = _strict(_f)


FUNCS = {
    np.where: where, np.nonzero: nonzero, np.argwhere: argwhere,
    np.flatnonzero: flatnonzero, np.count_nonzero: count_nonzero,
    np.any: any_, np.all: all_, np.sum: sum_, np.prod: prod,
    np.max: amax, np.min: amin, np.amax: amax, np.amin: amin,
    np.mean: mean, np.average: average, np.var: var_, np.std: std,
    np.median: median, np.ptp: ptp, np.cumsum: cumsum, np.diff: diff,
    np.tensordot: tensordot, np.nanmax: nanmax, np.nanmin: nanmin,
    np.nansum: nansum, np.nanmean: nanmean, np.nanprod: nanprod,
    np.nanmedian: nanmedian, np.nanstd: nanstd, np.copyto: copyto, np.cross: cross, np.dot: dot, np.inner: inner, np.vdot: vdot,
    np.outer: outer, np.trace: trace, np.einsum: einsum, np.clip: clip,
    np.around: around, np.round: around, np.isclose: isclose,
    np.allclose: allclose, np.array_equal: array_equal, np.sort: sort,
    np.argsort: argsort, np.argmax: argmax, np.argmin: argmin,
    np.searchsorted: searchsorted, np.interp: interp,
    np.nan_to_num: nan_to_num, np.select: select,
    np.concatenate: concatenate, np.stack: stack, np.vstack: vstack,
    np.hstack: hstack, np.column_stack: column_stack, np.append: append,
    np.broadcast_to: broadcast_to, np.isin: isin, np.copy: copy_,
    np.full_like: full_like, np.zeros_like: zeros_like,
    np.ones_like: ones_like, np.empty_like: empty_like,
    np.linspace: linspace,
    np.linalg.norm: norm, np.linalg.inv: inv, np.linalg.det: det,
    np.linalg.solve: solve,
}


def _delegating(name, real):
    """Real numpy function that must first see unwrapped buffers, and whose
    result (when float) should be assignable with symbolic values."""
    def f(*a, **k):
        a = tuple(unwrap(x) if not isinstance(x, (list, tuple)) else
                  type(x)(unwrap(y) for y in x) for x in a)
        if name in FUNC_BY_NAME and builtins.any(
                has_sym(x) or isinstance(x, types.GeneratorType) for x in a):
            return FUNC_BY_NAME[name](*a, **k)
        return real(*a, **k)
    f.__name__ = name
    return f


FUNC_BY_NAME = {}
for _f, _g in FUNCS.items():
    FUNC_BY_NAME[_f.__name__] = _g
FUNC_BY_NAME["copyto"] = copyto
FUNC_BY_NAME.update(max=amax, min=amin, amax=amax, amin=amin, round=around,
                    around=around)


def ufunc_at(ufunc, a, idx, *v):
    a, v = unwrap(a), [unwrap(x) for x in v]
    if not has_sym(a) and not builtins.any(has_sym(x) for x in v):
        return ufunc.at(a, idx, *v)
    idx = clean_key(idx)
    pos = np.arange(a.size).reshape(a.shape)[idx]
    v = [np.broadcast_to(obj_array(x), pos.shape) for x in v]
    flat = a.reshape((-1,))
    for i in np.ndindex(*pos.shape):
        flat[int(pos[i])] = array_ufunc(ufunc, "__call__", (flat[int(pos[i])],) + tuple(x[i] for x in v), {})
    a[...] = flat.reshape(a.shape)


def nditer(a, *r, **k):
    if not has_sym(a):
        return np.nditer(unwrap(a), *r, **k)
    if r or k:
        raise SymError("nditer with options")
    return iter([x for x in sarr(a).reshape((-1,))])


class _NPModule(types.ModuleType):
    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            def u(*a, **k):
                a = tuple(unwrap(x) for x in a)
                if builtins.any(has_sym(x) for x in a):
                    return array_ufunc(real, "__call__", a, k)
                return real(*a, **k)
            u.__name__ = name
            u.at = lambda x, i, *v: ufunc_at(real, x, i, *v)
            u.nin, u.nout, u.identity = real.nin, real.nout, real.identity
            u.reduce = lambda x, *a, **k: (
                array_ufunc(real, "reduce", (x,), k) if has_sym(x) else
                real.reduce(unwrap(x), *a, **k))
            u.outer = lambda x, y, **k: (
                array_ufunc(real, "outer", (x, y), k) if has_sym((x, y)) else
                real.outer(unwrap(x), unwrap(y), **k))
            u.accumulate = lambda x, *a, **k: (
                array_ufunc(real, "accumulate", (x,), k) if has_sym(x) else
                real.accumulate(unwrap(x), *a, **k))
            setattr(self, name, u)
            return u
        if callable(real) and not isinstance(real, type) and hasattr(real, "__name__"):
            f = _delegating(name, real)
            setattr(self, name, f)
            return f
        return real


NP = _NPModule("numpy")
NP.__dict__.update(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray,
    zeros=zeros, ones=ones, empty=empty, full=full, eye=eye, identity=eye,
    zeros_like=zeros_like, ones_like=ones_like, full_like=full_like,
    empty_like=empty_like, copy=copy_, linspace=linspace, where=where,
    frompyfunc=frompyfunc, vectorize=Vectorize,
    pi=np.pi, newaxis=None, nan=NAN, inf=core.INF, ndarray=np.ndarray,
    float64=None, __symcel__=True)


def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or bool(np.isscalar(x))


NP.isscalar = isscalar
NP.nditer = nditer


class _F64(type(np.float64)):
    pass


def _scalar_type(real, kind):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __call__(cls, x=0):
            x = unwrap(x)
            if isinstance(x, (Sym, SymBool)):
                return cast_elem(x, kind)
            if isinstance(x, (np.ndarray, list, tuple)):
                return array(x, kind)
            return real(x)

    return Meta(real.__name__, (), {"__symcel_kind__": kind, "__symcel_real__": real})


NP.float64 = _scalar_type(np.float64, "f")
NP.float_ = NP.double = NP.float64
NP.int64 = _scalar_type(np.int64, "i")
NP.int_ = NP.int64
NP.bool_ = _scalar_type(np.bool_, "b")

_LA = types.ModuleType("numpy.linalg")
for _n in dir(np.linalg):
    if not _n.startswith("__"):
        setattr(_LA, _n, getattr(np.linalg, _n))


def _la(name, mine):
    real = getattr(np.linalg, name)

    def f(*a, **k):
        if builtins.any(has_sym(x) for x in a):
            return mine(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    setattr(_LA, name, f)


for _n, _m in (("norm", norm), ("inv", inv), ("det", det), ("solve", solve)):
    _la(_n, _m)
NP.linalg = _LA


def get_data(o):
    """The attribute access `o.data` of the code under test."""
    if isinstance(o, SArr):
        return MemView(o)
    if isinstance(o, Sym):
        return MemView(sarr(o))
    return o.data


def get_dtype(o):
    if isinstance(o, SArr):
        return np.dtype({"f": float, "i": int, "b": bool, "O": object}[o.ldt])
    if isinstance(o, Sym):
        return np.dtype(int if o.isint else float)
    return o.dtype
