"""symcel.core: symbolic real/integer arithmetic for executing celest's Python
source symbolically.

A `Sym` is a polynomial with rational coefficients over *atoms*.  Atoms are the
harness's input variables and the results of non-polynomial operations (sin,
cos, sqrt, reciprocal, floor, inverse trigonometry, exp); each atom carries the
axioms that define it.  Comparisons give `SymBool` formulas; using one as a
Python truth value forks the execution (see `Path.decide`).  z3 decides which
branches are feasible and, at the end, whether an assertion can fail.

Arithmetic is exact: floats that appear as constants in the source are taken as
the rationals they denote, and operations between two concrete floats are
performed in floating point exactly as CPython would.
"""

from fractions import Fraction
import math
import time
import z3

INF = float("inf")


class SymError(Exception):
    """The engine cannot model what the code did (never a verdict)."""


class PathAbort(BaseException):
    """The path is infeasible or its assumptions failed."""


class Budget(SymError):
    pass


# --------------------------------------------------------------------------
# Atoms

class Atom:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "isint", "zv",
                 "lm", "rest", "lc", "extra", "deps")

    def __init__(self, kind, name, args, lo, hi, isint):
        self.id = len(ATOMS)
        self.kind, self.name, self.args = kind, name, args
        self.lo, self.hi, self.isint = lo, hi, isint
        nm = "%s!%d" % (name, self.id)
        self.zv = z3.Int(nm) if isint else z3.Real(nm)
        self.lm = self.rest = self.lc = None
        self.extra = None
        self.deps = None
        ATOMS.append(self)

    def __repr__(self):
        return self.name if self.kind == "var" else "%s#%d" % (self.kind, self.id)


ATOMS = []
ATOM_KEYS = {}
RULED = set()          # ids of atoms with a rewriting rule
_REDUCE_CACHE = {}


def reset():
    ATOMS.clear()
    ATOM_KEYS.clear()
    RULED.clear()
    FUZZY.clear()
    FUZZY_SQRT.clear()
    _REDUCE_CACHE.clear()
    _LIN_CACHE.clear()
    _RAW_CACHE.clear()
    _BOUND_CACHE.clear()


def mono_mul(a, b):
    """Monomials are tuples of (atom id, exponent) with decreasing ids."""
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] > y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def mono_div(m, d):
    """m / d or None."""
    md = dict(m)
    for i, e in d:
        have = md.get(i, 0)
        if have < e:
            return None
        if have == e:
            del md[i]
        else:
            md[i] = have - e
    return tuple(sorted(md.items(), reverse=True))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, other):
        return self.t == other.t

    def const(self):
        t = self.t
        if not t:
            return Fraction(0)
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def lead(self):
        return max(self.t)

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m in sorted(self.t, reverse=True):
            c = self.t[m]
            s = "*".join(repr(ATOMS[i]) + ("" if e == 1 else "^%d" % e)
                         for i, e in m)
            cs = str(c) if c.denominator < 10 ** 6 else repr(float(c))
            parts.append((cs + "*" + s) if s else cs)
            if len(parts) > 12:
                parts.append("... (%d terms)" % len(self.t))
                break
        return " + ".join(parts)


def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


def patom(a, e=1):
    return Poly({((a.id, e),): Fraction(1)})


def padd(p, q, k=1):
    """p + k q"""
    t = dict(p.t)
    for m, c in q.t.items():
        v = t.get(m, 0) + k * c
        if v:
            t[m] = v
        elif m in t:
            del t[m]
    return Poly(t)


def pscale(p, k):
    if k == 1:
        return p
    if not k:
        return Poly({})
    return Poly({m: c * k for m, c in p.t.items()})


MAX_TERMS = 60000


def pmul(p, q):
    c = p.const()
    if c is not None:
        return pscale(q, c)
    c = q.const()
    if c is not None:
        return pscale(p, c)
    if len(p.t) * len(q.t) > 4000000:
        raise Budget("polynomial product too large")
    acc = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            v = acc.get(m)
            acc[m] = c1 * c2 if v is None else v + c1 * c2
    return _normal(acc)


def _normal(acc):
    out = {}
    for m, c in acc.items():
        if not c:
            continue
        r = None
        for i, e in m:
            if i in RULED:
                r = reduce_mono(m)
                break
        if r is None:
            v = out.get(m)
            v = c if v is None else v + c
            if v:
                out[m] = v
            elif m in out:
                del out[m]
        else:
            for m2, c2 in r.t.items():
                v = out.get(m2, 0) + c * c2
                if v:
                    out[m2] = v
                elif m2 in out:
                    del out[m2]
    if len(out) > MAX_TERMS:
        raise Budget("polynomial too large (%d terms)" % len(out))
    return Poly(out)


_depth = [0]


def reduce_mono(m):
    """Normal form of a monomial as a Poly."""
    r = _REDUCE_CACHE.get(m)
    if r is not None:
        return r
    _depth[0] += 1
    if _depth[0] > 300:
        _depth[0] = 0
        raise Budget("rewriting too deep")
    res = None
    for i, e in m:
        if i not in RULED:
            continue
        a = ATOMS[i]
        if a.kind in ("sin", "sqrt", "sgn"):
            if e >= 2:
                rest = tuple(x if x[0] != i else (i, e - 2) for x in m)
                rest = tuple(x for x in rest if x[1])
                if a.kind == "sin":
                    c = ATOMS[a.extra]
                    sq = Poly({(): Fraction(1), ((c.id, 2),): Fraction(-1)})
                elif a.kind == "sqrt":
                    sq = a.args[0]
                else:
                    sq = pconst(1)
                res = pmul(reduce_mono(rest), sq)
                break
        elif a.kind == "inv":
            q = mono_div(m, a.lm)
            if q is not None and a.id in dict(q):
                # v * LM -> (1 - v * rest) / lc
                q2 = mono_div(q, ((a.id, 1),))
                first = reduce_mono(q2)
                second = pmul(reduce_mono(q), a.rest)
                res = pscale(padd(first, second, -1), 1 / a.lc)
                break
    if res is None:
        res = Poly({m: Fraction(1)})
    _depth[0] = max(0, _depth[0] - 1)
    if len(_REDUCE_CACHE) > 400000:
        _REDUCE_CACHE.clear()
    _REDUCE_CACHE[m] = res
    return res


# ---- interval bounds -------------------------------------------------------

_BOUND_CACHE = {}


def _imul(a, b):
    al, ah = a
    bl, bh = b
    if None in (al, ah, bl, bh):
        # keep the sign information only
        if al is not None and al >= 0 and bl is not None and bl >= 0:
            return (al * bl, None if (ah is None or bh is None) else ah * bh)
        if (al, ah) == (0, 0) or (bl, bh) == (0, 0):
            return (0, 0)
        return (None, None)
    v = (al * bl, al * bh, ah * bl, ah * bh)
    return (min(v), max(v))


def _ipow(a, e):
    lo, hi = a
    if e % 2 == 0:
        if lo is not None and lo >= 0:
            return (lo ** e, None if hi is None else hi ** e)
        if hi is not None and hi <= 0:
            return (hi ** e, None if lo is None else lo ** e)
        if lo is None or hi is None:
            return (0, None)
        return (0, max(lo ** e, hi ** e))
    return (None if lo is None else lo ** e, None if hi is None else hi ** e)


def mono_bounds(m):
    b = _BOUND_CACHE.get(m)
    if b is None:
        b = (1, 1)
        for i, e in m:
            a = ATOMS[i]
            b = _imul(b, _ipow((a.lo, a.hi), e))
        _BOUND_CACHE[m] = b
    return b


def pbounds(p):
    lo = hi = Fraction(0)
    for m, c in p.t.items():
        l, h = mono_bounds(m)
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + c * l
        hi = None if (hi is None or h is None) else hi + c * h
        if lo is None and hi is None:
            return (None, None)
    return (lo, hi)


def all_even_nonneg(p):
    """Manifestly nonnegative: positive coefficients, even or nonneg atoms."""
    for m, c in p.t.items():
        if c < 0:
            return False
        l, _ = mono_bounds(m)
        if l is None or l < 0:
            return False
    return True


# --------------------------------------------------------------------------
# Conversion helpers

def is_num(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.floating, np.integer,
                          np.bool_))


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    # the shortest decimal that denotes the float: 0.001 is 1/1000
    return Fraction(repr(x))


def to_poly(x):
    if isinstance(x, Sym):
        return x.p
    if isinstance(x, SymBool):
        return pconst(1 if bool(x) else 0)
    return pconst(to_frac(x))


def mk(p, isint=False):
    return Sym(p, isint)


def lift(x):
    """Concrete number -> Sym (used by tests of the engine)."""
    return Sym(to_poly(x), isinstance(x, int))


_OTHER = (int, float, Fraction)


def _nonfinite(x):
    return isinstance(x, float) and (x != x or x in (INF, -INF))


class Sym:
    """A symbolic number."""
    __slots__ = ("p", "isint")
    __array_priority__ = 1000

    def __init__(self, p, isint=False):
        self.p = p
        self.isint = isint

    # -- numpy hook
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symcel import nps
        return nps.array_ufunc(ufunc, method, inputs, kw)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    # attributes of numpy scalars
    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def astype(self, t):
        from symcel import nps
        return nps.cast_elem(self, nps.kind_of_dtype(t))

    @property
    def real(self):
        return self

    def __repr__(self):
        return "<Sym %r>" % (self.p,)

    def __str__(self):
        return "\u27e6%r\u27e7" % (self.p,)

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        return hash(self.p)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return Sym(pconst(1 if bool(o) else 0), True)
        if isinstance(o, _OTHER) or is_num(o):
            if isinstance(o, bool):
                return Sym(pconst(int(o)), True)
            of = o
            if not isinstance(o, (int, Fraction)):
                of = float(o) if not isinstance(o, float) else o
                import numpy as np
                if isinstance(o, np.integer):
                    return Sym(pconst(int(o)), True)
                if _nonfinite(of):
                    return of
            return Sym(pconst(to_frac(of)), isinstance(o, int))
        return None

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return o
        return Sym(padd(self.p, o.p), self.isint and o.isint)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return -o
        return Sym(padd(self.p, o.p, -1), self.isint and o.isint)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return o
        return Sym(padd(o.p, self.p, -1), self.isint and o.isint)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):      # inf / nan
            if o != o:
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        return Sym(pmul(self.p, o.p), self.isint and o.isint)

    __rmul__ = __mul__

    def __neg__(self):
        return Sym(pscale(self.p, -1), self.isint)

    def __pos__(self):
        return self

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            return 0.0 if o == o else o
        return div(self, o)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if not isinstance(o, Sym):
            if o != o:
                return o
            return o if self > 0 else -o
        return div(o, self)

    def __floordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        r = floor(div(self, o))
        return Sym(to_poly(r), self.isint and o.isint)

    def __rfloordiv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o.__floordiv__(self)

    def __mod__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise SymError("string formatting of a symbolic value")
        o = self._co(o)
        if o is None:
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        o = self._co(o)
        return o // self, o % self

    def __pow__(self, o, m=None):
        if isinstance(o, Sym):
            c = o.p.const()
            if c is None:
                # x ** n for a symbolic integer n: fork over n's values
                if o.isint:
                    o = o.__index__()
                else:
                    raise SymError("symbolic exponent")
            else:
                o = c
        if isinstance(o, SymBool):
            o = int(bool(o))
        o = to_frac(o)
        if o.denominator == 1:
            return ipow(self, int(o))
        if o.denominator == 2:
            return ipow(sqrt(self), int(o.numerator))
        raise SymError("fractional power %s" % o)

    def __rpow__(self, o):
        c = self.p.const()
        if c is not None:
            return o ** (int(c) if c.denominator == 1 else float(c))
        if self.isint:
            return o ** self.__index__()
        if o > 0 and not isinstance(o, Sym):
            return exp(self * math.log(o))
        raise SymError("symbolic exponent")

    # -- comparisons
    def _cmp(self, o, op):
        oo = self._co(o)
        if oo is None:
            return NotImplemented
        if not isinstance(oo, Sym):
            if oo != oo:
                return op == "ne"
            big = oo > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big,
                    "eq": False, "ne": True}[op]
        d = padd(self.p, oo.p, -1)
        return compare(d, op)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, "eq")

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, "ne")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise SymError("float() of a symbolic value")

    def __int__(self):
        c = self.p.const()
        if c is not None:
            return int(c)
        if self.isint:
            return self.__index__()
        raise SymError("int() of a symbolic value")

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        if not self.isint:
            raise TypeError("only integers can be used as an index")
        return PATH[0].concretize(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, n=None):
        return round_half_even(self, n)

    def is_integer(self):
        return floor(self) == self

    # bit operations on ints are not modelled
    def conjugate(self):
        return self


def compare(d, op):
    """d op 0"""
    c = d.const()
    if c is not None:
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0,
                "eq": c == 0, "ne": c != 0}[op]
    lo, hi = pbounds(d)
    if op == "gt":
        return compare(pscale(d, -1), "lt")
    if op == "ge":
        return compare(pscale(d, -1), "le")
    if op == "lt":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == "le":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    else:
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == "ne"
    # scale: leading coefficient +-1 (keeps the sign)
    k = abs(d.t[d.lead()])
    d = pscale(d, 1 / k)
    if op in ("eq", "ne"):
        if d.t[d.lead()] < 0:
            d = pscale(d, -1)
        f = ("eq", d)
        return SymBool(f) if op == "eq" else SymBool(("not", f))
    return SymBool((op, d))


class SymBool:
    __slots__ = ("f",)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symcel import nps
        return nps.array_ufunc(ufunc, method, inputs, kw)

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return PATH[0].decide(self.f)

    def __hash__(self):
        return hash(self.f)

    def __repr__(self):
        return "<SymBool %r>" % (self.f,)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return b_not(self ^ o)
        return int(self) == o

    def __ne__(self, o):
        return b_not(self == o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __neg__(self):
        return -int(self)

    def __lt__(self, o):
        return int(self) < o

    def __gt__(self, o):
        return int(self) > o

    def __le__(self, o):
        return int(self) <= o

    def __ge__(self, o):
        return int(self) >= o

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self


def fml(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, Sym):
        return fml(x != 0)
    return bool(x)


def wrapf(f):
    return f if isinstance(f, bool) else SymBool(f)


def f_not(f):
    if isinstance(f, bool):
        return not f
    if f[0] == "not":
        return f[1]
    if f[0] == "lt":
        return ("le", pscale(f[1], -1))
    if f[0] == "le":
        return ("lt", pscale(f[1], -1))
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def b_not(a):
    return wrapf(f_not(fml(a)))


def b_and(*a):
    return wrapf(f_and(*[fml(x) for x in a]))


def b_or(*a):
    return wrapf(f_or(*[fml(x) for x in a]))


def b_implies(a, b):
    return b_or(b_not(a), b)


# --------------------------------------------------------------------------
# Non-polynomial operations

def get_atom(kind, key, args, lo=None, hi=None, isint=False, name=None):
    k = (kind, key)
    a = ATOM_KEYS.get(k)
    if a is None:
        a = Atom(kind, name or kind, args, lo, hi, isint)
        ATOM_KEYS[k] = a
        return a, True
    return a, False


def var(name, lo=None, hi=None, isint=False):
    lo = None if lo is None else to_frac(lo)
    hi = None if hi is None else to_frac(hi)
    a, _ = get_atom("var", (name, lo, hi, isint), (), lo, hi, isint, name)
    return Sym(patom(a), isint)


def ipow(x, n):
    if n == 0:
        return 1 if x.isint else 1.0
    if n < 0:
        return div(lift(1), ipow(x, -n))
    p = x.p
    r = p
    # square and multiply
    result = None
    base = p
    while n:
        if n & 1:
            result = base if result is None else pmul(result, base)
        n >>= 1
        if n:
            base = pmul(base, base)
    return Sym(result, x.isint)


def div(a, b, np_semantics=False):
    if not isinstance(a, Sym):
        a = lift(a)
    if not isinstance(b, Sym):
        b = lift(b)
    c = b.p.const()
    if c is not None:
        if c == 0:
            return _div_zero(a, np_semantics)
        return Sym(pscale(a.p, 1 / c), False)
    z = compare(b.p, "eq")
    if z is not False and bool(z):
        return _div_zero(a, np_semantics)
    return Sym(pmul(a.p, inv(b.p)), False)


def _div_zero(a, np_semantics):
    if not np_semantics:
        raise ZeroDivisionError("division by zero")
    if a > 0:
        return INF
    if a < 0:
        return -INF
    return float("nan")


def inv(p):
    """Poly for 1/p (p is nonzero on the current path)."""
    c = p.const()
    if c is not None:
        return pconst(1 / c)
    # common monomial factor
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) for i, e in common.items() if i in d}
        if not common:
            break
    out = pconst(1)
    if common:
        cm = tuple(sorted(common.items(), reverse=True))
        p = Poly({mono_div(m, cm): c for m, c in p.t.items()})
        for i, e in cm:
            base = _inv_atom_poly(ATOMS[i])
            for _ in range(e):
                out = pmul(out, base)
    c = p.const()
    if c is not None:
        return pscale(out, 1 / c)
    return pmul(out, _inv_multi(p))


def _inv_atom_poly(a):
    if a.kind == "sqrt":
        return pmul(patom(a), inv(a.args[0]))
    if a.kind == "sgn":
        return patom(a)
    if a.kind == "inv":
        return a.args[0]
    return _inv_multi(patom(a))


def _inv_multi(p):
    lm = p.lead()
    lc = p.t[lm]
    p = pscale(p, 1 / lc)
    lo, hi = pbounds(p)
    nlo = nhi = None
    if all_even_nonneg(p):
        nlo = Fraction(0)
    if lo is not None and lo > 0:
        nhi = 1 / lo
        nlo = 1 / hi if hi is not None else Fraction(0)
    elif hi is not None and hi < 0:
        nlo = 1 / hi
        nhi = 1 / lo if lo is not None else Fraction(0)
    a, new = get_atom("inv", p, (p,), nlo, nhi)
    if new:
        rest = Poly({m: c for m, c in p.t.items() if m != lm})
        a.lm, a.lc, a.rest = lm, Fraction(1), rest
        RULED.add(a.id)
        _REDUCE_CACHE.clear()
    return pscale(patom(a), 1 / lc)


def floor(x):
    """Integer floor; an exact Sym with isint."""
    if not isinstance(x, Sym):
        return math.floor(x)
    c = x.p.const()
    if c is not None:
        return math.floor(c)
    if x.isint:
        return x
    # split off the integer part of the expression
    ip, rp = {}, {}
    for m, cf in x.p.t.items():
        if m == ():
            fl = math.floor(cf)
            if fl:
                ip[m] = Fraction(fl)
            if cf - fl:
                rp[m] = cf - fl
        elif cf.denominator == 1 and all(ATOMS[i].isint for i, _ in m):
            ip[m] = cf
        else:
            rp[m] = cf
    if not rp:
        return Sym(x.p, True)
    if len(rp) == 1 and () in rp:
        return Sym(Poly(ip), True)
    r = Poly(rp)
    lo, hi = pbounds(r)
    lo = None if lo is None else Fraction(math.floor(lo))
    hi = None if hi is None else Fraction(math.floor(hi))
    if lo is not None and lo == hi:
        return Sym(padd(Poly(ip), pconst(lo)), True)
    a, _ = get_atom("floor", r, (r,), lo, hi, True)
    return Sym(padd(Poly(ip), patom(a)), True)


def trunc(x):
    if not isinstance(x, Sym):
        return math.trunc(x)
    if x.isint:
        return x
    if x >= 0:
        return floor(x)
    return -floor(-x)


def round_half_even(x, n=None):
    """round(): nearest, ties to even, as an exact integer (n digits)."""
    k = 10 ** (n or 0)
    y = x * k
    q = floor(y + Fraction(1, 2))
    # tie: y + 1/2 is the integer q -> pick the even one
    if isinstance(q, Sym) or isinstance(y, Sym):
        tie = (y + Fraction(1, 2)) == q
        if tie is not False and not isinstance(tie, bool):
            if bool(tie):
                odd = q % 2
                if bool(odd == 1):
                    q = q - 1
        elif tie is True and bool(q % 2 == 1):
            q = q - 1
    if not isinstance(q, Sym):
        q = lift(int(q))
    if n is None or n == 0 and False:
        return Sym(q.p, True)
    return Sym(pscale(q.p, Fraction(1, k)), False)


def mod(a, b):
    """Python's a % b."""
    if not isinstance(a, Sym):
        a = lift(a)
    bb = b.p.const() if isinstance(b, Sym) else to_frac(b)
    if bb is None:
        q = floor(div(a, b))
        return Sym(padd(a.p, pmul(to_poly(q), b.p), -1), a.isint and b.isint)
    if bb == 0:
        raise ZeroDivisionError("modulo by zero")
    # drop multiples of bb that are integer-valued, e.g. (x % 360) % 360
    q = floor(Sym(pscale(a.p, 1 / bb), False))
    isint = a.isint and (bb.denominator == 1)
    r = padd(a.p, pscale(to_poly(q), bb), -1)
    return Sym(r, isint)


def sqrt(x):
    if not isinstance(x, Sym):
        if is_num(x):
            return math.sqrt(x)
        raise SymError("sqrt of %r" % (x,))
    p = x.p
    c = p.const()
    if c is not None:
        return _sqrt_const(c)
    if not all_even_nonneg(p):
        neg = compare(p, "lt")
        if neg is not False and bool(neg):
            return _undefined("sqrt of a negative number")
    # 1 - cos^2 = sin^2
    if len(p.t) == 2 and p.t.get((), 0) == 1:
        (m,) = [m for m in p.t if m]
        if len(m) == 1 and m[0][1] == 2 and p.t[m] == -1:
            a = ATOMS[m[0][0]]
            if a.kind == "cos":
                s = ATOM_KEYS.get(("sin", a.args[1]))
                if s is not None:
                    return abs(Sym(patom(s)))
    # monomial perfect squares
    if len(p.t) == 1:
        (m, cf), = p.t.items()
        if all(e % 2 == 0 for _, e in m):
            r = _sqrt_const(cf)
            h = Sym(Poly({tuple((i, e // 2) for i, e in m): Fraction(1)}))
            return abs(h) * r
    else:
        h = poly_sqrt(p)
        if h is not None:
            return abs(Sym(h))
    k = Fraction(1)
    c0 = p.t.get((), 0)
    if c0 > 0 and all(ATOMS[i].kind in ("sin", "cos") for i in p.atoms()):
        # bounded argument: unit constant term, and coefficients that agree
        # to within rounding are identified
        k = _sqrt_const(c0)
        p = pscale(p, 1 / c0)
        if (pbounds(p)[0] or 0) > Fraction(1, 1000):
            known = FUZZY_SQRT.setdefault(frozenset(p.t), [])
            for q in known:
                if all(abs(p.t[m] - q.t[m]) <= SQRT_TOL for m in p.t):
                    p = q
                    break
            else:
                known.append(p)
        return Sym(pscale(patom(_sqrt_atom(p)), k))
    # canonical scale: leading coefficient over its largest square factor
    lcf = p.t[p.lead()]
    sq = _exact_sqrt(abs(lcf))
    if sq is not None and sq != 1:
        k = sq
        p = pscale(p, 1 / (sq * sq))
    return Sym(pscale(patom(_sqrt_atom(_same_sqrt(p))), k))


def _same_sqrt(p):
    """An earlier argument whose coefficients agree to rounding, or p."""
    if len(p.t) < 2 or len(p.t) > 200:
        return p
    known = FUZZY_SQRT.setdefault(("rel", frozenset(p.t)), [])
    for q in known:
        if all(abs(p.t[m] - q.t[m]) <= SQRT_REL * abs(q.t[m]) for m in p.t):
            return q
    known.append(p)
    return p


def poly_sqrt(p):
    """The square root of p as a polynomial, or None (small p only)."""
    if len(p.t) > 66:
        return None
    rem = p
    lead = rem.lead()
    if any(e % 2 for _, e in lead):
        return None
    lc = _exact_sqrt(rem.t[lead]) if rem.t[lead] > 0 else None
    if lc is None:
        return None
    if any(i in RULED for m in p.t for i, _ in m):
        return None
    head = tuple((i, e // 2) for i, e in lead)
    root = Poly({head: lc})
    rem = padd(rem, pmul(root, root), -1)
    n = 0
    while rem.t:
        n += 1
        if n > 12:
            return None
        m = rem.lead()
        q = mono_div(m, head)
        if q is None:
            return None
        term = Poly({q: rem.t[m] / (2 * lc)})
        rem = padd(rem, pmul(term, padd(pscale(root, 2), term)), -1)
        root = padd(root, term)
        if len(root.t) > 12:
            return None
    return root


def _sqrt_atom(p):
    lo, hi = pbounds(p)
    nlo = Fraction(0)
    nhi = None
    if lo is not None and lo > 0:
        nlo = Fraction(math.sqrt(lo)) * Fraction(999999999999, 10 ** 12)
    if hi is not None:
        nhi = Fraction(math.sqrt(hi)) * Fraction(10 ** 12 + 1, 10 ** 12)
    a, new = get_atom("sqrt", p, (p,), nlo, nhi)
    if new:
        RULED.add(a.id)
    return a


def _exact_sqrt(c):
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _sqrt_const(c):
    if c < 0:
        return _undefined("sqrt of a negative number")
    e = _exact_sqrt(c)
    return e if e is not None else Fraction(math.sqrt(c))


NAN = float("nan")


def _undefined(what):
    """numpy yields nan; Python's math raises ValueError."""
    return NAN


# ---- trigonometry ----------------------------------------------------------

DEG = Fraction(180) / Fraction(math.pi)      # degrees per radian (float pi)


def _snap(c):
    """Canonical value of a coefficient that went through float unit factors."""
    f = float(c)
    if f == 0:
        return Fraction(0)
    short = "%.12g" % f
    if len(short.split("e")[0].replace(".", "").lstrip("-0")) <= 9:
        return Fraction(short)
    return Fraction("%.15g" % f)


def canonical_angle(p):
    """Poly (radians) -> canonical poly in degrees, quadrant and sign folded.

    Returns (poly, const_deg) with the multiples of 360*integer dropped.
    """
    t = {}
    for m, c in p.t.items():
        d = _snap(c * DEG)
        if m and all(ATOMS[i].isint for i, _ in m):
            q = d / 360
            if q.denominator == 1:
                continue
        t[m] = d
    t.pop((), None)
    const = p.t.get((), Fraction(0)) * DEG
    const = _snap(const - 360 * math.floor(const / 360)) if abs(const) >= 360 else _snap(const)
    return t, const


FUZZY_SQRT = {}
SQRT_REL = Fraction(1, 10 ** 9)
SQRT_TOL = Fraction(1, 10 ** 11)
FUZZY = {}        # monomials of an angle -> [(coefficients, constant)]
COEF_TOL = Fraction(2, 10 ** 12)
CONST_TOL = Fraction(1, 10 ** 7)


def _identify(t, const):
    """The representative of the angle t + const (degrees)."""
    known = FUZZY.setdefault(frozenset(t), [])
    for t2, c2 in known:
        d = const - c2
        d = d - 360 * round(d / 360)
        if abs(d) <= CONST_TOL and all(abs(t[m] - t2[m]) <= COEF_TOL * abs(t2[m]) for m in t):
            return t2, c2
    known.append((t, const))
    return t, const


INVTRIG = ("acos", "asin", "atan2")


def sincos(x):
    """(sin x, cos x) as Sym / float."""
    if not isinstance(x, Sym):
        return math.sin(x), math.cos(x)
    c = x.p.const()
    if c is not None:
        return math.sin(c), math.cos(c)
    t, const = canonical_angle(x.p)
    # angle = sum(t) + const   (degrees)
    parts = []
    rest = {}
    for m, cf in t.items():
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind in INVTRIG:
            k = cf / _snap(DEG)
            kk = round(k)
            if abs(k - kk) < Fraction(1, 10 ** 9) and 0 < abs(kk) <= 4 and not _opaque(
                    ATOMS[m[0][0]], kk):
                parts.append((ATOMS[m[0][0]], int(kk)))
                continue
        rest[m] = cf
    # fold the constant into a quadrant when it is a multiple of 90 degrees;
    # other constants stay in the angle
    k90 = const / 90
    if k90.denominator == 1:
        quad = int(k90) % 4
        const = Fraction(0)
    else:
        quad = 0
        const = const - 360 * math.floor(const / 360)
        if not rest:
            quad = -1
    if rest:
        s, c = _atom_sincos(rest, const if k90.denominator != 1 else Fraction(0))
    elif k90.denominator == 1:
        s, c = 0, 1
    else:
        s, c = math.sin(math.radians(const)), math.cos(math.radians(const))
        quad = 0
    if quad < 0:
        quad = 0
    for a, k in parts:
        s1, c1 = _invtrig_sincos(a)
        if k < 0:
            s1 = -s1
        for _ in range(abs(k)):
            s, c = s * c1 + c * s1, c * c1 - s * s1
    for _ in range(quad):
        s, c = c, -s
    return s, c


def _opaque(a, k):
    """Option: sin and cos of an arctangent of inputs stay atoms, related to
    its arguments by product lemmas instead of substitution."""
    path = PATH[0]
    if (a.kind != "atan2" or path is None or not path.opts.get("opaque_atan2")):
        return False
    seen, todo = set(), list(a.args[0].atoms() | a.args[1].atoms())
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        b = ATOMS[i]
        if b.kind in ("sin", "cos"):
            return False
        for x in b.args:
            if isinstance(x, Poly):
                todo.extend(x.atoms())
    if path.forced is None and abs(k) == 1:
        s, c = _atom_sincos({((a.id, 1),): _snap(DEG)}, Fraction(0))
        s0, c0 = a.extra
        for f in (s == s0, c == c0):
            if isinstance(f, SymBool):
                path.lemma(f.f)
    return True


def _atom_sincos(t, const):
    lead = max(t)
    neg = t[lead] < 0
    if neg:
        t = {m: -c for m, c in t.items()}
        const = -const
        const = const - 360 * math.floor(const / 360)
        if const == 0:
            const = Fraction(0)
    t, const = _identify(t, const)
    key = (frozenset(t.items()), const)
    arg = Poly(dict(t)) if not const else Poly({**t, (): const})
    # bounds from the range of the angle when it stays inside one quadrant pair
    lo, hi = pbounds(arg)
    clo, chi, slo, shi = -1, 1, -1, 1
    if lo is not None and hi is not None and hi - lo <= 360:
        slo, shi = _trig_range(float(lo), float(hi), 90.0)
        clo, chi = _trig_range(float(lo), float(hi), 0.0)
    ca, new = get_atom("cos", key, (arg, key), Fraction(clo), Fraction(chi))
    sa, new2 = get_atom("sin", key, (arg, key), Fraction(slo), Fraction(shi))
    if new2:
        sa.extra = ca.id
        ca.extra = sa.id
        RULED.add(sa.id)
    s, c = Sym(patom(sa)), Sym(patom(ca))
    return (-s if neg else s), c


def _trig_range(lo, hi, peak):
    """Range of cos(angle - peak) for angle in [lo, hi] degrees."""
    eps = 1e-9
    v = [math.cos(math.radians(lo - peak)), math.cos(math.radians(hi - peak))]
    k = math.ceil((lo - peak) / 360)
    mx = 1.0 if peak + 360 * k <= hi else min(1.0, max(v) + eps)
    k = math.ceil((lo - peak - 180) / 360)
    mn = -1.0 if peak + 180 + 360 * k <= hi else max(-1.0, min(v) - eps)
    return mn, mx


def _invtrig_sincos(a):
    """sin and cos of an inverse-trigonometric atom."""
    if a.kind == "acos":
        arg = Sym(a.args[0])
        return Sym(patom(_sqrt_atom_unsigned(1 - arg * arg))), arg
    if a.kind == "asin":
        arg = Sym(a.args[0])
        return arg, Sym(patom(_sqrt_atom_unsigned(1 - arg * arg)))
    s, c = a.extra
    return s, c


def _sqrt_atom_unsigned(x):
    """sqrt of an expression known to be nonnegative on the path."""
    if not isinstance(x, Sym):
        x = lift(x)
    if x.p.const() is not None:
        # constant: represent as an atom-free value through a fixed atom
        v = _sqrt_const(x.p.const())
        a, _ = get_atom("const", v, (pconst(v),), v, v)
        return a
    return _sqrt_atom(x.p)


def sin(x):
    return sincos(x)[0]


def cos(x):
    return sincos(x)[1]


def tan(x, np_semantics=True):
    s, c = sincos(x)
    if not isinstance(c, Sym):
        return s / c if not isinstance(s, Sym) else s * (1 / Fraction(c))
    z = compare(c.p, "eq")
    if z is not False and bool(z):
        raise PathAbort()       # no float is an odd multiple of pi/2
    return div(s if isinstance(s, Sym) else lift(s), c, np_semantics)


PI = math.pi
_PI = Fraction(math.pi)


def _domain(x):
    """x in [-1, 1]?  Forks when it may lie outside."""
    if not isinstance(x, Sym):
        return -1 <= x <= 1
    if bool(x > 1):
        return False
    if bool(x < -1):
        return False
    return True


def named(x):
    """An atom equal to x, so that x^2 is one small monomial for the solver."""
    if len(x.p.t) <= 1:
        return
    a, new = get_atom("let", x.p, (x.p, pmul(x.p, x.p)),
                      pbounds(x.p)[0], pbounds(x.p)[1])
    PATH[0].mention(a)


def acos(x):
    if not isinstance(x, Sym):
        return math.acos(x) if -1 <= x <= 1 else NAN
    c = x.p.const()
    if c is not None:
        return math.acos(c) if -1 <= c <= 1 else NAN
    named(x)
    if not _domain(x):
        return NAN
    # acos(cos(theta)) is not folded: the range matters
    a, _ = get_atom("acos", x.p, (x.p,), Fraction(0), _PI)
    return Sym(patom(a))


def asin(x):
    if not isinstance(x, Sym):
        return math.asin(x) if -1 <= x <= 1 else NAN
    c = x.p.const()
    if c is not None:
        return math.asin(c) if -1 <= c <= 1 else NAN
    named(x)
    if not _domain(x):
        return NAN
    p = x.p
    sign = 1
    if p.t[p.lead()] < 0:
        p = pscale(p, -1)
        sign = -1
    a, _ = get_atom("asin", p, (p,), -_PI / 2, _PI / 2)
    return sign * Sym(patom(a))


def atan2(y, x):
    """Four-quadrant arctangent; the undefined point (0,0) yields 0."""
    ys, xs = isinstance(y, Sym), isinstance(x, Sym)
    if not ys and not xs:
        return math.atan2(y, x)
    if not ys:
        if _nonfinite(float(y)):
            raise SymError("atan2 of inf")
        y = lift(y)
    if not xs:
        if _nonfinite(float(x)):
            raise SymError("atan2 of inf")
        x = lift(x)
    cy, cx = y.p.const(), x.p.const()
    if cy is not None and cx is not None:
        return math.atan2(cy, cx)
    if cx == 0 or cy == 0:
        if bool((y if cx == 0 else x) > 0):
            return math.pi / 2 if cx == 0 else 0.0
        if cx == 0:
            return -math.pi / 2 if bool(y < 0) else 0.0
        return math.pi if bool(x < 0) else 0.0
    y2 = y * y
    r2 = x * x + y2
    path = PATH[0]
    if path is not None and path.forced is None and 1 < len(y2.p.t) <= 40:
        f = y2 >= 0
        if isinstance(f, SymBool):
            path.lemma(f.f)
    if path is not None and path.forced is None:
        f = r2 >= 0
        if isinstance(f, SymBool):
            path.lemma(f.f)
    if bool(r2 == 0):
        return 0.0
    r = sqrt(r2)
    s = div(y, r if isinstance(r, Sym) else lift(r))
    c = div(x, r if isinstance(r, Sym) else lift(r))
    lo, hi = -_PI, _PI
    if pbounds(x.p)[0] is not None and pbounds(x.p)[0] >= 0:
        lo, hi = -_PI / 2, _PI / 2
    if pbounds(y.p)[0] is not None and pbounds(y.p)[0] >= 0:
        lo = Fraction(0)
    if pbounds(y.p)[1] is not None and pbounds(y.p)[1] <= 0:
        hi = Fraction(0)
    # key on the direction, so that scaling both arguments gives the same atom
    a, new = get_atom("atan2", (s.p, c.p), (s.p, c.p), lo, hi)
    a.extra = (s, c)
    _unit_lemma(s, c)
    return Sym(patom(a))


def _unit_lemma(s, c):
    """sin and cos of an atan2 lie in [-1, 1]."""
    path = PATH[0]
    if path is None or path.forced is not None:
        return
    for v in (s, c):
        if isinstance(v, Sym) and len(v.p.t) <= 12:
            for f in (v * v <= 1, v <= 1, v >= -1):
                if isinstance(f, SymBool):
                    path.lemma(f.f)


def atan(x):
    if not isinstance(x, Sym):
        return math.atan(x)
    c = x.p.const()
    if c is not None:
        return math.atan(c)
    r = sqrt(1 + x * x)
    cc = div(lift(1), r)
    ss = div(x, r)
    a, new = get_atom("atan2", (ss.p, cc.p), (ss.p, cc.p), -_PI / 2, _PI / 2)
    a.extra = (ss, cc)
    _unit_lemma(ss, cc)
    return Sym(patom(a))


def exp(x):
    if not isinstance(x, Sym):
        return math.exp(x)
    c = x.p.const()
    if c is not None:
        return math.exp(c)
    a, _ = get_atom("exp", x.p, (x.p,), Fraction(0), None)
    e, path = Sym(patom(a)), PATH[0]
    if path is not None and path.forced is None:
        # exp is increasing
        seen = path.__dict__.setdefault("exps", {})
        if a.id not in seen:
            for y, f in seen.values():
                path.lemma(fml(b_or(b_not(x <= y), e <= f)))
                path.lemma(fml(b_or(b_not(y <= x), f <= e)))
            seen[a.id] = (x, e)
    return e


def hypot(*a):
    t = 0
    for x in a:
        t = t + x * x
    return sqrt(t) if isinstance(t, Sym) else math.sqrt(t)


# --------------------------------------------------------------------------
# z3 encodings

_LIN_CACHE = {}
_RAW_CACHE = {}


def zfrac(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


def _zr(a):
    return z3.ToReal(a.zv) if a.isint else a.zv


def lin_mono(m):
    """Relaxed encoding: a nonlinear monomial is an opaque real variable."""
    v = _LIN_CACHE.get(m)
    if v is None:
        if len(m) == 1 and m[0][1] == 1:
            v = _zr(ATOMS[m[0][0]])
        else:
            v = z3.Real("m!" + "_".join("%d^%d" % x for x in m))
        _LIN_CACHE[m] = v
    return v


def raw_mono(m):
    v = _RAW_CACHE.get(m)
    if v is None:
        fs = []
        for i, e in m:
            fs += [_zr(ATOMS[i])] * e
        v = fs[0] if len(fs) == 1 else z3.Product(*fs)
        _RAW_CACHE[m] = v
    return v


def zpoly(p, mono):
    ts = []
    for m, c in p.t.items():
        if m == ():
            ts.append(zfrac(c))
        elif c == 1:
            ts.append(mono(m))
        else:
            ts.append(zfrac(c) * mono(m))
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def zformula(f, mono):
    if isinstance(f, bool):
        return z3.BoolVal(f)
    k = f[0]
    if k == "and":
        return z3.And([zformula(g, mono) for g in f[1]])
    if k == "or":
        return z3.Or([zformula(g, mono) for g in f[1]])
    if k == "not":
        return z3.Not(zformula(f[1], mono))
    if k == "z3":
        return f[1]
    e = zpoly(f[1], mono)
    if k == "lt":
        return e < 0
    if k == "le":
        return e <= 0
    return e == 0


def fpolys(f, out):
    if isinstance(f, bool):
        return out
    if f[0] in ("and", "or"):
        for g in f[1]:
            fpolys(g, out)
    elif f[0] == "not":
        fpolys(f[1], out)
    elif f[0] != "z3":
        out.append(f[1])
    return out


def atom_polys(a):
    """Polys whose atoms and monomials an atom's axioms mention."""
    if a.kind in ("floor", "inv", "sqrt", "exp", "let", "acos", "asin", "const"):
        return [x for x in a.args if isinstance(x, Poly)]
    if a.kind == "atan2":
        return list(a.args)
    if a.kind in ("sin", "cos"):
        return [Poly({((a.extra, 1),): Fraction(1)})] if a.extra is not None else []
    return []


def atom_axioms(a, mono, raw):
    """z3 axioms of one atom under the given monomial encoding."""
    ax = []
    v = _zr(a)
    if a.lo is not None:
        ax.append(v >= zfrac(a.lo))
    if a.hi is not None:
        ax.append(v <= zfrac(a.hi))
    k = a.kind
    if k == "floor":
        e = zpoly(a.args[0], mono)
        ax += [v <= e, e < v + 1]
    elif k == "inv":
        if raw:
            ax.append(v * zpoly(a.args[0], mono) == 1)
        else:
            e = zpoly(a.args[0], mono)
            ax.append(z3.Or(z3.And(e > 0, v > 0), z3.And(e < 0, v < 0)))
    elif k == "sqrt":
        e = zpoly(a.args[0], mono)
        ax.append(e >= 0)
        if raw:
            ax.append(v * v == e)
        else:
            # r <= (1 + e) / 2, and tangents at further points
            for t in (1, 10, 100):
                ax.append(2 * t * v <= e + t * t)
            ax.append(z3.Or(z3.And(v == 0, e == 0), z3.And(v > 0, e > 0)))
    elif k in ("sin", "cos") and raw:
        o = _zr(ATOMS[a.extra])
        ax.append(v * v + o * o == 1)
    elif k in ("sin", "cos"):
        if k == "sin":
            o = _zr(ATOMS[a.extra])
            # octagon around the unit circle
            for sa in (1, -1):
                for sb in (1, -1):
                    ax.append(sa * v + sb * o <= zfrac(Fraction(14143, 10000)))
    elif k == "acos":
        e = zpoly(a.args[0], mono)
        half = zfrac(_PI / 2)
        ax += [z3.Implies(e > 0, v < half), z3.Implies(e < 0, v > half),
               z3.Implies(e == 0, v == half), z3.Implies(e == 1, v == 0),
               z3.Implies(v == 0, e == 1)]
    elif k == "asin":
        e = zpoly(a.args[0], mono)
        ax += [z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0),
               z3.Implies(e == 0, v == 0)]
    elif k == "atan2":
        s, c = [zpoly(q, mono) for q in a.args]
        half = zfrac(_PI / 2)
        ax += [z3.Implies(s > 0, z3.And(v > 0, v < zfrac(_PI))),
               z3.Implies(s < 0, z3.And(v < 0, v > -zfrac(_PI))),
               z3.Implies(z3.And(s == 0, c > 0), v == 0),
               z3.Implies(z3.And(s == 0, c < 0), v == zfrac(_PI)),
               z3.Implies(c > 0, z3.And(v < half, v > -half)),
               z3.Implies(c < 0, z3.Or(v > half, v < -half)),
               s <= 1, s >= -1, c <= 1, c >= -1]
    elif k == "exp":
        e = zpoly(a.args[0], mono)
        ax += [v > 0, v >= 1 + e, z3.Implies(e < 0, v < 1),
               z3.Implies(e > 0, v > 1), z3.Implies(e == 0, v == 1)]
    elif k == "let":
        ax.append(v == zpoly(a.args[0], mono))
        sq = zpoly(a.args[1], mono)
        if raw:
            ax.append(v * v == sq)
        else:
            for t in (1, -1):
                ax.append(sq >= 2 * t * v - 1)
            ax.append(sq >= 0)
    return ax


def mono_axioms(m):
    """Bounds and cuts for an opaque monomial of the relaxed encoding."""
    ax = []
    v = lin_mono(m)
    lo, hi = mono_bounds(m)
    if lo is not None:
        ax.append(v >= zfrac(lo))
    if hi is not None:
        ax.append(v <= zfrac(hi))
    deg = sum(e for _, e in m)
    if deg == 2 and len(m) == 1:
        a = ATOMS[m[0][0]]
        x = _zr(a)
        pts = {Fraction(1), Fraction(-1)}
        if a.lo is not None:
            pts.add(a.lo)
        if a.hi is not None:
            pts.add(a.hi)
        for t in pts:
            ax.append(v >= 2 * zfrac(t) * x - zfrac(t * t))
        if a.lo is not None and a.hi is not None:
            ax.append(v <= zfrac(a.lo + a.hi) * x - zfrac(a.lo * a.hi))
        ax.append(z3.Implies(v == 0, x == 0))
    elif deg == 2:
        a, b = ATOMS[m[0][0]], ATOMS[m[1][0]]
        x, y = _zr(a), _zr(b)
        if None not in (a.lo, b.lo):
            ax.append(v >= zfrac(a.lo) * y + zfrac(b.lo) * x - zfrac(a.lo * b.lo))
        if None not in (a.hi, b.hi):
            ax.append(v >= zfrac(a.hi) * y + zfrac(b.hi) * x - zfrac(a.hi * b.hi))
        if None not in (a.hi, b.lo):
            ax.append(v <= zfrac(a.hi) * y + zfrac(b.lo) * x - zfrac(a.hi * b.lo))
        if None not in (a.lo, b.hi):
            ax.append(v <= zfrac(a.lo) * y + zfrac(b.hi) * x - zfrac(a.lo * b.hi))
    if len(m) == 2 and deg == 2 or len(m) >= 2 and deg <= 4:
        # sign rule: product of two parts
        head, tail = (m[0],), m[1:]
        h = lin_mono(head) if head[0][1] == 1 else None
        if h is not None and len(tail) == 1 and tail[0][1] == 1:
            t = lin_mono(tail)
            ax.append(z3.Implies(z3.And(h > 0, t > 0), v > 0))
            ax.append(z3.Implies(z3.And(h < 0, t < 0), v > 0))
            ax.append(z3.Implies(z3.And(h > 0, t < 0), v < 0))
            ax.append(z3.Implies(z3.And(h < 0, t > 0), v < 0))
            ax.append(z3.Implies(z3.Or(h == 0, t == 0), v == 0))
    return ax


# --------------------------------------------------------------------------
# Paths

class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.feas_queries = 0
        self.queries = 0
        self.normalised = 0
        self.solver_s = 0.0
        self.checks = 0
        self.lemmas = 0


PATH = [None]


class Path:
    """One execution of a harness, along a prefix of branch decisions."""

    def __init__(self, prefix, stats, opts):
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.stats = stats
        self.opts = opts
        self.pc = []                 # formulas
        self.lemmas = []
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("feas_ms", 3000))
        self.done_atoms = set()
        self.done_monos = set()
        self.forced = None           # concolic assignment
        self.deadline = opts.get("deadline")

    # -- relaxed solver bookkeeping
    def mention(self, a):
        self._ensure_atom(a)

    def _ensure_atom(self, a):
        stack = [a]
        while stack:
            a = stack.pop()
            if a.id in self.done_atoms:
                continue
            self.done_atoms.add(a.id)
            for p in atom_polys(a):
                for m in p.t:
                    self._ensure_mono(m, stack)
            for x in atom_axioms(a, lin_mono, False):
                self.solver.add(x)

    def _ensure_mono(self, m, stack=None):
        if m == () or m in self.done_monos:
            return
        self.done_monos.add(m)
        for i, _ in m:
            if i not in self.done_atoms:
                if stack is None:
                    self._ensure_atom(ATOMS[i])
                else:
                    stack.append(ATOMS[i])
        if len(m) > 1 or m[0][1] > 1:
            for x in mono_axioms(m):
                self.solver.add(x)

    def ensure(self, f):
        for p in fpolys(f, []):
            for m in p.t:
                self._ensure_mono(m)

    def _relaxed(self, f):
        self.ensure(f)
        z = zformula(f, lin_mono)
        t = time.time()
        r = self.solver.check(z) if False else None
        self.solver.push()
        self.solver.add(z)
        r = self.solver.check()
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.feas_queries += 1
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        return r

    def add(self, f):
        """Assert a formula on the path."""
        if f is True:
            return
        if f is False:
            raise PathAbort()
        self.pc.append(f)
        self.known[f] = True
        self.known[f_not(f)] = False
        if f[0] == "and":
            for g in f[1]:
                self.known[g] = True
                self.known[f_not(g)] = False
        self.ensure(f)
        self.solver.add(zformula(f, lin_mono))

    def lemma(self, f):
        """A formula valid by mathematics; part of every query of the path."""
        if isinstance(f, bool):
            return
        self.lemmas.append(f)
        self.ensure(f)
        self.solver.add(zformula(f, lin_mono))

    # -- branching
    def decide(self, f):
        if isinstance(f, bool):
            return f
        if self.forced is not None:
            return self.forced(f)
        k = self.known.get(f)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self.stats.decisions += 1
            self.add(f if v else f_not(f))
            return v
        if i > self.opts.get("max_decisions", 4000):
            raise Budget("too many decisions on one path")
        r1 = self._relaxed(f)
        r0 = self._relaxed(f_not(f)) if r1 != z3.unsat else z3.sat
        self.stats.decisions += 1
        if r1 == z3.unsat and r0 == z3.unsat:
            raise PathAbort()
        if r1 != z3.unsat and r0 != z3.unsat and self.opts.get("nra_prune"):
            # weed out branches only nonlinear reasoning can exclude
            if self.full_query(f, self.opts["nra_prune"])[0] == "unsat":
                r1 = z3.unsat
            elif self.full_query(f_not(f), self.opts["nra_prune"])[0] == "unsat":
                r0 = z3.unsat
        if r1 != z3.unsat and r0 != z3.unsat:
            self.alternatives.append(self.trace + [False])
            self.stats.forks += 1
            v = True
        else:
            v = r1 != z3.unsat
        self.trace.append(v)
        self.add(f if v else f_not(f))
        return v

    def concretize(self, x, limit=64):
        lo, hi = pbounds(x.p)
        if lo is None or hi is None or hi - lo > limit:
            raise SymError("symbolic index without small bounds")
        v = math.ceil(lo)
        while v < hi:
            if bool(x == v):
                return v
            v += 1
        self.add(fml(x == v)) if not isinstance(x == v, bool) else None
        return v

    # -- final queries
    def cone(self, fs):
        seen = set()
        monos = set()
        stack = []
        for f in fs:
            for p in fpolys(f, []):
                for m in p.t:
                    monos.add(m)
                    stack += [i for i, _ in m]
        while stack:
            i = stack.pop()
            if i in seen:
                continue
            seen.add(i)
            for p in atom_polys(ATOMS[i]):
                for m in p.t:
                    monos.add(m)
                    stack += [j for j, _ in m]
        return seen

    def full_query(self, f, timeout_ms, seed=None):
        """Nonlinear query: pc and lemmas and f.  -> (verdict, model)"""
        fs = self.pc + self.lemmas + [f]
        seen = self.cone(fs)
        anyint = any(ATOMS[i].isint for i in seen)
        s = z3.Solver() if anyint else z3.SolverFor("QF_NRA")
        s.set("timeout", int(timeout_ms))
        if seed is not None:
            s.set("random_seed", seed)
        for i in seen:
            for x in atom_axioms(ATOMS[i], raw_mono, True):
                s.add(x)
        for g in fs:
            s.add(zformula(g, raw_mono))
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", s.model()
        return "unknown", None

    def query(self, f, nra=True):
        """Can f hold on this path?  relaxed first, then nonlinear."""
        if f is False:
            return "unsat", None
        if f is True:
            f = ("le", pconst(-1))
            f = ("z3", z3.BoolVal(True))
        self.ensure(f)
        t = time.time()
        self.solver.push()
        self.solver.add(zformula(f, lin_mono))
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.unsat:
            return "unsat", None
        if not nra:
            return "unknown", None
        if m is not None and self._linear(f):
            return "sat", m
        return self.full_query(f, self.opts.get("nra_ms", 20000))

    def _linear(self, f):
        """The relaxed encoding was exact for this query."""
        fs = self.pc + self.lemmas + [f]
        for i in self.cone(fs):
            if ATOMS[i].kind not in ("var", "floor"):
                return False
        for g in fs:
            for p in fpolys(g, []):
                for m in p.t:
                    if len(m) > 1 or (m and m[0][1] > 1):
                        return False
        return True


def zvalue(model, a):
    v = model.eval(a.zv, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return Fraction(0)


# --------------------------------------------------------------------------
# Numeric evaluation of symbolic values (for cross-validation and concolic
# runs)

def eval_atom(a, env, cache):
    v = cache.get(a.id)
    if v is not None:
        return v
    k = a.kind
    if k == "var":
        v = env[a.name]
    elif k == "inv":
        v = 1.0 / eval_poly(a.args[0], env, cache)
    elif k == "sqrt":
        v = math.sqrt(max(0.0, eval_poly(a.args[0], env, cache)))
    elif k == "floor":
        v = math.floor(eval_poly(a.args[0], env, cache))
    elif k == "sin":
        v = math.sin(math.radians(eval_poly(a.args[0], env, cache)))
    elif k == "cos":
        v = math.cos(math.radians(eval_poly(a.args[0], env, cache)))
    elif k == "acos":
        v = math.acos(max(-1.0, min(1.0, eval_poly(a.args[0], env, cache))))
    elif k == "asin":
        v = math.asin(max(-1.0, min(1.0, eval_poly(a.args[0], env, cache))))
    elif k == "atan2":
        v = math.atan2(eval_poly(a.args[0], env, cache),
                       eval_poly(a.args[1], env, cache))
    elif k == "exp":
        v = math.exp(eval_poly(a.args[0], env, cache))
    elif k in ("let", "const"):
        v = eval_poly(a.args[0], env, cache)
    else:
        raise SymError("eval " + k)
    cache[a.id] = v
    return v


def eval_poly(p, env, cache):
    # sum in exact arithmetic over the float values: avoids cancellation noise
    t = Fraction(0)
    for m, c in p.t.items():
        v = c
        for i, e in m:
            x = eval_atom(ATOMS[i], env, cache)
            v = v * (Fraction(x) ** e)
        t += v
    return float(t)


def eval_formula(f, env, cache):
    if isinstance(f, bool):
        return f
    k = f[0]
    if k == "and":
        return all(eval_formula(g, env, cache) for g in f[1])
    if k == "or":
        return any(eval_formula(g, env, cache) for g in f[1])
    if k == "not":
        return not eval_formula(f[1], env, cache)
    v = eval_poly(f[1], env, cache)
    return v < 0 if k == "lt" else v <= 0 if k == "le" else v == 0
