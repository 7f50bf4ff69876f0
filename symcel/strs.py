"""symcel.strs: strings that contain formatted symbolic numbers.

A `SymStr` is a list of pieces, each a literal or a `Num` (the decimal digits of
a symbolic non-negative integer, with a known digit count). Formatting a
symbolic value forks over its sign and its number of digits, so that every
piece has a concrete length; what stays symbolic is the digits themselves.
"""

import math
import re
import types
from fractions import Fraction
from symcel import core
from symcel.core import Sym, SymBool, SymError

MAX_DIGITS = 12


class Num:
    """Digits [start:stop] of the decimal rendering of an integer of n digits."""
    __slots__ = ("q", "n", "start", "stop")

    def __init__(self, q, n, start=0, stop=None):
        self.q, self.n, self.start = q, n, start
        self.stop = n if stop is None else stop

    def __len__(self):
        return self.stop - self.start

    def value(self):
        """The integer these digits denote."""
        v = self.q
        if self.start > 0:
            v = v % (10 ** (self.n - self.start))
        if self.stop < self.n:
            v = v // (10 ** (self.n - self.stop))
        return v

    def slice(self, a, b):
        return Num(self.q, self.n, self.start + a, self.start + b)

    def key(self):
        q = self.q
        return (q.p if isinstance(q, Sym) else q, self.n, self.start, self.stop)

    def __repr__(self):
        return "<%d digits>" % len(self)


class SymStr:
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, SymStr):
                seq = p.pieces
            else:
                seq = [p]
            for x in seq:
                if isinstance(x, str):
                    if not x:
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += x
                        continue
                elif not len(x):
                    continue
                out.append(x)
        self.pieces = out

    def simplify(self):
        if all(isinstance(p, str) for p in self.pieces):
            return "".join(self.pieces)
        return self

    def __len__(self):
        return sum(len(p) for p in self.pieces)

    def __bool__(self):
        return len(self) > 0

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr(self.pieces + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return SymStr([o] + self.pieces)
        return NotImplemented

    def __mul__(self, n):
        return SymStr([self] * int(n))

    __rmul__ = __mul__

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, k):
        n = len(self)
        if isinstance(k, slice):
            a, b, st = k.indices(n)
            if st != 1:
                raise SymError("string slice with a step")
        else:
            if k < 0:
                k += n
            if not 0 <= k < n:
                raise IndexError("string index out of range")
            a, b = k, k + 1
        out = []
        pos = 0
        for p in self.pieces:
            l = len(p)
            x, y = max(a, pos) - pos, min(b, pos + l) - pos
            if x < y:
                out.append(p[x:y] if isinstance(p, str) else p.slice(x, y))
            pos += l
        return SymStr(out).simplify()

    def _pad(self, w, fill):
        return (fill or " ") * max(0, w - len(self))

    def ljust(self, w, fill=" "):
        return SymStr([self, self._pad(w, fill)])

    def rjust(self, w, fill=" "):
        return SymStr([self._pad(w, fill), self])

    def center(self, w, fill=" "):
        pad = max(0, w - len(self))
        l = pad // 2 + (pad & w & 1)
        return SymStr([fill * l, self, fill * (pad - l)])

    def zfill(self, w):
        if self.pieces and isinstance(self.pieces[0], str) and self.pieces[0][0] in "+-":
            return SymStr([self[:1], "0" * max(0, w - len(self)), self[1:]])
        return SymStr(["0" * max(0, w - len(self)), self])

    def join(self, xs):
        return sym_join(self, xs)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        if self.pieces and isinstance(self.pieces[0], str):
            s = self.pieces[0].lstrip(chars)
            return SymStr([s] + self.pieces[1:])
        return self

    def rstrip(self, chars=None):
        if chars is not None and set(chars) & set("0123456789"):
            raise SymError("rstrip of digits")
        if self.pieces and isinstance(self.pieces[-1], str):
            s = self.pieces[-1].rstrip(chars)
            return SymStr(self.pieces[:-1] + [s])
        return self

    def startswith(self, s):
        if self.pieces and isinstance(self.pieces[0], str) and len(self.pieces[0]) >= len(s):
            return self.pieces[0].startswith(s)
        if not re.search(r"\d", s):
            return False
        raise SymError("startswith on symbolic digits")

    def endswith(self, s):
        if self.pieces and isinstance(self.pieces[-1], str) and len(self.pieces[-1]) >= len(s):
            return self.pieces[-1].endswith(s)
        if not re.search(r"\d", s):
            return False
        raise SymError("endswith on symbolic digits")

    def key(self):
        return tuple(p if isinstance(p, str) else p.key() for p in self.pieces)

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymStr([o])
        if not isinstance(o, SymStr):
            return NotImplemented
        if self.key() == o.key():
            return True
        if len(self) != len(o):
            return False
        raise SymError("comparison of strings with symbolic digits")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash(self.key())

    def __str__(self):
        return "".join(p if isinstance(p, str) else "\u27e8%d\u27e9" % len(p)
                       for p in self.pieces)

    def __repr__(self):
        return "SymStr(%s)" % str(self)

    def encode(self, *a):
        return self

    def replace(self, a, b):
        if re.search(r"\d", a):
            raise SymError("replace of digits")
        return SymStr([p.replace(a, b) if isinstance(p, str) else p for p in self.pieces])

    def split(self, sep):
        if not isinstance(sep, str) or re.search(r"\d", sep):
            raise SymError("split")
        out = [[]]
        for p in self.pieces:
            if isinstance(p, str):
                parts = p.split(sep)
                out[-1].append(parts[0])
                for x in parts[1:]:
                    out.append([x])
            else:
                out[-1].append(p)
        return [SymStr(x).simplify() for x in out]

    def upper(self):
        return SymStr([p.upper() if isinstance(p, str) else p for p in self.pieces])


class StrArr:
    """An array of strings, some of them symbolic."""

    def __init__(self, vals, shape):
        self.vals, self.shape = list(vals), shape

    def __iter__(self):
        return iter(self.vals)

    def __len__(self):
        return len(self.vals)

    def __getitem__(self, i):
        return self.vals[i]

    def reshape(self, *a):
        return self


def sym_join(sep, xs):
    xs = list(xs)
    if not any(isinstance(x, SymStr) for x in xs) and isinstance(sep, str):
        return sep.join(xs)
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        if not isinstance(x, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance" % i)
        out.append(x)
    return SymStr(out)


def digits_of(q, maxd=MAX_DIGITS):
    """Number of decimal digits of a nonnegative integer Sym (forks)."""
    for n in range(1, maxd):
        if bool(q < 10 ** n):
            return n
    return maxd


def fixed(x, prec, plus=False, space=False):
    """'%.<prec>f' % x as pieces: sign, integer digits, '.', fraction digits."""
    neg = bool(x < 0)
    a = -x if neg else x
    scaled = a * 10 ** prec
    q = core.round_half_even(scaled if isinstance(scaled, Sym) else core.lift(scaled))
    q = q if isinstance(q, Sym) else core.lift(q)
    q = Sym(q.p, True)
    ip = core.floor(Sym(core.pscale(q.p, Fraction(1, 10 ** prec)))) if prec else q
    n = digits_of(ip)
    pieces = ["-" if neg else "+" if plus else " " if space else ""]
    if prec == 0:
        pieces.append(Num(q, n))
    else:
        pieces.append(Num(q, n + prec, 0, n))
        pieces.append(".")
        pieces.append(Num(q, n + prec, n, n + prec))
    return SymStr(pieces)


def integer(x):
    """str(int)"""
    if isinstance(x, Sym) and not x.isint:
        x = core.trunc(x)
    if not isinstance(x, Sym):
        return str(int(x))
    neg = bool(x < 0)
    a = -x if neg else x
    n = digits_of(a)
    return SymStr(["-" if neg else "", Num(a, n)])


SYMSTR = [False]


def sym_str(x):
    """str(x)"""
    if isinstance(x, SymStr):
        return x
    if isinstance(x, Sym):
        c = x.p.const()
        if c is not None:
            return str(int(c)) if x.isint else str(float(c))
        if x.isint and SYMSTR[0]:
            return integer(x)
        return str.__str__(x) if isinstance(x, str) else Sym.__str__(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    return None


def text(x, name="__str__"):
    """str(x) or repr(x), where parts of it may be symbolic."""
    if isinstance(x, (Sym, SymBool)):
        return sym_str(x)
    if isinstance(x, SymStr):
        return x if name == "__str__" else SymStr(["'", x, "'"]).simplify()
    if type(x) in (list, tuple):
        parts = [text(v, "__repr__") for v in x]
        if any(isinstance(p, SymStr) for p in parts):
            out = []
            for p in parts:
                out += [", ", p] if out else [p]
            end = ",)" if type(x) is tuple and len(x) == 1 else ")"
            return SymStr((["["] if type(x) is list else ["("]) + out + (["]"] if type(x) is list else [end])).simplify()
        return str(x)
    for n in (name, "__repr__"):
        for c in type(x).__mro__:
            f = c.__dict__.get(n)
            if isinstance(f, types.FunctionType):
                r = f(x)
                if not isinstance(r, (str, SymStr)):
                    raise TypeError("%s returned non-string (type %s)" % (n, type(r).__name__))
                return r
            if f is not None:
                if c is not object:
                    return str(x) if name == "__str__" else repr(x)
                break
    return str(x) if name == "__str__" else repr(x)


_SPEC = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])")


def percent(fmt, args):
    """fmt % args with symbolic arguments."""
    if isinstance(fmt, SymStr):
        raise SymError("symbolic format string")
    tup = args if isinstance(args, tuple) else (args,)
    it = iter(tup)
    out = []
    pos = 0
    for m in _SPEC.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            raise SymError("named format fields")
        flags = m.group(2)
        width = m.group(3)
        width = next(it) if width == "*" else int(width) if width else 0
        prec = m.group(4)
        prec = next(it) if prec == "*" else int(prec) if prec else None
        out.append(one(next(it), m.group(5), flags, width, prec))
    out.append(fmt[pos:])
    return SymStr(out).simplify()


def one(v, conv, flags="", width=0, prec=None):
    sym = isinstance(v, (Sym, SymBool, SymStr))
    if isinstance(v, SymBool):
        v = int(v)
        sym = False
    if isinstance(v, Sym) and v.p.const() is not None:
        c = v.p.const()
        v = int(c) if v.isint else float(c)
        sym = False
    if SYMSTR[0] and conv in "sr" and not sym and not isinstance(v, (str, int, float)):
        v = text(v, "__str__" if conv == "s" else "__repr__")
        sym, conv = isinstance(v, SymStr), "s"
    if not sym:
        return ("%" + flags + (str(width) if width else "") +
                ("." + str(prec) if prec is not None else "") + conv) % (v,)
    if conv == "s":
        s = v if isinstance(v, SymStr) else sym_str(v)
        if prec is not None:
            s = s[:prec]
    elif isinstance(v, SymStr):
        raise TypeError("must be real number, not str")
    elif conv in "fF":
        s = fixed(v, 6 if prec is None else prec, "+" in flags, " " in flags)
    elif conv in "di":
        s = integer(v)
        if prec is not None:
            s = s.zfill(prec) if isinstance(s, (SymStr, str)) else s
    else:
        raise SymError("format %" + conv)
    if width and len(s) < width:
        if "-" in flags:
            s = s.ljust(width)
        elif "0" in flags and conv != "s":
            s = s.zfill(width)
        else:
            s = s.rjust(width)
    return s


_FS = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,)?(?:\.(\d+))?([a-zA-Z%])?$")


def fmt(v, spec, conv=-1):
    """format(v, spec) with a symbolic v."""
    if conv == ord("r"):
        v = text(v, "__repr__")
    elif conv == ord("s"):
        v = text(v)
    elif SYMSTR[0] and not spec and type(v).__format__ is object.__format__:
        v = text(v)
    if isinstance(spec, SymStr):
        raise SymError("symbolic format spec")
    if isinstance(v, SymBool):
        v = bool(v)
    if isinstance(v, Sym) and v.p.const() is not None:
        c = v.p.const()
        v = int(c) if v.isint else float(c)
    if not isinstance(v, (Sym, SymStr)):
        return format(v, spec)
    if not spec:
        return sym_str(v)
    m = _FS.match(spec)
    if not m:
        raise SymError("format spec " + spec)
    fill, align, sign, _, zero, width, comma, prec, ty = m.groups()
    if comma:
        raise SymError("format spec " + spec)
    width = int(width) if width else 0
    prec = None if prec is None else int(prec)
    if isinstance(v, SymStr):
        s = v if prec is None else v[:prec]
        align = align or "<"
    else:
        if ty in ("f", "F"):
            s = fixed(v, 6 if prec is None else prec, sign == "+", sign == " ")
        elif ty == "d" or (ty is None and v.isint):
            if not v.isint:
                raise ValueError("Unknown format code 'd' for object of type 'float'")
            s = integer(v)
        else:
            raise SymError("format spec " + spec)
        if zero and not align:
            return s.zfill(width)
        align = align or ">"
    fill = fill or " "
    if align == "<":
        return s.ljust(width, fill)
    if align == ">":
        return s.rjust(width, fill)
    if align == "^":
        pad = max(0, width - len(s))
        return SymStr([fill * (pad // 2), s, fill * (pad - pad // 2)])
    return s.zfill(width)
