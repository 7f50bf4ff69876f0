"""C02: compound units."""
from symcel.harness import Harness
from checks.c01 import user_compound
from checks.units_common import SI, GROUPS, u_of, ALL, DIM

ASSUMPTIONS = [
    "expressions of up to three factors with powers -3..3 over representative "
    "units of every dimension; unit scales symbolic in [1/8, 8]",
]


def dimstr(pairs):
    """The dimension text of a product of (dimension, power), any order of factors."""
    d = {}
    order = []
    for n, p in pairs:
        if n not in d:
            order.append(n)
        d[n] = d.get(n, 0) + p
    return {n: p for n, p in d.items() if p}


def parse_dim(s):
    num, _, den = s.partition("/")
    out = {}
    for part, sg in ((num, 1), (den, -1)):
        for tok in part.split():
            if tok == "1":
                continue
            n, p = tok[0], tok[1:]
            # a power of one is not written
            out[n] = out.get(n, 0) + sg * (int(p) if p else 1) if p != "1" else None
    return out


def sym_units(c):
    """Units of three dimensions whose scales are symbolic."""
    core = c.mod("celest.units.core")
    u = c.mod("celest.units")
    out = []
    for name, base in (("km", u.m), ("mi", u.m), ("hr", u.s), ("hourangle", u.deg)):
        s = c.real("scale_" + name, 0.125, 8)
        out.append((core.Unit(name, "test " + name, {}, s * base), s, base, DIM[name]))
    return out


def base_of(us):
    """Product of the base units for a list of (base, power)."""
    t = None
    for b, p in us:
        x = b ** p
        t = x if t is None else t * x
    return t


def product(c):
    """A**p * B**q converts with scale a**p * b**q and has that dimension."""
    Q = c.mod("celest.units.quantity").Quantity
    us = sym_units(c)
    i, j = c.choice("i", 4), c.choice("j", 4)
    p = c.pick("p", (1, 2, 3, -1, -2))
    q = c.pick("q", (1, 2, -1, -2))
    (A, a, Ab, Ad), (B, b, Bb, Bd) = us[i], us[j]
    unit = (A ** p) * (B ** q) if c.bool("mul") else (A ** p) / (B ** -q)
    want = dimstr([(Ad, p), (Bd, q)])
    c.check(parse_dim(unit.dimension) == want, "dimension of the product")
    base = (Ab ** p) * (Bb ** q) if want else c.mod("celest.units").m ** 0
    x = c.real("x", -1, 1)
    c.approx(Q(x, unit).to(base), x * a ** p * b ** q, 1e-4, "value in base units")
    c.approx(Q(x, base).to(unit) * (a ** p * b ** q), x, 1e-4, "value from base units")


def nested(c):
    """(A*B)**n, (A/B)**n and products of compounds."""
    Q = c.mod("celest.units.quantity").Quantity
    us = sym_units(c)
    i, j, k = c.choice("i", 4), c.pick("j", (0, 2)), c.pick("k", (0, 1, 3))
    (A, a, Ab, Ad), (B, b, Bb, Bd), (C, g, Cb, Cd) = us[i], us[j], us[k]
    n = c.pick("n", (1, 2, 3, -1, -2, 0))
    form = c.choice("form", 5)
    if form == 0:
        unit, pa, pb, pc = (A * B) ** n, n, n, 0
    elif form == 1:
        unit, pa, pb, pc = (A / B) ** n, n, -n, 0
    elif form == 2:
        unit, pa, pb, pc = (A / B) * (C ** n), 1, -1, n
    elif form == 3:
        unit, pa, pb, pc = (A * C) / (B ** n), 1, -n, 1
    else:
        unit, pa, pb, pc = (A * B * C) ** n / C, n, n, n - 1
    want = dimstr([(Ad, pa), (Bd, pb), (Cd, pc)])
    c.check(parse_dim(unit.dimension) == want, "dimension of a nested expression")
    base = None if want else c.mod("celest.units").m ** 0
    for bs, p in ((Ab, pa), (Bb, pb), (Cb, pc)):
        if p and want:
            base = bs ** p if base is None else base * bs ** p
    x = c.real("x", -1, 1)
    f = a ** pa * b ** pb * g ** pc
    c.approx(Q(x, unit).to(base), x * f, 1e-4, "value of a nested expression")


def scaled(c):
    """A numeric multiple of a unit converts by that multiple."""
    Q = c.mod("celest.units.quantity").Quantity
    us = sym_units(c)
    i, j = c.choice("i", 4), c.pick("j", (0, 2))
    (A, a, Ab, Ad), (B, b, Bb, Bd) = us[i], us[j]
    k = c.real("k", 0.125, 8)
    x = c.real("x", -1, 1)
    form = c.choice("form", 9)
    if form == 0:
        unit, f, base = k * A, k * a, Ab
    elif form == 6:
        unit, f, base = B * ((k * A) / A), k * b, Bb
    elif form == 7:
        unit, f, base = ((k * A) / A) * B, k * b, Bb
    elif form == 8:
        unit, f, base = ((k * A) / A) * (B / A) / ((k * A) / A), b / a, Bb / Ab
        c.assume(Ad != Bd)
    elif form == 1:
        unit, f, base = A * k, k * a, Ab
    elif form == 2:
        c.assume(Ad != Bd)
        unit, f, base = k * (A / B), k * a / b, Ab / Bb
    elif form == 3:
        unit, f, base = (k * A) ** 2, k * k * a * a, Ab ** 2
    elif form == 4:
        c.assume(Ad != Bd)
        unit, f, base = (k * A) / (k * B), a / b, Ab / Bb
    else:
        unit, f, base = (k * A) * B, k * a * b, Ab * Bb
    c.approx(Q(x, unit).to(base), x * f, 1e-4, "value of a scaled unit")
    c.check(unit.dimension == base.dimension, "dimension of a scaled unit")
    c.approx(Q(x, unit).to(unit), x, 1e-9, "same unit is the identity")


def registry(c):
    """The registered units: speeds, areas, and their dimension text."""
    u, Q = u_of(c)
    a, b = c.pick("a", ALL), c.pick("b", ALL)
    c.assume(a not in ("ft", "yd") and b not in ("ft", "yd"))
    p = c.pick("p", (1, 2))
    A, B = getattr(u, a), getattr(u, b)
    unit = A ** p / B
    want = dimstr([(DIM[a], p), (DIM[b], -1)])
    c.check(parse_dim(unit.dimension) == want, "dimension of a ratio of registered units")
    if not want:
        return
    g = lambda n: getattr(u, [h for h in GROUPS if n in h][0][0])
    base = g(a) ** p / g(b)
    x = c.real("x", -1, 1)
    k = SI[a] ** p / SI[b]
    c.approx(Q(x, unit).to(base) / k, x, 1e-7, "value of a ratio of registered units")


KIND = {"km": "L", "m": "L", "s": "T", "hr": "T"}


def text(c):
    """The printed form names every factor with its power, once."""
    core = c.mod("celest.units.core")
    u = c.mod("celest.units")
    a, b = c.pick("a", ("km", "s", "m")), c.pick("b", ("m", "hr", "s"))
    p, q = c.pick("p", (1, 2, -1, 0)), c.pick("q", (1, -1, -2, 0))
    A, B = getattr(u, a), getattr(u, b)
    form = c.choice("form", 6)
    unit, left = [
        lambda: (A ** p * B ** q, [(a, p), (b, q)]),
        lambda: ((A ** p * B) ** 0, []),
        lambda: (A ** p, [(a, p)]),
        lambda: ((A * B) ** p * (A / B) ** q, [(a, p + q), (b, p - q)]),
        lambda: (A / B, [(a, 1), (b, -1)]),
        lambda: (A * (B * A) ** p, [(a, 1 + p), (b, p)])][form]()
    total = {}
    for n, k in left:
        total[n] = total.get(n, 0) + k
    num, _, den = str(unit).partition("/")
    t = lambda n, k: n + ("" if abs(k) == 1 else str(abs(k)))
    wn = [t(n, k) for n, k in total.items() if k > 0] or ["1"]
    wd = [t(n, k) for n, k in total.items() if k < 0]
    c.check(sorted(num.split()) == sorted(wn), "printed factors")
    c.check(sorted(den.split()) == sorted(wd), "printed divisors")
    c.check(parse_dim(unit.dimension) == dimstr([(KIND[n], k) for n, k in total.items()]), "dimension of the factors")


def parts(c):
    """A unit is its scale times the product of its bases to its powers."""
    Q = c.mod("celest.units.quantity").Quantity
    us = sym_units(c)
    i, j = c.choice("i", 4), c.pick("j", (0, 2))
    (A, a, Ab, Ad), (B, b, Bb, Bd) = us[i], us[j]
    form = c.choice("form", 5)
    n = c.pick("n", (1, 2, -1))
    if form == 0:
        unit = A
    elif form == 1:
        unit = Ab
    elif form == 2:
        unit = A ** n
    elif form == 3:
        c.assume(Ad != Bd or n != -1)
        unit = A * B ** n
    else:
        c.assume(Ad != Bd)
        unit = c.real("k", 0.125, 8) * (A / B)
    bases, powers = list(unit.bases), list(unit.powers)
    c.check(len(bases) == len(powers) and len(bases) > 0, "as many bases as powers")
    again = unit.scale
    for x, p in zip(bases, powers):
        again = again * x ** p
    c.check(again.dimension == unit.dimension, "dimension of the parts")
    x = c.real("x", -1, 1)
    c.approx(Q(x, again).to(unit), x, 1e-9, "value of the parts")


def inverse(c):
    """One over a unit, and what is built on it."""
    Q = c.mod("celest.units.quantity").Quantity
    us = sym_units(c)
    i, j = c.choice("i", 4), c.pick("j", (0, 2))
    (A, a, Ab, Ad), (B, b, Bb, Bd) = us[i], us[j]
    c.assume(Ad != Bd)
    n = c.pick("n", (1, 2, -1, -2))
    k = c.real("k", 0.125, 8)
    form = c.choice("form", 8)
    unit, f, pa, pb = [
        lambda: (1 / A, 1 / a, -1, 0),
        lambda: ((1 / A) ** n, a ** -n, -n, 0),
        lambda: ((1 / A) * B, b / a, -1, 1),
        lambda: ((1 / A) / B, 1 / (a * b), -1, -1),
        lambda: (1 / (A * B), 1 / (a * b), -1, -1),
        lambda: (1 / (A / B ** n), b ** n / a, -1, n),
        lambda: (1 / (k * A), 1 / (k * a), -1, 0),
        lambda: (B / (k * A) ** n, b / (k * a) ** n, -n, 1)][form]()
    want = dimstr([(Ad, pa), (Bd, pb)])
    c.check(parse_dim(unit.dimension) == want, "dimension of an inverse")
    base = Ab ** pa * Bb ** pb if pb else Ab ** pa
    x = c.real("x", -1, 1)
    c.approx(Q(x, unit).to(base), x * f, 1e-4, "value of an inverse")
    c.approx(Q(x, base).to(unit) * f, x, 1e-4, "value in an inverse")


HARNESSES = [
    Harness("user_compound", user_compound, "units defined by products and powers of others, scales in [1e-3, 1e3]"),
    Harness("inverse", inverse, "8 forms of one or two factors, powers -2..2, scales and multiples in [1/8, 8]"),
    Harness("parts", parts, "one or two factors"),
    Harness("product", product, "A^p B^q, powers -2..3, scales in [1/8, 8]"),
    Harness("nested", nested, "three factors, powers -3..3, scales in [1/8, 8]"),
    Harness("scaled", scaled, "multiples in [1/8, 8]"),
    Harness("registry", registry, "all pairs of registered units"),
    Harness("text", text, "6 forms of two factors, also of one unit, powers -2..2"),
]
