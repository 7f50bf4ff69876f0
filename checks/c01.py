"""C01: unit conversion."""
from symcel.harness import Harness
from checks.units_common import SI, GROUPS, u_of, ALL

PINNED = ("ft", "yd")
ASSUMPTIONS = [
    "conversion factors are compared with the SI definitions to 1e-9 relative; "
    "the deliberately rounded foot and yard are decided separately",
    "data up to 1e6 in magnitude, arrays up to length 3",
]


def value(c):
    """Converting x from A to B gives x*A/B, for every pair of one dimension."""
    u, Q = u_of(c)
    g = c.pick("dim", GROUPS)
    names = [n for n in g if n not in PINNED]
    a, b = c.pick("a", names), c.pick("b", names)
    x = c.real("x", -1e6, 1e6)
    q = Q(x, getattr(u, a))
    r = q.to(getattr(u, b))
    k = SI[a] / SI[b]
    c.approx(r / k, x, 1e-3, "value in the new unit")
    n = q.convert_to(getattr(u, b))
    c.approx(n.data / k, x, 1e-3, "data of the converted quantity")
    c.check(n.dimension == q.dimension, "dimension kept")
    c.check(str(n.unit) == b, "unit is the requested one")
    c.approx(n.to(getattr(u, a)), x, 1e-6, "there and back")
    c.approx(q.data, x, 1e-12, "source quantity unchanged")
    c.check(str(q.unit) == a, "source unit unchanged")


def pinned(name):
    def f(c):
        u, Q = u_of(c)
        x = c.real("x", 0, 1)
        c.approx(Q(x, getattr(u, name)).to(u.m), x * SI[name], 1e-9, name + " in metres")
    return f


def pinned_consistent(c):
    """The rounded foot and yard still convert linearly and invert."""
    u, Q = u_of(c)
    a = c.pick("a", PINNED)
    b = c.pick("b", GROUPS[0])
    x = c.real("x", -1e6, 1e6)
    ua, ub = getattr(u, a), getattr(u, b)
    r = Q(x, ua).to(ub)
    c.approx(r, x * Q(1.0, ua).to(ub), 1e-3, "linear")
    c.approx(Q(r, ub).to(ua), x, 1e-3, "there and back")
    c.approx(Q(x, ua).to(u.m), x * SI[a], 2.1e3, "within the rounding of the factor")


def arrays(c):
    """Arrays convert element by element and the source is not written."""
    u, Q = u_of(c)
    g = c.pick("dim", GROUPS[:3])
    names = [n for n in g if n not in PINNED][:4]
    a, b = c.pick("a", names), c.pick("b", names)
    xs = c.reals("x", 3, -1e4, 1e4)
    arr = c.arr(xs)
    q = Q(arr, getattr(u, a))
    k = SI[a] / SI[b]
    r = q.to(getattr(u, b))
    for i in range(3):
        c.approx(r[i] / k, xs[i], 1e-5, "element %d" % i)
    r[0] = 12345.0
    for i in range(3):
        c.approx(arr[i], xs[i], 1e-9, "source element %d unchanged" % i)
        c.approx(q.data[i], xs[i], 1e-9, "quantity element %d unchanged" % i)


def integers(c):
    """Integer data convert like the real numbers they are."""
    u, Q = u_of(c)
    g = c.pick("dim", GROUPS[:3])
    names = [n for n in g if n not in PINNED]
    a, b = c.pick("a", names), c.pick("b", names)
    i, j = c.int("i", -1000, 1000), c.int("j", -1000, 1000)
    k = SI[a] / SI[b]
    r = Q(c.iarr([i, j]), getattr(u, a)).to(getattr(u, b))
    c.approx(r[0] / k, i, 1e-5, "first integer element")
    c.approx(r[1] / k, j, 1e-5, "second integer element")
    c.approx(Q(i, getattr(u, a)).to(getattr(u, b)) / k, i, 1e-5, "integer scalar")


def mismatch(c):
    """Conversion across dimensions is refused, whatever the data."""
    u, Q = u_of(c)
    a, b = c.pick("a", ALL), c.pick("b", ALL)
    same = any(a in g and b in g for g in GROUPS)
    x = c.real("x", -10, 10)
    q = Q(x, getattr(u, a))
    r1 = c.raises(ValueError, q.to, getattr(u, b))
    c.check(r1 != same, "refused exactly when dimensions differ")
    c.check(c.raises(ValueError, q.to, getattr(u, b) ** 2), "refused for another power")


def ratio(c):
    """Results of arithmetic convert within their own dimension only."""
    u, Q = u_of(c)
    g = c.pick("dim", GROUPS[:3])
    a, b = c.pick("a", g), c.pick("b", g)
    x, y = c.real("x", -10, 10), c.real("y", 0.5, 10)
    q, r = Q(x, getattr(u, a)), Q(y, getattr(u, b))
    t = c.pick("target", ALL)
    U = getattr(u, t)
    c.check(c.raises(ValueError, (q / r).to, U), "a ratio of like quantities is not of any dimension")
    c.check(c.raises(ValueError, (q * r).to, U), "a product is not of the dimension of its factors")
    c.check(c.raises(ValueError, q.to, U / U), "nothing is converted to a pure number")
    c.check(c.raises(ValueError, q.to, 1 / U), "nor to an inverse")


def user_unit(c):
    """A unit registered with any scale converts by that scale."""
    core = c.mod("celest.units.core")
    u, Q = u_of(c)
    s = c.real("s", 0.001, 1000)
    t = c.real("t", 0.001, 1000)
    ns = {}
    core.Unit("km", "my length", ns, s * u.m)
    core.Unit("mi", "my other length", ns, t * ns["km"])
    x = c.real("x", -100, 100)
    c.approx(Q(x, ns["km"]).to(u.m), x * s, 1e-6, "new unit to base")
    c.approx(Q(x, u.m).to(ns["km"]) * s, x, 1e-6, "base to new unit")
    c.approx(Q(x, ns["mi"]).to(u.m), x * s * t, 1e-3, "unit defined on a derived unit")
    c.approx(Q(x, ns["mi"]).to(ns["km"]), x * t, 1e-6, "between the two")
    c.check("mi" in ns and "km" in ns, "registered in the namespace")


def namesake(c):
    """Units of one name and different scales are different units."""
    core = c.mod("celest.units.core")
    u, Q = u_of(c)
    s, t = c.real("s", 0.001, 1000), c.real("t", 0.001, 1000)
    one, two = {}, {}
    core.Unit("mi", "statute mile", one, s * u.m)
    core.Unit("mi", "nautical mile", two, t * u.m)
    x = c.real("x", -100, 100)
    q = Q(x, one["mi"])
    c.approx(q.to(two["mi"]) * t, x * s, 1e-5, "between units of one name")
    c.approx(q.to(one["mi"]), x, 1e-9, "own unit")
    c.approx(q.to(u.mi) * SI["mi"], x * s, 1e-5, "to the unit of that name registered already")
    c.approx(Q(x, u.mi).to(u.m), x * SI["mi"], 1e-5, "which keeps its own scale")
    third = core.Unit("mi", "country mile", one, t * u.m)
    c.approx(Q(x, third).to(u.m), x * t, 1e-5, "a unit of a name taken")
    c.approx(Q(x, one["mi"]).to(u.m), x * s, 1e-5, "which leaves the name to the first")
    own = core.Unit("mi", "mile of no namespace", base_units=s * u.m)
    c.approx(Q(x, own).to(u.m), x * s, 1e-5, "a unit in no namespace")
    c.approx(Q(x, u.mi ** 2).to(two["mi"] ** 2) * t * t, x * SI["mi"] ** 2, 1e-2, "and in powers of units")


def user_compound(c):
    """Units a user defines as products and powers of others."""
    u, Q, core = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity, c.mod("celest.units.core")
    a, b = c.pick("a", ("m", "km", "mi")), c.pick("b", ("s", "hr"))
    A, T = getattr(u, a), getattr(u, b)
    s = c.real("s", 0.001, 1000)
    scaled, unit, si, base = c.pick("form", (
        (s, lambda: s * A ** 2, lambda: SI[a] ** 2, lambda: u.m ** 2),
        (1, lambda: A ** 3, lambda: SI[a] ** 3, lambda: u.m ** 3),
        (s, lambda: s * (A / T), lambda: SI[a] / SI[b], lambda: u.m / u.s),
        (1, lambda: A / T ** 2, lambda: SI[a] / SI[b] ** 2, lambda: u.m / u.s ** 2),
        (s, lambda: s * (A * T), lambda: SI[a] * SI[b], lambda: u.m * u.s)))
    form = unit()
    new = core.Unit("own", "own unit", {}, form)
    x = c.real("x", -10, 10)
    q = Q(x, new)
    want = x * si() * scaled
    c.approx(q.to(base()) / si(), want / si(), 1e-6, "to its definition")
    c.approx(Q(x, base()).to(new) * scaled * si(), x, 1e-6, "from its definition")
    c.approx(q.to(form), x, 1e-6, "one of it is what defines it")
    c.approx(q.to(new), x, 1e-9, "own unit")
    c.check(q.dimension == Q(1, base()).dimension, "dimension")
    if c.bool("powered"):
        sq = Q(x, new ** 2)
        c.approx(sq.to(base() ** 2) / si() ** 2, x * scaled ** 2, 1e-3, "powers of it")


HARNESSES = [
    Harness("user_compound", user_compound, "5 forms of products and powers of 3 lengths and 2 times, scales in [1e-3, 1e3]"),
    Harness("namesake", namesake, "scales in [1e-3, 1e3], |x| <= 100"),
    Harness("value", value, "all unit pairs of one dimension (foot and yard apart), |x| <= 1e6"),
    Harness("arrays", arrays, "length 3, |x| <= 1e4"),
    Harness("integers", integers, "|i| <= 1000"),
    Harness("mismatch", mismatch, "all unit pairs, |x| <= 10"),
    Harness("ratio", ratio, "all unit pairs of a dimension, all targets"),
    Harness("user_unit", user_unit, "scales in [1e-3, 1e3]"),
    Harness("foot", pinned("ft"), "x in [0,1]", known="FOOT"),
    Harness("yard", pinned("yd"), "x in [0,1]", known="YARD"),
    Harness("foot_yard", pinned_consistent, "|x| <= 1e6"),
]
