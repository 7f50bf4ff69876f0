"""C03: Quantity arithmetic and comparison."""
from symcel.harness import Harness
from checks.units_common import SI, GROUPS, u_of, ALL, DIM

ASSUMPTIONS = ["the unit pairs of each dimension (foot and yard apart), data up to 1e3; "
               "comparisons across units are decided outside a relative band of 1e-9 around equality"]


def pair(c, tag=""):
    g = c.pick("dim" + tag, GROUPS[:3])
    names = [n for n in g if n not in ("ft", "yd")]
    return c.pick("a" + tag, names), c.pick("b" + tag, names), g[0]


def addsub(c):
    u, Q = u_of(c)
    a, b, g = pair(c)
    x, y = c.real("x", -1e3, 1e3), c.real("y", -1e3, 1e3)
    q, r = Q(x, getattr(u, a)), Q(y, getattr(u, b))
    base = getattr(u, g)
    k = 1e-3 + SI[a] + SI[b]
    c.approx((q + r).to(base) / k, (x * SI[a] + y * SI[b]) / k, 1e-7, "sum")
    c.approx((q - r).to(base) / k, (x * SI[a] - y * SI[b]) / k, 1e-7, "difference")
    c.approx((-q).to(base) / k, -x * SI[a] / k, 1e-7, "negation")
    c.check((q + r).dimension == q.dimension, "dimension of a sum")
    c.approx(q.data, x, 1e-12, "left operand unchanged")
    c.approx(r.data, y, 1e-12, "right operand unchanged")


def scalars(c):
    u, Q = u_of(c)
    a = c.pick("a", ("m", "km", "hr", "deg"))
    x, y = c.real("x", -1e2, 1e2), c.real("y", 0.5, 1e2)
    q = Q(x, getattr(u, a))
    U = getattr(u, a)
    c.approx((q + y).to(U), x + y, 1e-9, "quantity plus number")
    c.approx((y + q).to(U), x + y, 1e-9, "number plus quantity")
    c.approx((q - y).to(U), x - y, 1e-9, "quantity minus number")
    c.approx((y - q).to(U), y - x, 1e-9, "number minus quantity")
    c.approx((q * y).to(U), x * y, 1e-7, "quantity times number")
    c.approx((y * q).to(U), x * y, 1e-7, "number times quantity")
    c.approx((q / y).to(U) * y, x, 1e-7, "quantity over number")
    d = Q(y, U)
    c.approx((x / d).data * y, x, 1e-7, "number over quantity")
    c.approx((x / d).to(1 / U) * y, x, 1e-7, "unit of number over quantity")
    base = getattr(u, [g for g in GROUPS if a in g][0][0])
    c.approx((x / d).to(base ** -1) * y * SI[a], x, 1e-6, "value of number over quantity")
    n = c.int("n", 1, 9)
    c.approx((q * n).to(U), x * n, 1e-7, "quantity times integer")
    c.approx((n * q).to(U), x * n, 1e-7, "integer times quantity")
    c.approx((q / n).to(U) * n, x, 1e-7, "quantity over integer")
    c.approx((n / d).to(base ** -1) * y * SI[a], n, 1e-6, "integer over quantity")
    c.approx((q + n).to(U) - (q - n).to(U), 2 * n, 1e-7, "quantity plus and minus integer")
    c.approx((n - q).to(U), n - x, 1e-7, "integer minus quantity")


def muldiv_same(c):
    u, Q = u_of(c)
    a, b, g = pair(c)
    x, y = c.real("x", -10, 10), c.real("y", 0.5, 10)
    q, r = Q(x, getattr(u, a)), Q(y, getattr(u, b))
    base = getattr(u, g)
    k = SI[a] * SI[b]
    c.approx((q * r).to(base ** 2) / k, x * y, 1e-6, "product in squared base units")
    c.check((q * r).dimension == (base ** 2).dimension, "dimension of a product")
    t = q / r
    c.check(t.dimension == "1", "ratio of like quantities is dimensionless")
    c.approx(t.data * (y * SI[b] / SI[a]), x, 1e-6, "ratio of like quantities")


def muldiv_diff(c):
    u, Q = u_of(c)
    a, b = c.pick("a", ("km", "cm", "mi")), c.pick("b", ("hr", "min", "arcsec", "rad"))
    if c.bool("swap"):
        a, b = b, a
    x, y = c.real("x", -10, 10), c.real("y", 0.5, 10)
    q, r = Q(x, getattr(u, a)), Q(y, getattr(u, b))
    g = lambda n: getattr(u, [h for h in GROUPS if n in h][0][0])
    c.approx((q * r).to(g(a) * g(b)) / (SI[a] * SI[b]), x * y, 1e-6, "product of unlike quantities")
    c.approx((q / r).to(g(a) / g(b)) / (SI[a] / SI[b]) * y, x, 1e-6, "ratio of unlike quantities")
    c.check(c.raises(ArithmeticError, lambda: q + r), "sum across dimensions refused")
    c.check(c.raises(ArithmeticError, lambda: q - r), "difference across dimensions refused")
    for op in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        c.check(c.raises(ArithmeticError, lambda: getattr(q, op)(r)),
                op + " across dimensions refused")


def compare(c):
    u, Q = u_of(c)
    a, b, g = pair(c)
    x, y = c.real("x", -1e3, 1e3), c.real("y", -1e3, 1e3)
    q, r = Q(x, getattr(u, a)), Q(y, getattr(u, b))
    k = SI[b] / SI[a]
    d = x - y * k
    side = c.choice("side", 2)
    m = 0 if a == b else 1e-9 * (abs(x) + abs(y) * k)
    if side == 0:
        c.assume(d < -m)
    else:
        c.assume(d > m)
    less = side == 0
    c.check((q < r) == less, "less than")
    c.check((q > r) == (not less), "greater than")
    c.check((q <= r) == less, "less or equal")
    c.check((q >= r) == (not less), "greater or equal")
    c.check((q == r) == False, "unequal values")
    c.check((q != r) == True, "not-equal on unequal values")


def compare_equal(c):
    u, Q = u_of(c)
    a = c.pick("a", ("m", "km", "hr", "rad"))
    x = c.real("x", -1e3, 1e3)
    q, r = Q(x, getattr(u, a)), Q(x, getattr(u, a))
    c.check(q == r, "equal")
    c.check(q <= r, "equal implies less or equal")
    c.check(q >= r, "equal implies greater or equal")
    c.check((q != r) == False, "equal is not unequal")
    c.check((q < r) == False, "equal is not less")
    c.check((q > r) == False, "equal is not greater")


def arrays(c):
    u, Q = u_of(c)
    a, b = c.pick("a", ("m", "km")), c.pick("b", ("m", "cm", "mi"))
    xs, ys = c.reals("x", 2, -10, 10), c.reals("y", 2, 0.5, 10)
    q, r = Q(c.arr(xs), getattr(u, a)), Q(c.arr(ys), getattr(u, b))
    k = SI[b] / SI[a]
    ops = dict(s=(q + r).data, d=(q - r).data, m=(q * r).data, v=(q / r).data, n=(-q).data)
    le, ge, ne, lt = (q <= r), (q >= r), (q != r), (q < r)
    for i in range(2):
        c.approx(ops["s"][i], xs[i] + ys[i] * k, 1e-3, "array sum")
        c.approx(ops["d"][i], xs[i] - ys[i] * k, 1e-3, "array difference")
        c.approx(ops["m"][i], xs[i] * ys[i] * k, 1e-2, "array product")
        c.approx(ops["v"][i] * ys[i] * k, xs[i], 1e-3, "array ratio")
        c.approx(ops["n"][i], -xs[i], 1e-9, "array negation")
        c.assume(abs(xs[i] - ys[i] * k) > 1e-3)
        less = xs[i] < ys[i] * k
        c.check(le[i] == less, "array <=")
        c.check(lt[i] == less, "array <")
        c.check(ge[i] != less, "array >=")
        c.check(ne[i] == True, "array !=")
        c.approx(q.data[i], xs[i], 1e-12, "left array unchanged")
        c.approx(r.data[i], ys[i], 1e-12, "right array unchanged")


def chains(c):
    """Results of arithmetic are operands again."""
    u, Q = u_of(c)
    a, b = c.pick("a", ("km", "mi", "cm")), c.pick("b", ("m", "inch"))
    s, t = c.pick("s", ("hr", "s")), c.pick("t", ("min", "dy"))
    x, y, z, w = c.real("x", -10, 10), c.real("y", 0.5, 10), c.real("z", 0.5, 10), c.real("w", -10, 10)
    d, e, f, g = Q(x, getattr(u, a)), Q(y, getattr(u, s)), Q(z, getattr(u, t)), Q(w, getattr(u, b))
    X, Y, Z, W = x * SI[a], y * SI[s], z * SI[t], w * SI[b]
    k = SI[a] * SI[t] / SI[s]
    c.approx((d / e * f).to(u.m) / k * y, X * Z * y / (Y * k), 1e-6, "speed times time")
    c.approx((d / e + g / f).to(u.m / u.s) * (Y * Z) / (SI[a] + SI[b]) / (SI[s] + SI[t]),
             (X * Z + W * Y) / (SI[a] + SI[b]) / (SI[s] + SI[t]), 1e-6, "sum of speeds")
    c.approx((d * g / e).to(u.m ** 2 / u.s) * Y / (SI[a] * SI[b]), X * W / (SI[a] * SI[b]), 1e-6, "area over time")
    c.approx((d / (e * f)).to(u.m / u.s ** 2) * Y * Z / SI[a], X / SI[a], 1e-6, "length over time squared")
    c.approx((d * (1 / e)).to(u.m / u.s) * Y / SI[a], X / SI[a], 1e-6, "length times a rate")
    c.approx((2 * (d + g) - d).to(u.m) / (SI[a] + SI[b]), (X + 2 * W) / (SI[a] + SI[b]), 1e-6, "a sum doubled")
    c.approx(d.to(u.m), X, 1e-3, "operands unchanged")


def array_scalars(c):
    """Arrays with numbers and with single quantities."""
    u, Q = u_of(c)
    xs, y, z = c.reals("x", 3, 0.5, 10), c.real("y", -10, 10), c.real("z", 0.5, 10)
    q, r = Q(c.arr(xs), u.km), Q(z, u.m)
    ops = [((q + y).data, lambda x: x + y), ((y + q).data, lambda x: x + y), ((q - y).data, lambda x: x - y),
           ((y - q).data, lambda x: y - x), ((q * y).data, lambda x: x * y), ((y * q).data, lambda x: x * y),
           ((y / q).data * q.data, lambda x: y), ((q / z).data * z, lambda x: x),
           ((q + r).to(u.km), lambda x: x + z / 1000), ((r + q).to(u.km), lambda x: x + z / 1000),
           ((q - r).to(u.km), lambda x: x - z / 1000), ((q * r).to(u.m ** 2) / 1000, lambda x: x * z)]
    for got, want in ops:
        c.check(len(got) == 3, "one result per element")
        for g, x in zip(got, xs):
            c.approx(g, want(x), 1e-6, "element by element")
    for g, x in zip(q.data, xs):
        c.approx(g, x, 1e-12, "array unchanged")


def printed(c):
    """A quantity prints as its value and its unit."""
    u, Q = u_of(c)
    a, b = c.int("a", 10, 19), c.int("b", 10, 19)
    name = c.pick("unit", ("km", "m", "deg", "jd2000"))
    U = getattr(u, name)
    q, r = Q(a, U), Q(b, u.s)
    cases = [(q, str, "", a, 2, " " + str(U)), (q, repr, "Quantity(", a, 2, ", " + repr(U) + ")"),
             (q * r, str, "", a * b, 3, " " + str(U * u.s)),
             (q * 2, str, "", a * 2, 2, " " + str(U)), (-q, str, "-", a, 2, " " + str(U)),
             (q + 100, repr, "Quantity(", a + 100, 3, ", " + repr(U) + ")"),
             (Q(a, U / u.s), str, "", a, 2, " " + str(U / u.s))]
    texts = c.symstr(lambda: [c.text(x, f) for x, f, *_ in cases])
    for text, (x, f, head, n, width, tail) in zip(texts, cases):
        c.check(text[:len(head)] == head, "before the value")
        c.approx(c.number(text[len(head):len(head) + width]), n, 0.5, "value printed")
        c.check(text[len(head) + width:] == tail, "unit printed")


HARNESSES = [
    Harness("printed", printed, "whole numbers from 10 to 19"),
    Harness("chains", chains, "2 lengths and 2 times in 24 combinations of units, |x| <= 10"),
    Harness("array_scalars", array_scalars, "length 3"),
    Harness("addsub", addsub, "|x| <= 1e3"),
    Harness("scalars", scalars, "|x| <= 1e2"),
    Harness("muldiv_same", muldiv_same, "|x| <= 10"),
    Harness("muldiv_diff", muldiv_diff, "|x| <= 10"),
    Harness("compare", compare, "|x| <= 1e3"),
    Harness("compare_equal", compare_equal, "|x| <= 1e3"),
    Harness("arrays", arrays, "length 2, |x| <= 10"),
]
