"""C30: position containers keep consistent data."""
from symcel.harness import Harness

ASSUMPTIONS = ["up to 3 rows; arrays of one or two dimensions"]
F = "celest.coordinates.frames."
KINDS = ("gcrs", "itrs", "lvlh", "wgs84", "azel", "attitude")


def units(c):
    return c.mod("celest.units"), c.mod("celest.units.quantity").Quantity


def build(c, kind, t, comps, ang, length, site=None):
    m = c.mod(F + kind)
    C = getattr(m, {"gcrs": "GCRS", "itrs": "ITRS", "lvlh": "LVLH", "wgs84": "WGS84",
                    "azel": "AzEl", "attitude": "Attitude"}[kind])
    if kind == "wgs84":
        return C(t, *comps, ang, length)
    if kind in ("azel", "attitude"):
        return C(t, *comps, ang, site)
    return C(t, *comps, length)


NAMES = {"wgs84": ("latitude", "longitude", "height"), "azel": ("azimuth", "elevation"),
         "attitude": ("roll", "pitch", "yaw")}


def names(kind):
    return NAMES.get(kind, ("x", "y", "z"))


def pick_units(c, u):
    return (c.pick("angle", [u.deg, u.rad, u.arcsec]), c.pick("length", [u.km, u.m]))


def kept(c, n=2):
    """Every component under its own name, in the unit given."""
    u, q = units(c)
    kind = c.pick("kind", KINDS)
    ang, length = pick_units(c, u)
    k = len(names(kind))
    t = c.reals("t", n, 0, 10000)
    v = [c.reals("v%d_" % i, n, -9000, 9000) for i in range(k)]
    ta, va = c.arr(t), [c.arr(x) for x in v]
    site = object()
    p = build(c, kind, ta, va, ang, length, site)
    for name, x, i in zip(names(kind), v, range(3)):
        unit = ang if kind in ("azel", "attitude") or (kind == "wgs84" and i < 2) else length
        got = getattr(p, name)
        c.check(repr(got.unit) == repr(unit), "unit of a component")
        c.check(len(got.data) == n, "rows of a component")
        for a, b in zip(got.to(unit), x):
            c.exact(a, b, "data of a component")
    for a, b in zip(p.time.to(u.jd2000), t):
        c.exact(a, b, "times")
    c.check(p.time.dimension == u.jd2000.dimension, "times are dates")
    if kind in ("azel", "attitude"):
        c.check(p.location is site, "location")
    # reading changes nothing
    for a, b in zip(va, v):
        for x, y in zip(a, b):
            c.exact(x, y, "the arrays given are not modified")


def array(c, n=3):
    """One row per time, the columns in order, in the unit asked for."""
    u, q = units(c)
    kind = c.pick("kind", [k for k in KINDS if k != "wgs84"])
    k = len(names(kind))
    angular = kind in ("azel", "attitude")
    a, b = c.pick("units", [(u.deg, u.rad), (u.arcmin, u.deg)] if angular else [(u.km, u.m), (u.m, u.km)])
    v = [c.reals("v%d_" % i, n, -9000, 9000) for i in range(k)]
    p = build(c, kind, c.arr(c.reals("t", n, 0, 10000)), [c.arr(x) for x in v], a, a)
    for unit in (a, b):
        m = p.to_numpy(unit)
        c.check(m.shape == (n, k), "one row per time")
        for i in range(n):
            for j in range(k):
                c.exact(m[i][j], q(v[j][i], a).to(unit), "columns in order")
    other = u.km if angular else u.deg
    c.check(c.raises(ValueError, p.to_numpy, other), "another dimension is refused")


def refused(c):
    """Lengths that differ, and arrays of more than one dimension."""
    u, q = units(c)
    kind = c.pick("kind", KINDS)
    k = len(names(kind))
    ns = [1 + c.choice("rows%d" % i, 3) for i in range(k + 1)]
    arrs = [c.arr([0.5] * n) for n in ns]
    ok = len(set(ns)) == 1
    flat = c.choice("flat", k + 2)
    if flat:
        arrs[flat - 1] = c.arr([[0.5, 1.0]] * ns[flat - 1]) if c.bool("pairs") else c.arr([[0.5]] * ns[flat - 1])
        ok = False
    good = not c.raises(ValueError, build, c, kind, arrs[0], arrs[1:], u.deg, u.km)
    c.check(good == ok, "accepted exactly when the arrays are flat and of one length")


def same_units(c):
    """The same position in other units is the same quantity."""
    u, q = units(c)
    kind = c.pick("kind", ("gcrs", "itrs", "lvlh"))
    v = c.reals("v", 3, -9000, 9000)
    t = c.arr([1.0])
    p = build(c, kind, t, [c.arr([x]) for x in v], None, u.km)
    r = build(c, kind, t, [c.arr([x * 1000]) for x in v], None, u.m)
    for n in names(kind):
        c.exact(getattr(p, n).to(u.m)[0] / 1000, getattr(r, n).to(u.m)[0] / 1000, "independent of the unit")


def satellite(c):
    """A satellite holds Earth-fixed positions, whichever frame it is given."""
    u, q = units(c)
    m = c.mod("celest.satellite")
    I = c.mod(F + "itrs").ITRS
    W = c.mod(F + "wgs84").WGS84
    n = 2
    t = c.reals("t", n, 0, 10000)
    v = [c.reals("p%d" % i, n, -9000, 9000) for i in range(3)]
    w = [c.reals("w%d" % i, n, -9, 9) for i in range(3)]
    kp, kv = c.pick("position", ("itrs", "gcrs")), c.pick("velocity", ("itrs", "gcrs", None))

    def turned(p):
        unit = p.x.unit
        return I(p.time.to(u.jd2000), -1 * p.y.to(unit), p.x.to(unit), p.z.to(unit), unit)
    if not c.patch("celest.satellite", "_gcrs_to_itrs", turned):
        c.assume(kp == "itrs" and kv != "gcrs")
    pos = build(c, kp, c.arr(t), [c.arr(x) for x in v], None, u.km)
    vel = build(c, kv, c.arr(t), [c.arr(x) for x in w], None, u.m / u.s) if kv else None
    sat = m.Satellite(pos) if vel is None else m.Satellite(pos, vel)
    for got, kind, data, unit in ((sat.position, kp, v, u.km), (sat.velocity, kv, w, u.m / u.s)):
        if kind is None:
            c.check(got is None, "no velocity")
            continue
        c.check(isinstance(got, I), "Earth-fixed")
        want = data if kind == "itrs" else [[-x for x in data[1]], data[0], data[2]]
        for name, x in zip("xyz", want):
            for a, b in zip(getattr(got, name).to(unit), x):
                c.exact(a, b, "position and velocity each in their place")
        for a, b in zip(got.time.to(u.jd2000), t):
            c.exact(a, b, "times")
    bad = W(c.arr(t), c.arr(v[0]), c.arr(v[1]), c.arr(v[2]), u.deg, u.km)
    c.check(c.raises(ValueError, m.Satellite, bad), "other frames are refused")
    c.check(c.raises(ValueError, m.Satellite, pos, bad), "other frames are refused")


HARNESSES = [
    Harness("kept", kept, "each of the 6 containers, 2 rows, every value"),
    Harness("array", array, "5 containers, 3 rows, every value, two units"),
    Harness("refused", refused, "each of the 6 containers, every combination of lengths up to 3, nested arrays"),
    Harness("same_units", same_units, "every position, km and m"),
    Harness("satellite", satellite, "2 rows, either frame for position and velocity, the rotation replaced"),
]
