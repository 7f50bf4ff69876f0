"""C12: Earth-fixed to geodetic coordinates."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI
from checks.c11 import A

B = 6356.752314245
E2 = 1 - B ** 2 / A ** 2

ASSUMPTIONS = [
    "geocentric distances from 6000 to 60000 km",
    "partial correctness of the iteration: every state it can stop in is covered, whatever the "
    "number of rounds (loop state abstracted to arbitrary values); that it stops is not claimed",
    "the coordinates returned map back to the position within 1e-5 km"]


def _load(c):
    return (c.mod("celest.units"), c.mod("celest.coordinates.frames.wgs84").WGS84,
            c.mod("celest.coordinates.frames.itrs").ITRS, c.mod("celest.coordinates.transforms"))


def lipschitz(c, angles):
    """Mean value theorem for sin and sin/sqrt(1 - e2 sin^2), instantiated at
    the abstracted loop variables: facts of mathematics, true at all angles."""
    for h in c.havoced:
        for a in angles:
            s0, s1, k1 = c.sin(h), c.sin(a), c.cos(a)
            d = s1 - s0
            D = s1 / c.sqrt(1 - E2 * s1 * s1) - s0 / c.sqrt(1 - E2 * s0 * s0)
            w0, w1 = s0 / c.sqrt(1 - E2 * s0 * s0), s1 / c.sqrt(1 - E2 * s1 * s1)
            for x in (s1 * k1, k1 * k1, s1 * s1):
                for y in (w0, w1):
                    c.lemma(x * y <= 1.02)
                    c.lemma(x * y >= -1.02)
            for t in (1e-6, 1e-9):
                near = (h - a <= t) & (a - h <= t)
                for x in (d, D / 1.02, D * s1 * s1 / 1.02, D * s1 * k1 / 1.02, D * k1 * k1 / 1.02):
                    c.lemma(~near | ((x <= t) & (x >= -t)))


def inverse(c, n=1):
    u, WGS84, ITRS, tr = _load(c)
    pos = [[c.real("%s%d" % (k, i), -60000, 60000) for k in "xyz"] for i in range(n)]
    for v in pos:
        c.assume(c.norm2(v) >= 6000 ** 2)
        c.assume(c.norm2(v) <= 60000 ** 2)
        c.assume(v[0] * v[0] + v[1] * v[1] >= 1e-6)
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    unit, k = c.pick("unit", [(u.km, 1), (u.m, 1000)])
    p = ITRS(c.arr(jd), *[c.arr([v[a] * k for v in pos]) for a in range(3)], unit)
    c.havoc = True
    w = tr._itrs_to_wgs84(p)
    c.havoc = False
    c.check(type(w) is WGS84, "frame")
    la, lo, h = w.latitude.to(u.rad), w.longitude.to(u.rad), w.height.to(u.km)
    for i in range(n):
        x, y, z = pos[i]
        lipschitz(c, [la[i]])
        c.check(la[i] >= -math.pi / 2 - 1e-9, "latitude not below -90")
        c.check(la[i] <= math.pi / 2 + 1e-9, "latitude not above 90")
        c.check(lo[i] >= -math.pi - 1e-9, "longitude not below -180")
        c.check(lo[i] <= math.pi + 1e-9, "longitude not above 180")
        s, k = c.sin(la[i]), c.cos(la[i])
        N = A / c.sqrt(1 - E2 * s * s)
        rho = c.sqrt(x * x + y * y)
        c.approx((N + h[i]) * k, rho, 1e-5, "maps back to the distance from the axis")
        c.approx(c.cos(lo[i]), x / rho, 1e-10, "maps back to x")
        c.approx(c.sin(lo[i]), y / rho, 1e-10, "maps back to y")
        c.approx((N * (1 - E2) + h[i]) * s, z, 1e-5, "maps back to z")
        c.approx(w.time.to(u.jd2000)[i], jd[i], 1e-9, "time kept")


def two_rows(c):
    inverse(c, 2)


def poles(c):
    u, WGS84, ITRS, tr = _load(c)
    z = c.real("z", 6000, 60000) * (-1 if c.bool("south") else 1)
    p = ITRS(c.arr([c.real("jd", JD_LO, JD_HI)]), c.arr([0.0]), c.arr([0.0]), c.arr([z]), u.km)
    c.havoc = True
    w = tr._itrs_to_wgs84(p)
    c.havoc = False
    c.approx(abs(w.latitude.to(u.deg)[0]), 90, 1e-6, "latitude of a pole")
    c.check((w.latitude.to(u.deg)[0] > 0) == (z > 0), "hemisphere of a pole")
    c.approx(w.height.to(u.km)[0], abs(z) - B, 1e-5, "height above a pole")


HARNESSES = [Harness("inverse", inverse, "1 row, two units", opts=dict(opaque_atan2=True)),
             Harness("two_rows", two_rows, "2 rows, two units", opts=dict(opaque_atan2=True)),
             Harness("poles", poles, "exact poles", opts=dict(opaque_atan2=True)),
]
