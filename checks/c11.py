"""C11: geodetic to Earth-fixed coordinates on the WGS84 ellipsoid."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = ["heights from -100 to 100000 km", "positions compared to 1e-5 km; the defining constants "
               "a = 6378.137 km and 1/f = 298.257223563 are the published ones"]
A, F = 6378.137, 1 / 298.257223563
E2 = F * (2 - F)
B = A * (1 - F)


def geodetic(c, n=1):
    return [(c.real("lat%d" % i, -90, 90), c.real("lon%d" % i, -180, 180), c.real("h%d" % i, -100, 100000))
            for i in range(n)]


def reference(c, la, lo, h):
    s = c.sind(la)
    n = A / c.sqrt(1 - E2 * s * s)
    return ((n + h) * c.cosd(la) * c.cosd(lo), (n + h) * c.cosd(la) * c.sind(lo),
            (n * (1 - E2) + h) * s)


def angle_units(c, u):
    return c.pick("aunit", [(u.deg, 1.0), (u.rad, math.pi / 180), (u.arcmin, 60.0)])


def length_units(c, u):
    return c.pick("lunit", [(u.km, 1.0), (u.m, 1000.0)])


def to_itrs(c):
    u = c.mod("celest.units")
    WGS84 = c.mod("celest.coordinates.frames.wgs84").WGS84
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    n = c.pick("n", (1, 2, 3))
    g = geodetic(c, n)
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    au, ak = angle_units(c, u)
    lu, lk = length_units(c, u)
    w = WGS84(c.arr(jd), c.arr([x[0] * ak for x in g]), c.arr([x[1] * ak for x in g]),
              c.arr([x[2] * lk for x in g]), au, lu)
    p = c.mod("celest.coordinates.transforms")._wgs84_to_itrs(w)
    c.check(type(p) is ITRS, "frame")
    xyz = [p.x.to(u.km), p.y.to(u.km), p.z.to(u.km)]
    for i in range(n):
        ref = reference(c, *g[i])
        for k in range(3):
            c.approx(xyz[k][i], ref[k], 1e-5, "WGS84 position, component %d" % k)
        c.approx(p.time.to(u.jd2000)[i], jd[i], 1e-9, "time kept")
        c.approx(w.latitude.to(au)[i], g[i][0] * ak, 1e-9, "input unchanged")


def ellipsoid(c):
    """Height zero lies on the ellipsoid; height moves along its normal."""
    u = c.mod("celest.units")
    WGS84 = c.mod("celest.coordinates.frames.wgs84").WGS84
    tr = c.mod("celest.coordinates.transforms")
    (la, lo, h), = geodetic(c)
    jd = c.real("jd", JD_LO, JD_HI)
    w = WGS84(c.arr([jd, jd]), c.arr([la, la]), c.arr([lo, lo]), c.arr([h, 0 * h]), u.deg, u.km)
    p = tr._wgs84_to_itrs(w)
    x, y, z = p.x.to(u.km), p.y.to(u.km), p.z.to(u.km)
    c.approx((x[1] * x[1] + y[1] * y[1]) / A ** 2 + z[1] * z[1] / B ** 2, 1, 1e-8, "on the ellipsoid")
    for k, (d, n) in enumerate(((x, c.cosd(la) * c.cosd(lo)), (y, c.cosd(la) * c.sind(lo)), (z, c.sind(la)))):
        c.approx(d[0] - d[1], h * n, 1e-5, "height along the normal, component %d" % k)


def location(c):
    u = c.mod("celest.units")
    GL = c.mod("celest.coordinates.ground_location").GroundLocation
    (la, lo, h), = geodetic(c)
    au, ak = angle_units(c, u)
    lu, lk = length_units(c, u)
    if ak != 1:
        # the float conversion of the limits themselves is left out
        c.assume(abs(la) <= 90 - 1e-9)
        c.assume(abs(lo) <= 180 - 1e-9)
    L = GL(la * ak, lo * ak, h * lk, au, lu)
    ref = reference(c, la, lo, h)
    for k, q in enumerate((L.itrs_x, L.itrs_y, L.itrs_z)):
        c.approx(q.to(u.km), ref[k], 1e-5, "location position, component %d" % k)
    c.approx(L.latitude.to(u.deg), la, 1e-9, "latitude kept")
    c.approx(L.longitude.to(u.deg), lo, 1e-9, "longitude kept")
    c.approx(L.height.to(u.km), h, 1e-6, "height kept")


def radius(c):
    u = c.mod("celest.units")
    GL = c.mod("celest.coordinates.ground_location").GroundLocation
    (la, lo, h), = geodetic(c)
    au, ak = angle_units(c, u)
    lu, lk = length_units(c, u)
    if ak != 1:
        c.assume(abs(la) <= 90 - 1e-9)
    L = GL(la * ak, 0 * la, h * lk, au, lu)
    foot = reference(c, la, lo, 0)
    r2 = c.norm2(foot)
    r = L.radius.to(u.km) - h
    c.check(r > 0, "radius positive")
    c.approx(r * r, r2, 1e-3, "radius of the ellipsoid at the latitude")


def ranges(c):
    u = c.mod("celest.units")
    GL = c.mod("celest.coordinates.ground_location").GroundLocation
    la, lo = c.real("lat", -400, 400), c.real("lon", -400, 400)
    c.assume(abs(abs(la) - 90) >= 1e-6)
    c.assume(abs(abs(lo) - 180) >= 1e-6)
    au, ak = angle_units(c, u)
    h = c.real("h", -10, 10)
    bad = (la > 90) or (la < -90) or (lo > 180) or (lo < -180)
    c.check(c.raises(ValueError, GL, la * ak, lo * ak, h, au, u.km) == bool(bad),
            "refused exactly outside the ranges")


HARNESSES = [Harness("to_itrs", to_itrs, "1 to 3 rows, 3 angular and 2 length units"),
             Harness("ellipsoid", ellipsoid, "1 position"),
             Harness("location", location, "3 angular and 2 length units"),
             Harness("radius", radius, "every latitude and height, 3 angular and 2 length units"),
             Harness("ranges", ranges, "3 angular units")]
