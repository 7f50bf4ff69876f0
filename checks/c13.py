"""C13: azimuth and elevation are the topocentric direction."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI
from checks.c11 import reference

ASSUMPTIONS = [
    "the horizontal plane is the one normal to the station's geocentric position vector; north is the "
    "direction in it towards the pole, east the direction of the Earth's rotation",
    "targets at least 1 km away from the station; azimuth where the target is at least 1 m off the vertical",
    "the station is any point 6000 to 9050 km from the Earth's centre at least 100 m off the axis (that a "
    "ground location has the position of its coordinates is C11); target components within 100000 km",
    "sines and cosines of the angles compared to 1e-9 (1e-7 where rounding is amplified)"]


def setup(c, n):
    u = c.mod("celest.units")
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    lat, lon = c.real("lat", -90, 90), c.real("lon", -180, 180)
    rho, gz = c.real("rho", 0.1, 6400), c.real("gz", -6400, 6400)
    c.assume(rho * rho + gz * gz >= 6000 ** 2)
    au, ak = c.pick("aunit", [(u.deg, 1.0), (u.rad, math.pi / 180)])
    g = [rho * c.cosd(lon), rho * c.sind(lon), gz]

    class Site(G):
        itrs_x = property(lambda self: u.Quantity(g[0], u.km))
        itrs_y = property(lambda self: u.Quantity(g[1], u.km))
        itrs_z = property(lambda self: u.Quantity(g[2], u.km))

    site = Site(lat * ak, lon * ak, 0, au, u.km)
    pos = [[c.real("%s%d" % (k, i), -100000, 100000) for k in "xyz"] for i in range(n)]
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    lu, lk = c.pick("lunit", [(u.km, 1), (u.m, 1000)])
    p = ITRS(c.arr(jd), *[c.arr([v[a] * lk for v in pos]) for a in range(3)], lu)
    return u, site, g, pos, p, lon, jd


def horizon(c, g, v, lon):
    d = [v[k] - g[k] for k in range(3)]
    east = [-c.sind(lon), c.cosd(lon), 0]
    north = c.crossv(g, east)
    return d, c.dot(d, east), c.dot(d, north)


def azimuth(c, n=1):
    u, site, g, pos, p, lon, jd = setup(c, n)
    G = c.sqrt(c.norm2(g))
    for v in pos:
        d, e, nn = horizon(c, g, v, lon)
        c.assume(c.norm2(d) >= 1)
        c.assume(e * e + nn * nn / c.norm2(g) >= 1e-6)
    az = c.mod("celest.coordinates.transforms")._azimuth(p, site)
    for i in range(n):
        d, e, nn = horizon(c, g, pos[i], lon)
        nn = nn / G
        r = c.sqrt(e * e + nn * nn)
        c.between(0, az[i], 360, "azimuth")
        c.approx(c.sind(az[i]), e / r, 1e-7, "azimuth, eastward part")
        c.approx(c.cosd(az[i]), nn / r, 1e-7, "azimuth, northward part")


def elevation(c, n=1):
    u, site, g, pos, p, lon, jd = setup(c, n)
    for v in pos:
        d = [v[k] - g[k] for k in range(3)]
        c.assume(c.norm2(d) >= 1)
        c.cauchy(d, g)
    el = c.mod("celest.coordinates.transforms")._elevation(p, site)
    for i in range(n):
        d = [pos[i][k] - g[k] for k in range(3)]
        c.between(-90, el[i], 90, "elevation")
        c.approx(c.sind(el[i]), c.dot(d, g) / c.sqrt(c.norm2(d)) / c.sqrt(c.norm2(g)), 1e-7,
                 "elevation above the horizontal plane")


def both(c):
    """Several targets through the conversion itself."""
    n = c.pick("n", (2, 3))
    u, site, g, pos, p, lon, jd = setup(c, n)
    AzEl = c.mod("celest.coordinates.frames.azel").AzEl
    for v in pos:
        d, e, nn = horizon(c, g, v, lon)
        c.assume(c.norm2(d) >= 1)
        c.assume(e * e + nn * nn / c.norm2(g) >= 1e-6)
        c.cauchy(d, g)
    r = c.mod("celest.coordinates.transforms")._itrs_to_azel(p, site)
    c.check(type(r) is AzEl, "frame")
    c.check(r.location is site, "location kept")
    az, el, t = r.azimuth.to(u.rad), r.elevation.to(u.rad), r.time.to(u.jd2000)
    for i in range(n):
        d, e, nn = horizon(c, g, pos[i], lon)
        nn = nn / c.sqrt(c.norm2(g))
        h = c.sqrt(e * e + nn * nn)
        c.approx(c.sin(az[i]), e / h, 1e-7, "azimuth of its own row")
        c.approx(c.cos(az[i]), nn / h, 1e-7, "azimuth of its own row")
        c.approx(c.sin(el[i]), c.dot(d, g) / c.sqrt(c.norm2(d)) / c.sqrt(c.norm2(g)), 1e-7,
                 "elevation of its own row")
        c.approx(t[i], jd[i], 1e-9, "time kept")


HARNESSES = [
    Harness("azimuth", azimuth, "1 target, 2 angle and 2 length units"),
    Harness("elevation", elevation, "1 target, 2 angle and 2 length units"),
    Harness("both", both, "2 and 3 targets, 2 angle and 2 length units"),
]
