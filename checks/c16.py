"""C16: distance, look angle and altitude."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = [
    "components within 100000 km, satellites at least 100 km from the centre, targets at least 1 km away",
    "the ground location is any point (that it has the position of its coordinates is C11)",
    "altitude is compared with the geodetic height of the same position, whose definition is C12",
    "partial correctness of the altitude iteration (loop state abstracted)"]


def setup(c, n):
    u = c.mod("celest.units")
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    g = [c.real("g" + k, -6500, 6500) for k in "xyz"]

    class Site(G):
        itrs_x = property(lambda self: u.Quantity(g[0], u.km))
        itrs_y = property(lambda self: u.Quantity(g[1], u.km))
        itrs_z = property(lambda self: u.Quantity(g[2], u.km))

    r = [[c.real("r%s%d" % (k, i), -100000, 100000) for k in "xyz"] for i in range(n)]
    d = [[r[i][k] - g[k] for k in range(3)] for i in range(n)]
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    for i in range(n):
        c.assume(c.norm2(r[i]) >= 100 ** 2)
        c.assume(c.norm2(d[i]) >= 1)
        c.cauchy(d[i], r[i])
    lu, lk = c.pick("lunit", [(u.km, 1), (u.m, 1000)])
    P = ITRS(c.arr(jd), *[c.arr([x[k] * lk for x in r]) for k in range(3)], lu)
    return u, c.mod("celest.satellite").Satellite(P), Site(10, 20, 0, u.deg, u.km), r, d


def distance(c):
    n = c.pick("n", (1, 2, 3))
    u, sat, site, r, d = setup(c, n)
    q = sat.distance(site)
    x = q.to(u.km)
    c.check(len(x) == n, "one distance per time")
    for i in range(n):
        c.approx(x[i], c.sqrt(c.norm2(d[i])), 1e-6, "distance")
        c.check(x[i] >= 0, "distance is not negative")
        c.approx(q.to(u.m)[i] / 1000, c.sqrt(c.norm2(d[i])), 1e-6, "distance in metres")
        c.approx(sat.position.x.to(u.km)[i], r[i][0], 1e-8, "position unchanged")


def look_angle(c):
    n = c.pick("n", (1, 2, 3))
    u, sat, site, r, d = setup(c, n)
    q = sat.look_angle(site).to(u.deg)
    c.check(len(q) == n, "one look angle per time")
    for i in range(n):
        c.between(0, q[i], 180, "look angle")
        c.approx(c.cosd(q[i]), c.dot(r[i], d[i]) / c.sqrt(c.norm2(r[i])) / c.sqrt(c.norm2(d[i])), 1e-7,
                 "look angle between nadir and the location")


def altitude(c, n=1):
    u = c.mod("celest.units")
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    r = [[c.real("r%s%d" % (k, i), -60000, 60000) for i in range(n)] for k in "xyz"]
    for i in range(n):
        c.assume(c.norm2([x[i] for x in r]) >= 6000 ** 2)
        c.assume(r[0][i] * r[0][i] + r[1][i] * r[1][i] >= 1e-6)
    lu, lk = c.pick("lunit", [(u.km, 1), (u.m, 1000)])

    def pos():
        return ITRS(c.arr([0.0] * n), *[c.arr([x * lk for x in r[k]]) for k in range(3)], lu)

    c.havoc = True
    a = c.mod("celest.satellite").Satellite(pos()).altitude()
    w = c.mod("celest.coordinates.transforms")._itrs_to_wgs84(pos())
    c.havoc = False
    c.check(len(a.to(u.km)) == n, "one altitude per time")
    for i in range(n):
        c.approx(a.to(u.km)[i], w.height.to(u.km)[i], 1e-5, "altitude is the geodetic height")
        c.approx(a.to(u.m)[i] / 1000, w.height.to(u.km)[i], 1e-5, "altitude in metres")


def inputs(c):
    """Only the two Cartesian Earth-centred frames are positions."""
    u = c.mod("celest.units")
    L = c.mod("celest.coordinates.frames.lvlh").LVLH
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    S = c.mod("celest.satellite").Satellite
    x = [c.arr([c.real("x%d" % i, 1, 2)]) for i in range(3)]
    ok, bad = ITRS(c.arr([0.0]), *x, u.km), L(c.arr([0.0]), *x, u.km)
    c.check(c.raises(ValueError, S, bad), "refuses a position in another frame")
    c.check(c.raises(ValueError, S, ok, bad), "refuses a velocity in another frame")
    c.check(S(ok).position is ok, "keeps an Earth-fixed position")


HARNESSES = [
    Harness("distance", distance, "1 to 3 rows, 2 units"),
    Harness("look_angle", look_angle, "1 to 3 rows, 2 units"),
    Harness("altitude", altitude, "1 row, 2 units", opts=dict(opaque_atan2=True)),
    Harness("altitudes", lambda c: altitude(c, 2), "2 rows, 2 units", opts=dict(opaque_atan2=True)),
    Harness("inputs", inputs, "any position"),
]
