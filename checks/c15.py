"""C15: attitude angles point the boresight at the target."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI
from checks.c14 import triad

ASSUMPTIONS = [
    "the Earth-fixed to inertial transformation is replaced by an arbitrary rotation about the pole per "
    "row (that it is a rotation of each row is C09)",
    "targets in view: look angles below 89 degrees, at least 1 km away",
    "the angles are the 2-1-3 (pitch, roll, yaw) decomposition documented for the attitude",
    "direction cosines compared to 1e-7"]


def setup(c, r, v, g, turn, units=True):
    n = len(r)
    u = c.mod("celest.units")
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]

    class Site(G):
        itrs_x = property(lambda self: u.Quantity(g[0], u.km))
        itrs_y = property(lambda self: u.Quantity(g[1], u.km))
        itrs_z = property(lambda self: u.Quantity(g[2], u.km))

    def to_gcrs(p):
        if not isinstance(p, ITRS):
            raise ValueError("frame")
        q = [turn(i, (p.x.data[i], p.y.data[i], p.z.data[i])) for i in range(n)]
        return GCRS(p.time.data, *[c.arr([q[i][k] for i in range(n)]) for k in range(3)], p.x.unit)

    c.patch("celest.satellite", "_itrs_to_gcrs", to_gcrs)
    c.patch("celest.coordinates.transforms", "_itrs_to_gcrs", to_gcrs)
    lu, lk = c.pick("lunit", [(u.km, 1), (u.m, 1000)]) if units else (u.km, 1)
    vu, vk = c.pick("vunit", [(u.km / u.s, 1), (u.m / u.s, 1000)]) if units else (u.m / u.s, 1000)
    site = Site(10, 20, 0, u.deg, u.km)
    P = ITRS(c.arr(jd), *[c.arr([x[k] * lk for x in r]) for k in range(3)], lu)
    V = ITRS(c.arr(jd), *[c.arr([x[k] * vk for x in v]) for k in range(3)], vu)
    return u, c.mod("celest.satellite").Satellite(P, V), site, jd


def expect(c, u, a, ref, jd):
    roll, pitch, yaw = a.roll.to(u.rad), a.pitch.to(u.rad), a.yaw.to(u.rad)
    for i, b in enumerate(ref):
        sr, cr = c.sin(roll[i]), c.cos(roll[i])
        sp, cp = c.sin(pitch[i]), c.cos(pitch[i])
        sy, cy = c.sin(yaw[i]), c.cos(yaw[i])
        c.check(cr >= 0, "roll within 90 degrees")
        c.approx(cr * cp, b[2], 1e-7, "look angle of the boresight")
        c.approx(sr, b[1], 1e-7, "roll")
        c.approx(-cr * sp, b[0], 1e-7, "pitch")
        # third column of the rotation: where it takes the nadir axis
        x, y = -sp, sr * cp
        c.approx(cy * x + sy * y, b[0], 1e-7, "nadir axis taken to the target, x")
        c.approx(-sy * x + cy * y, b[1], 1e-7, "nadir axis taken to the target, y")
        c.approx(a.time.to(u.jd2000)[i], jd[i], 1e-9, "time kept")


def attitude(c):
    """Any state: orbit plane and position by three angles, the target by
    its offset in the local frame."""
    rho, vt, vr = c.real("rho", 100, 100000), c.real("vt", 1, 50), c.real("vr", -50, 50)
    (sa, ca), (sb, cb), (sg, cg) = [(c.sind(x), c.cosd(x)) for x in
                                    [c.real("node", -180, 180), c.real("incl", -180, 180),
                                     c.real("arg", -180, 180)]]
    # columns of Rz(node) Rx(incl) Rz(arg): radial, along-track, normal
    e = [[ca * cg - sa * cb * sg, sa * cg + ca * cb * sg, sb * sg],
         [-ca * sg - sa * cb * cg, -sa * sg + ca * cb * cg, sb * cg],
         [sa * sb, -ca * sb, cb]]
    r = [rho * x for x in e[0]]
    v = [vt * e[1][k] + vr * e[0][k] for k in range(3)]
    D, half, clock = c.real("D", 1, 100000), c.real("half", -44.5, 44.5), c.real("clock", -180, 180)
    sh, ch = c.sind(half), c.cosd(half)
    b = [2 * sh * ch * c.cosd(clock), 2 * sh * ch * c.sind(clock), 2 * ch * ch - 1]
    for x in b:
        c.lemma(x <= 1)
        c.lemma(x >= -1)
    c.lemma(b[0] * b[0] + b[2] * b[2] >= math.cos(math.radians(89)) ** 2)
    t = [D * x for x in b]
    g = [r[k] + t[0] * e[1][k] - t[1] * e[2][k] - t[2] * e[0][k] for k in range(3)]
    u, sat, site, jd = setup(c, [r], [v], g, lambda i, w: w)
    a = sat.attitude(site)
    c.check(type(a) is c.mod("celest.coordinates.frames.attitude").Attitude, "frame")
    expect(c, u, a, [b], jd)


def two_rows(c):
    """Each row has the angles it has alone."""
    th = [(c.sind(x), c.cosd(x)) for x in [c.real("theta%d" % i, -180, 180) for i in range(2)]]

    def turn(i, w):
        s, k = th[i]
        return k * w[0] - s * w[1], s * w[0] + k * w[1], w[2]

    r = [[c.real("r%s%d" % (k, i), -100000, 100000) for k in "xyz"] for i in range(2)]
    v = [[0, c.real("vy%d" % i, -50, 50), c.real("vz%d" % i, -50, 50)] for i in range(2)]
    g = [c.real("g" + k, -6400, 6400) for k in "xyz"]
    for i in range(2):
        c.assume(c.norm2(r[i]) >= 100 ** 2)
        c.assume(c.norm2(c.crossv(r[i], v[i])) >= 100 ** 2)
        d = [g[k] - r[i][k] for k in range(3)]
        c.assume(c.norm2(d) >= 1)
        D = c.sqrt(c.norm2(d))
        b = [c.dot(a, d) / D for a in triad(c, r[i], v[i])]
        c.assume(b[2] >= math.cos(math.radians(89)))
        for x in b:
            c.lemma(x <= 1)
            c.lemma(x >= -1)
    u, sat, site, jd = setup(c, r, v, g, turn, False)
    both = sat.attitude(site)
    one = c.choice("row", 2)
    u, sat, site, jd = setup(c, [r[one]], [v[one]], g, lambda i, w: turn(one, w), False)
    alone = sat.attitude(site)
    for k in ("roll", "pitch", "yaw"):
        c.approx(getattr(both, k).to(u.rad)[one], getattr(alone, k).to(u.rad)[0], 1e-9,
                 k + " of a row depends on that row only")


def no_velocity(c):
    u = c.mod("celest.units")
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    x = [c.real("x%d" % i, 7000, 8000) for i in range(3)]
    sat = c.mod("celest.satellite").Satellite(ITRS(c.arr([0.0]), *[c.arr([a]) for a in x], u.km))
    c.check(c.raises(ValueError, sat.attitude, G(0, 0, 0, u.deg, u.km)), "velocity required")


HARNESSES = [
    Harness("attitude", attitude, "1 row, 2 x 2 units, every orbit orientation"),
    Harness("two_rows", two_rows, "2 rows, km and m/s, velocities in the yz plane, every Earth rotation"),
    Harness("no_velocity", no_velocity, "any position"),
]
