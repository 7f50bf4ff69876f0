"""C08: Earth orientation series (Meeus; IERS conventions 2003)."""
import math
from symcel.harness import Harness
from checks.common import congruent, in_range, mods, JD_LO, JD_HI, J2000

ASSUMPTIONS = ["Julian dates within a century of J2000 (wider where a harness says so), 1 to 3 rows",
               "the constant and rate of the Earth rotation angle are compared to 0.003 degree, "
               "the published coefficients of the other series exactly (to 1e-6 degree for the nutation arguments, 1e-7 for the others)"]


def setup(c, centuries=1):
    u, Q, aq = mods(c)
    span = 36525 * centuries
    jds = [c.real("jd%d" % i, J2000 - span, J2000 + span) for i in range(c.pick("n", (1, 2, 3)))]
    if c.bool("scalar"):
        return u, Q, aq, Q(jds[0], u.jd2000), jds[:1], lambda v: [v]
    return u, Q, aq, Q(c.arr(jds), u.jd2000), jds, lambda v: v


def poly(T, cs):
    t, p = 0, 1
    for k in cs:
        t = t + k * p
        p = p * T
    return t


ARGS = [("elongation of the Moon", (297.85036, 445267.111480, -0.0019142, 1 / 189474)),
        ("anomaly of the Sun", (357.52772, 35999.050340, -0.0001603, -1 / 300000)),
        ("anomaly of the Moon", (134.96298, 477198.867398, 0.0086972, 1 / 56250)),
        ("latitude argument of the Moon", (93.27191, 483202.017538, -0.0036825, 1 / 327270)),
        ("longitude of the node", (125.04452, -1934.136261, 0.0020708, 1 / 450000))]


def era(c):
    u, Q, aq, j, jds, row = setup(c)
    e = row(aq.earth_rotation_angle(j).to(u.deg))
    for i, jd in enumerate(jds):
        in_range(c, e[i], 0, 360, "Earth rotation angle")
        ref = 360 * (0.7790572732640 + 1.00273781191135448 * (jd - J2000))
        congruent(c, e[i], ref, 360, 0.003, "Earth rotation angle")
    if len(jds) > 1:
        congruent(c, e[1] - e[0], 360.9856123035484 * (jds[1] - jds[0]), 360, 1e-5, "rotation rate")


def nut_args(c):
    u, Q, aq, j, jds, row = setup(c)
    v = aq.nutation_angles(j)
    c.check(len(v) == 5, "five arguments")
    for k, (name, cs) in enumerate(ARGS):
        d = row(v[k].to(u.deg))
        for i, jd in enumerate(jds):
            in_range(c, d[i], 0, 360, name)
            congruent(c, d[i], poly((jd - J2000) / 36525, cs), 360, 1e-6, name)


def sunmoon(T):
    return (poly(T, ARGS[4][1]), poly(T, (280.46645, 36000.76983)), poly(T, (218.3165, 481267.8813)))


def ref_nut(c, T):
    om, L, Lm = sunmoon(T)
    dpsi = -17.20 * c.sind(om) - 1.32 * c.sind(2 * L) - 0.23 * c.sind(2 * Lm) + 0.21 * c.sind(2 * om)
    deps = 9.20 * c.cosd(om) + 0.57 * c.cosd(2 * L) + 0.10 * c.cosd(2 * Lm) - 0.09 * c.cosd(2 * om)
    return dpsi, deps


OBL = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)


def nutation(c):
    u, Q, aq, j, jds, row = setup(c)
    p, e = aq.nutation_components(j)
    p, e = row(p.to(u.arcsec)), row(e.to(u.arcsec))
    mo, ao = row(aq.mean_obliquity(j).to(u.arcsec)), row(aq.apparent_obliquity(j).to(u.arcsec))
    for i, jd in enumerate(jds):
        T = (jd - J2000) / 36525
        dpsi, deps = ref_nut(c, T)
        c.approx(p[i], dpsi, 1e-7, "nutation in longitude")
        c.approx(e[i], deps, 1e-7, "nutation in obliquity")
        ref = poly(T / 100, OBL)
        c.approx(mo[i], ref, 1e-6, "mean obliquity")
        c.approx(ao[i], ref + deps, 1e-5, "apparent obliquity")


PREC = [("zeta", (2.5976176, 2306.0809506, 0.3019015, 0.0179663, -0.0000327, -0.0000002)),
        ("theta", (0, 2004.1917476, -0.4269353, -0.0418251, -0.0000601, -0.0000001)),
        ("z", (-2.5976176, 2306.0803226, 1.0947790, 0.0182273, 0.0000470, -0.0000003))]


def obliquity(c):
    """Over the whole validity of the polynomial, where all its terms count."""
    u, Q, aq, j, jds, row = setup(c, 100)
    mo = row(aq.mean_obliquity(j).to(u.arcsec))
    for i, jd in enumerate(jds):
        c.approx(mo[i], poly((jd - J2000) / 3652500, OBL), 1e-5, "mean obliquity over 20000 years")


def precession(c):
    u, Q, aq, j, jds, row = setup(c, 10)
    v = aq.conventional_precession_angles(j)
    c.check(len(v) == 3, "three angles")
    for k, (name, cs) in enumerate(PREC):
        d = row(v[k].to(u.arcsec))
        for i, jd in enumerate(jds):
            c.approx(d[i], poly((jd - J2000) / 36525, cs), 1e-7, "precession angle " + name)


def eot(c):
    u, Q, aq, j, jds, row = setup(c)
    v = row(aq.equation_of_time(j).to(u.rad))
    for i, jd in enumerate(jds):
        T = (jd - J2000) / 36525
        L, M = 280.46645 + 36000.76983 * T, poly(T, ARGS[1][1])
        e = poly(T, (0.016708634, -0.000042037, -0.0000001267))
        eps = aq.apparent_obliquity(Q(jd, u.jd2000)).to(u.deg)
        y = (c.sind(eps / 2) / c.cosd(eps / 2)) ** 2
        ref = (y * c.sind(2 * L) - 2 * e * c.sind(M) + 4 * e * y * c.sind(M) * c.cosd(2 * L)
               - 0.5 * y * y * c.sind(4 * L) - 1.25 * e * e * c.sind(2 * M))
        c.approx(v[i], ref, 1e-10, "equation of time")


def equinoxes(c):
    u, Q, aq, j, jds, row = setup(c)
    v = row(aq.equation_of_equinoxes(j).to(u.arcsec))
    for i, jd in enumerate(jds):
        dpsi, deps = ref_nut(c, (jd - J2000) / 36525)
        eps = aq.apparent_obliquity(Q(jd, u.jd2000)).to(u.deg)
        c.approx(v[i], dpsi * c.cosd(eps) / 15, 1e-7, "equation of the equinoxes")


def sun(c):
    u, Q, aq, j, jds, row = setup(c)
    v = row(aq.sun_right_ascension(j).to(u.deg))
    for i, jd in enumerate(jds):
        T = (jd - J2000) / 36525
        L, M = 280.46645 + 36000.76983 * T, poly(T, ARGS[1][1])
        C = (poly(T, (1.914602, -0.004817, -0.000014)) * c.sind(M)
             + poly(T, (0.019993, -0.000101)) * c.sind(2 * M) + 0.000289 * c.sind(3 * M))
        lam = L + C
        eps = aq.mean_obliquity(Q(jd, u.jd2000)).to(u.deg)
        x, y = c.cosd(lam), c.cosd(eps) * c.sind(lam)
        in_range(c, v[i], 0, 360.0000001, "right ascension of the Sun")
        c.approx(c.sind(v[i]) * x, c.cosd(v[i]) * y, 1e-9, "right ascension of the Sun: direction")
        c.check(c.cosd(v[i]) * x + c.sind(v[i]) * y > 0.5, "right ascension of the Sun: sense")


def curvature(c):
    u, Q, aq = mods(c)
    lat = c.real("lat", -90, 90)
    N = aq.radius_of_curvature_in_prime_vertical(Q(lat, u.deg)).to(u.km)
    a, b = 6378.137, 6356.752314245
    s = c.sind(lat)
    # N (1 - e^2 sin^2) ^ 1/2 = a
    c.check(N > 0, "radius of curvature positive")
    c.approx(N * N * (1 - (1 - b * b / (a * a)) * s * s) / (a * a), 1, 1e-9, "radius of curvature")


HARNESSES = [Harness("era", era, "1 to 3 rows"), Harness("nut_args", nut_args, "1 to 3 rows"),
             Harness("nutation", nutation, "1 to 3 rows"),
             Harness("obliquity", obliquity, "1 to 3 rows within 10000 years of J2000"), Harness("precession", precession, "1 to 3 rows within 1000 years of J2000"),
             Harness("eot", eot, "1 to 3 rows"), Harness("equinoxes", equinoxes, "1 to 3 rows"),
             Harness("sun", sun, "1 to 3 rows"), Harness("curvature", curvature, "all latitudes")]
