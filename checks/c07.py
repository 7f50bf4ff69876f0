"""C07: sidereal time."""
from symcel.harness import Harness
from checks.common import congruent, in_range, mods, JD_LO, JD_HI, J2000

ASSUMPTIONS = ["Julian dates within a century of J2000, longitudes in [-360, 360], 1 to 3 rows",
               "the constant and rate of the sidereal polynomial are compared to 0.003 degree"]


def setup(c):
    u, Q, aq = mods(c)
    T = c.mod("celest.time").Time
    jds = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(c.pick("n", (1, 2, 3)))]
    return u, Q, aq, T(c.arr(jds)), jds


def gmst(c):
    u, Q, aq, t, jds = setup(c)
    g = t.gmst().to(u.hourangle)
    c.check(len(g) == len(jds), "one value per time")
    for i in range(len(jds)):
        in_range(c, g[i], 0, 24, "Greenwich mean sidereal time")
        T = (jds[i] - J2000) / 36525
        ref = 280.46061837 + 360.98564736629 * (jds[i] - J2000) + 0.000387933 * T * T - T ** 3 / 38710000
        congruent(c, g[i], ref / 15, 24, 0.003 / 15, "published polynomial")


def rate(c):
    """The variation of the sidereal time follows the polynomial to its last term."""
    u, Q, aq, t, jds = setup(c)
    T = c.mod("celest.time").Time
    g0 = T(c.arr([J2000])).gmst().to(u.hourangle)[0]
    g = t.gmst().to(u.hourangle)
    for i in range(len(jds)):
        T = (jds[i] - J2000) / 36525
        var = 360.98564736629 * (jds[i] - J2000) + 0.000387933 * T * T - T ** 3 / 38710000
        congruent(c, g[i] - g0, var / 15, 24, 1e-9, "published polynomial")


def gast(c):
    u, Q, aq, t, jds = setup(c)
    g, a = t.gmst().to(u.hourangle), t.gast().to(u.hourangle)
    for i in range(len(jds)):
        in_range(c, a[i], 0, 24, "Greenwich apparent sidereal time")
        j = Q(jds[i], u.jd2000)
        # seconds of time: nutation in longitude times cos(obliquity) over 15
        dpsi, deps = aq.nutation_components(j)
        eps = (aq.mean_obliquity(j).to(u.deg) + deps.to(u.deg))
        e = dpsi.to(u.arcsec) * c.cosd(eps) / 15 / 3600
        congruent(c, a[i], g[i] + e, 24, 1e-6, "equation of the equinoxes")


def local(c):
    u, Q, aq, t, jds = setup(c)
    which = c.choice("which", 2)
    f = (t.lmst, t.last)[which]
    l0, l1 = c.real("l0", -360, 360), c.real("l1", -360, 360)
    a = f(l0).to(u.hourangle)
    b = f(c.arr([l1, l0, l0][:len(jds)])).to(u.hourangle)
    for i in range(len(jds)):
        in_range(c, a[i], 0, 24, "local sidereal time")
        in_range(c, b[i], 0, 24, "local sidereal time")
    congruent(c, b[0] - a[0], (l1 - l0) / 15, 24, 1e-6, "longitude shift")
    for i in range(1, len(jds)):
        congruent(c, b[i], a[i], 24, 1e-6, "array longitude")


def sun(c):
    """The documented relations with the Sun's right ascension."""
    u, Q, aq, t, jds = setup(c)
    lon = c.real("lon", -360, 360)
    m, a = t.lmst(lon).to(u.hourangle), t.last(lon).to(u.hourangle)
    h = t.mean_hour_angle(lon).to(u.hourangle)
    ut = t.ut1().to(u.hourangle)
    for i in range(len(jds)):
        j = Q(jds[i], u.jd2000)
        ra = aq.sun_right_ascension(j).to(u.deg) / 15
        eq = aq.equation_of_equinoxes(j).to(u.arcsec) / 3600
        congruent(c, m[i], h[i] + ra, 24, 1e-6, "mean: hour angle plus right ascension of the Sun")
        congruent(c, a[i], ut[i] - 12 + ra + eq + lon / 15, 24, 1e-6,
                  "apparent: right ascension of the Sun and equation of the equinoxes")


HARNESSES = [Harness("gmst", gmst, "1 to 3 rows"), Harness("rate", rate, "1 to 3 rows"), Harness("gast", gast, "1 to 3 rows"),
             Harness("local", local, "1 to 3 rows"), Harness("sun", sun, "1 to 3 rows")]
