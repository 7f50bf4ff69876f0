"""C06: solar times, hour angles, UT1."""
from symcel.harness import Harness
from checks.common import congruent, in_range, mods, JD_LO, JD_HI

ASSUMPTIONS = ["Julian dates within a century of J2000, longitudes within +-360 degrees, 1 to 3 rows"]


def setup(c):
    u, Q, aq = mods(c)
    T = c.mod("celest.time").Time
    n = c.pick("n", (1, 2, 3))
    jds = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    if c.bool("scalar_longitude"):
        l = c.real("lon", -360, 360)
        lon, lons = l, [l] * n
    else:
        lons = c.reals("lon", n, -360, 360)
        lon = c.arr(lons)
    return u, Q, aq, T(c.arr(jds)), jds, lon, lons


def utc(c, jd):
    """Hours of the day: a Julian day begins at noon."""
    return 24 * (jd - c.floor(jd)) + 12


def mean(c):
    u, Q, aq, t, jds, lon, lons = setup(c)
    m = t.mean_solar_time(lon).to(u.hourangle)
    h = t.mean_hour_angle(lon).to(u.hourangle)
    d = t.mean_hour_angle(lon).to(u.deg)
    c.check(len(m) == len(jds), "one mean solar time per time")
    for i in range(len(jds)):
        in_range(c, m[i], 0, 24, "mean solar time")
        congruent(c, m[i], utc(c, jds[i]) + lons[i] / 15, 24, 1e-6, "mean solar time")
        in_range(c, h[i], 0, 24, "mean hour angle")
        congruent(c, h[i], m[i] + 12, 24, 1e-6, "mean hour angle counts from noon")
        c.approx(d[i], 15 * h[i], 1e-6, "fifteen degrees an hour")


def true(c):
    u, Q, aq, t, jds, lon, lons = setup(c)
    s = t.true_solar_time(lon).to(u.hourangle)
    h = t.true_hour_angle(lon).to(u.hourangle)
    m = t.mean_solar_time(lon).to(u.hourangle)
    c.check(len(s) == len(jds), "one true solar time per time")
    for i in range(len(jds)):
        e = aq.equation_of_time(Q(jds[i], u.jd2000)).to(u.deg) / 15
        in_range(c, s[i], 0, 24, "true solar time")
        congruent(c, s[i], m[i] + e, 24, 1e-6, "true solar time is mean plus equation of time")
        in_range(c, h[i], 0, 24, "true hour angle")
        congruent(c, h[i], s[i] + 12, 24, 1e-6, "true hour angle counts from noon")


def ut1(c):
    u, Q, aq, t, jds, lon, lons = setup(c)
    v = t.ut1().to(u.hourangle)
    for i in range(len(jds)):
        in_range(c, v[i], 0, 24, "UT1")
        congruent(c, v[i], utc(c, jds[i]), 24, 1e-6, "UT1 is the time of day")
    c.check(len(t) == len(jds), "length")
    for i in range(len(jds)):
        c.approx(t.julian.to(u.jd2000)[i], jds[i], 4e-9, "times kept")


def offsets(c):
    """Times given with an offset, as scalars or lists."""
    u, Q, aq = mods(c)
    T = c.mod("celest.time").Time
    x = c.real("x", 0, 60000)
    off = c.real("off", 2400000, 2460000)
    a = T(c.arr([x, x + 1]), off)
    b = T(x, offset=off)
    c.approx(a.julian.data[0], x + off, 4e-9, "offset added")
    c.approx(a.julian.data[1], x + 1 + off, 4e-9, "offset added to each")
    c.check(len(a) == 2 and len(b) == 1, "lengths")
    c.approx(b.julian.data[0], x + off, 4e-9, "scalar time")
    congruent(c, b.ut1().to(u.hourangle)[0], utc(c, x + off), 24, 1e-6, "UT1 of an offset time")
    s = c.arr([x, x + 1])
    T(s, off).mean_solar_time(10)
    c.approx(s[0], x, 1e-9, "input array unchanged")
    c.check(c.raises(ValueError, T, c.np.array([[x, x], [x, x]])), "two-dimensional times refused")


HARNESSES = [Harness("mean", mean, "1 to 3 rows"), Harness("true", true, "1 to 3 rows"),
             Harness("ut1", ut1, "1 to 3 rows"), Harness("offsets", offsets, "2 rows")]
