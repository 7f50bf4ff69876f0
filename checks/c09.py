"""C09: inertial <-> Earth-fixed positions."""
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = ["Julian dates within a century of J2000, components up to 1e5 km",
               "comparisons to 1e-6 of the position unit (the frame bias is stored as rounded floats)",
               "polar motion is documented as ignored and is not modelled"]
R = 100000


def frames(c):
    return (c.mod("celest.units"), c.mod("celest.coordinates.frames.gcrs").GCRS,
            c.mod("celest.coordinates.frames.itrs").ITRS,
            c.mod("celest.coordinates.transforms"))


def vec(c, n):
    return [c.real("%s%s" % (n, k), -R, R) for k in "xyz"]


def build(c, cls, jds, vs, unit):
    return cls(c.arr(jds), *[c.arr([v[k] for v in vs]) for k in range(3)], unit)


def comp(p, unit):
    return [p.x.to(unit), p.y.to(unit), p.z.to(unit)]


def round_trip(c):
    u, GCRS, ITRS, tr = frames(c)
    jds = [c.real("jd", JD_LO, JD_HI)]
    vs = [vec(c, "p")]
    there = c.bool("from_gcrs")
    unit = c.pick("unit", [u.km, u.m])
    p = build(c, GCRS if there else ITRS, jds, vs, unit)
    f, b = (tr._gcrs_to_itrs, tr._itrs_to_gcrs) if there else (tr._itrs_to_gcrs, tr._gcrs_to_itrs)
    q = f(p)
    c.check(type(q) is (ITRS if there else GCRS), "frame of the result")
    r = b(q)
    c.check(type(r) is type(p), "frame of the round trip")
    c.check(q.x.unit == unit and q.y.unit == unit and q.z.unit == unit, "unit kept")
    for k in range(3):
        c.approx(comp(r, unit)[k][0], vs[0][k], 1e-6, "round trip, component %d" % k)
        c.approx(comp(p, unit)[k][0], vs[0][k], 1e-6, "input position unchanged")
    c.approx(q.time.to(u.jd2000)[0], jds[0], 1e-9, "time kept")
    c.approx(p.time.to(u.jd2000)[0], jds[0], 1e-9, "input time unchanged")


def rigid(c):
    """Length of every vector."""
    u, GCRS, ITRS, tr = frames(c)
    jd = c.real("jd", JD_LO, JD_HI)
    a = vec(c, "p")
    there = c.bool("from_gcrs")
    p = build(c, GCRS if there else ITRS, [jd], [a], u.km)
    q = (tr._gcrs_to_itrs if there else tr._itrs_to_gcrs)(p)
    x = [comp(q, u.km)[k][0] for k in range(3)]
    c.approx(c.dot(x, x), c.dot(a, a), 1e-2, "length preserved")


def definition(c):
    """Bias, precession, nutation, then the rotation of the Earth."""
    u, GCRS, ITRS, tr = frames(c)
    Q = c.mod("celest.units.quantity").Quantity
    mt = c.mod("celest.coordinates.nutation_precession_matrices")
    aq = c.mod("celest.coordinates.astronomical_quantities")
    jd, v = c.real("jd", JD_LO, JD_HI), vec(c, "p")
    q = comp(tr._gcrs_to_itrs(build(c, GCRS, [jd], [v], u.km)), u.km)
    j = Q(c.arr([jd]), u.jd2000)
    for M in (mt.bias_matrix(), mt.precession_matrix(j)[0], mt.nutation_matrix(j)[0]):
        v = [M[i, 0] * v[0] + M[i, 1] * v[1] + M[i, 2] * v[2] for i in range(3)]
    a = aq.earth_rotation_angle(j).to(u.deg)[0]
    s, k = c.sind(a), c.cosd(a)
    for i, ref in enumerate((k * v[0] + s * v[1], k * v[1] - s * v[0], v[2])):
        c.approx(q[i][0], ref, 1e-5, "documented rotations in order")


def rows(c):
    u, GCRS, ITRS, tr = frames(c)
    n = c.pick("n", (2, 3))
    jds = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    vs = [vec(c, "pqr"[i]) for i in range(n)]
    there = c.bool("from_gcrs")
    cls = GCRS if there else ITRS
    f = tr._gcrs_to_itrs if there else tr._itrs_to_gcrs
    both = comp(f(build(c, cls, jds, vs, u.km)), u.km)
    for i in range(n):
        one = comp(f(build(c, cls, jds[i:i + 1], vs[i:i + 1], u.km)), u.km)
        c.check(len(both[0]) == n and len(one[0]) == 1, "one row per time")
        for k in range(3):
            c.approx(both[k][i], one[k][0], 1e-6, "row %d independent of the others" % i)


def wrong_frame(c):
    u, GCRS, ITRS, tr = frames(c)
    v = vec(c, "p")
    jd = c.real("jd", JD_LO, JD_HI)
    c.check(c.raises(ValueError, tr._gcrs_to_itrs, build(c, ITRS, [jd], [v], u.km)), "refuses ITRS")
    c.check(c.raises(ValueError, tr._itrs_to_gcrs, build(c, GCRS, [jd], [v], u.km)), "refuses GCRS")


HARNESSES = [Harness("round_trip", round_trip, "1 row, both directions, two units"),
             Harness("rigid", rigid, "1 row, both directions"),
             Harness("definition", definition, "1 row"),
             Harness("rows", rows, "2 and 3 rows, both directions"),
             Harness("wrong_frame", wrong_frame, "1 row")]
