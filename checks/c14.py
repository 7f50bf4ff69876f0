"""C14: the local-vertical local-horizontal frame is its definition."""
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = ["positions of 100 to 100000 km, velocities up to 50 km/s, angular momentum at least 100 km2/s",
               "components compared relative to the vector's scale, to 1e-5 of a unit"]


def state(c, n, num=None, vel=None):
    r = [[(num or c.real)("r%s%d" % (k, i), -100000, 100000) for k in "xyz"] for i in range(n)]
    v = [[(vel or c.real)("v%s%d" % (k, i), -50, 50) for k in "xyz"] for i in range(n)]
    for i in range(n):
        c.assume(c.norm2(r[i]) >= 100 ** 2)
        c.assume(c.norm2(c.crossv(r[i], v[i])) >= 100 ** 2)
    return r, v


def triad(c, r, v):
    """The definition: z to the centre, y against the orbit normal."""
    h = c.crossv(r, v)
    R, H = c.sqrt(c.norm2(r)), c.sqrt(c.norm2(h))
    z = [-x / R for x in r]
    y = [-x / H for x in h]
    return c.crossv(y, z), y, z


def matrix(c, n=1):
    r, v = state(c, n)
    m = c.mod("celest.coordinates.transforms")._gcrs_to_lvlh_matrix(c.arr(r), c.arr(v))
    c.check(tuple(m.shape) == (n, 3, 3), "one matrix per row")
    for i in range(n):
        t = triad(c, r[i], v[i])
        for a in range(3):
            for b in range(3):
                c.approx(m[i, a, b], t[a][b], 1e-7, "axis %s" % "xyz"[a])


def two_matrices(c):
    matrix(c, c.pick("n", (2, 3)))


def frame(c, n=1):
    u = c.mod("celest.units")
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    LVLH = c.mod("celest.coordinates.frames.lvlh").LVLH
    r, v = state(c, n)
    jd = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(n)]
    pu, pk = c.pick("punit", [(u.km, 1), (u.m, 1000)])
    vu, vk = c.pick("vunit", [(u.km / u.s, 1), (u.m / u.s, 1000)])
    P = GCRS(c.arr(jd), *[c.arr([x[k] * pk for x in r]) for k in range(3)], pu)
    V = GCRS(c.arr(jd), *[c.arr([x[k] * vk for x in v]) for k in range(3)], vu)
    lp, lv = c.mod("celest.coordinates.transforms")._gcrs_to_lvlh(P, V)
    c.check(type(lp) is LVLH and type(lv) is LVLH, "frames")
    p = [q.to(u.km) for q in (lp.x, lp.y, lp.z)]
    w = [q.to(u.km / u.s) for q in (lv.x, lv.y, lv.z)]
    for i in range(n):
        t = triad(c, r[i], v[i])
        for k in range(3):
            c.approx(p[k][i], c.dot(t[k], r[i]), 1e-5, "position along %s" % "xyz"[k])
            c.approx(w[k][i], c.dot(t[k], v[i]), 1e-7, "velocity along %s" % "xyz"[k])
        c.approx(p[0][i], 0, 1e-5, "position along x is zero")
        c.approx(p[1][i], 0, 1e-5, "position along y is zero")
        c.approx(w[1][i], 0, 1e-5, "velocity along y is zero")
        c.approx(lp.time.to(u.jd2000)[i], jd[i], 1e-9, "time kept")
        c.approx(lv.time.to(u.jd2000)[i], jd[i], 1e-9, "time kept")
        for k, q in enumerate((P.x, P.y, P.z)):
            c.approx(q.to(pu)[i], r[i][k] * pk, 1e-9, "input position unchanged")
        for k, q in enumerate((V.x, V.y, V.z)):
            c.approx(q.to(vu)[i], v[i][k] * vk, 1e-9, "input velocity unchanged")


def two_frames(c):
    frame(c, c.pick("n", (2, 3)))


def rotation(c):
    (r,), (v,) = state(c, 1)
    m = c.mod("celest.coordinates.transforms")._gcrs_to_lvlh_matrix(c.arr([r]), c.arr([v]))
    rows = [[m[0, a, b] for b in range(3)] for a in range(3)]
    for a in range(3):
        for b in range(a, 3):
            c.approx(c.dot(rows[a], rows[b]), 1.0 if a == b else 0.0, 1e-7, "orthonormal axes")
    c.approx(c.dot(rows[0], c.crossv(rows[1], rows[2])), 1.0, 1e-7, "right-handed")


def integers(c):
    """Positions or velocities of whole numbers."""
    kind = c.pick("integers", ["position", "velocity", "both"])
    pos, vel = kind != "velocity", kind != "position"
    (r,), (v,) = state(c, 1, c.int if pos else None, c.int if vel else None)
    tr = c.mod("celest.coordinates.transforms")
    arr = lambda x, whole: (c.iarr if whole else c.arr)(x)
    m = tr._gcrs_to_lvlh_matrix(arr([r], pos), arr([v], vel))
    t = triad(c, r, v)
    for a in range(3):
        for b in range(3):
            c.approx(m[0, a, b], t[a][b], 1e-7, "axis %s" % "xyz"[a])
    u = c.mod("celest.units")
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    jd = c.arr([2459000.5])
    P = GCRS(jd, *[arr([x], pos) for x in r], u.km)
    V = GCRS(jd, *[arr([x], vel) for x in v], u.km / u.s)
    lp, lv = tr._gcrs_to_lvlh(P, V)
    for k, (q, w) in enumerate(zip((lp.x, lp.y, lp.z), (lv.x, lv.y, lv.z))):
        c.approx(q.to(u.km)[0], c.dot(t[k], r), 1e-5, "position along %s" % "xyz"[k])
        c.approx(w.to(u.km / u.s)[0], c.dot(t[k], v), 1e-7, "velocity along %s" % "xyz"[k])


def other_frames(c):
    u = c.mod("celest.units")
    tr = c.mod("celest.coordinates.transforms")
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    x = [c.real("x%d" % i, 1, 2) for i in range(3)]
    g = GCRS(c.arr([0.0]), *[c.arr([a]) for a in x], u.km)
    t = ITRS(c.arr([0.0]), *[c.arr([a]) for a in x], u.km)
    bad = c.pick("which", [(t, g), (g, t), (t, t)])
    c.check(c.raises(ValueError, tr._gcrs_to_lvlh, *bad), "refuses another frame")


HARNESSES = [
    Harness("matrix", matrix, "1 row"),
    Harness("two_matrices", two_matrices, "2 and 3 rows"),
    Harness("frame", frame, "1 row, 2 x 2 units"),
    Harness("two_frames", two_frames, "2 and 3 rows, 2 x 2 units"),
    Harness("rotation", rotation, "1 row"),
    Harness("integers", integers, "1 row; positions, velocities or both of whole numbers"),
    Harness("other_frames", other_frames, "3 wrong combinations"),
]
