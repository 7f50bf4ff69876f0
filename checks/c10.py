"""C10: bias, precession and nutation matrices."""
from symcel.harness import Harness
from checks.common import mods, JD_LO, JD_HI, J2000

ASSUMPTIONS = ["Julian dates within a century of J2000, 1 to 3 rows"]


def mats(c):
    return c.mod("celest.coordinates.nutation_precession_matrices")


def rx(c, s, k):
    return [[1, 0, 0], [0, k, s], [0, -s, k]]


def ry(c, s, k):
    return [[k, 0, -s], [0, 1, 0], [s, 0, k]]


def rz(c, s, k):
    return [[k, s, 0], [-s, k, 0], [0, 0, 1]]


def mul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]


def is_rotation(c, M, label, tol=1e-9):
    for i in range(3):
        for j in range(i, 3):
            d = 0
            for k in range(3):
                d = d + M[i][k] * M[j][k]
            c.approx(d, 1 if i == j else 0, tol, label + " is orthonormal")
    x = c.crossv(M[0], M[1])
    c.approx(c.dot(x, M[2]), 1, tol, label + " has determinant one")


def rows_of(M):
    return [[M[i, j] for j in range(3)] for i in range(3)]


def same(c, M, N, label, tol=1e-9):
    for i in range(3):
        for j in range(3):
            c.approx(M[i][j], N[i][j], tol, "%s, entry %d%d" % (label, i, j))


def dates(c):
    u, Q, aq = mods(c)
    jds = [c.real("jd%d" % i, JD_LO, JD_HI) for i in range(c.pick("n", (1, 2, 3)))]
    return u, aq, Q(c.arr(jds), u.jd2000), jds


def bias(c):
    import math
    v = [c.real("v%d" % k, -1, 1) for k in range(3)]
    M = mats(c).bias_matrix()
    c.check(M.shape == (3, 3), "shape")
    M = rows_of(M)
    sec = math.pi / 180 / 3600
    a = [-0.01460 * sec, -0.0166170 * sec, 0.0068192 * sec]
    # bounded by the solver over every vector of the unit cube
    B = mul(rx(c, math.sin(a[2]), math.cos(a[2])),
            mul(ry(c, math.sin(a[1]), math.cos(a[1])), rz(c, math.sin(a[0]), math.cos(a[0]))))
    w = [c.dot(r, v) for r in M]
    for i in range(3):
        c.approx(w[i], c.dot(B[i], v), 1e-11, "bias acts as the 3-2-1 rotation")
    back = [c.dot([M[k][i] for k in range(3)], w) for i in range(3)]
    for i in range(3):
        c.approx(back[i], v[i], 1e-12, "transpose inverts the bias")
    c.approx(c.dot(c.crossv(M[0], M[1]), M[2]) * v[0], v[0], 1e-12, "bias determinant")


def precession(c):
    u, aq, j, jds = dates(c)
    M = mats(c).precession_matrix(j)
    c.check(M.shape == (len(jds), 3, 3), "one matrix per date")
    for i in range(len(jds)):
        P = rows_of(M[i])
        is_rotation(c, P, "precession")
        z, th, zz = [x.to(u.deg)[i] for x in aq.conventional_precession_angles(j)]
        ref = mul(rz(c, -c.sind(zz), c.cosd(zz)),
                  mul(ry(c, c.sind(th), c.cosd(th)), rz(c, c.sind(z), c.cosd(z))))
        same(c, P, ref, "precession as the product of its rotations")


def nutation(c, strict=False):
    u, aq, j, jds = dates(c)
    M = mats(c).nutation_matrix(j)
    c.check(M.shape == (len(jds), 3, 3), "one matrix per date")
    dp, de = aq.nutation_components(j)
    mo = aq.mean_obliquity(j)
    for i in range(len(jds)):
        T = (jds[i] - J2000) / 36525
        N = rows_of(M[i])
        is_rotation(c, N, "nutation")
        eps = mo.to(u.deg)[i] + (-46.84024 * T - 0.00059 * T * T + 0.001813 * T * T * T) / 3600
        psi, e2 = dp.to(u.deg)[i], eps + de.to(u.deg)[i]
        mid = rz(c, -c.sind(psi), c.cosd(psi)) if strict else ry(c, -c.sind(psi), c.cosd(psi))
        ref = mul(rx(c, -c.sind(e2), c.cosd(e2)), mul(mid, rx(c, c.sind(eps), c.cosd(eps))))
        same(c, N, ref, "nutation as the product of its rotations")


def nutation_axis(c):
    """The middle rotation of the standard is about the z axis."""
    nutation(c, True)


HARNESSES = [Harness("bias", bias, "every vector of the unit cube"),
             Harness("precession", precession, "1 to 3 dates"),
             Harness("nutation", nutation, "1 to 3 dates"),
             Harness("nutation_axis", nutation_axis, "1 to 3 dates", known="NUTAXIS")]
