"""Helpers shared by the harnesses."""


def congruent(c, a, b, period, tol, label):
    """a = b modulo period, to within tol."""
    k = (a - b) / period
    c.approx(k - c.floor(k + 0.5), 0, tol / period, label)


def in_range(c, x, lo, hi, label):
    c.check(x >= lo, label + " not below range")
    c.check(x < hi, label + " below upper end")


def mods(c):
    return (c.mod("celest.units"), c.mod("celest.units.quantity").Quantity,
            c.mod("celest.coordinates.astronomical_quantities"))


J2000 = 2451545.0
JD_LO, JD_HI = J2000 - 36525, J2000 + 36525


def stepped(c, name="jd"):
    """A Julian date within a century of J2000."""
    return c.real(name, JD_LO, JD_HI)
