"""C05: day of the year."""
import datetime
from symcel.harness import Harness
from checks.c04 import instant

ASSUMPTIONS = ["instants are kept 1e-6 day away from midnight; dates 1600 to 2400"]


def jan1(y):
    """Julian date of 0h on 1 January (Gregorian)."""
    return datetime.date(y, 1, 1).toordinal() + 1721424.5


def one(years):
    def f(c):
        u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
        aq = c.mod("celest.coordinates.astronomical_quantities")
        y = c.pick("year", years)
        start, n = jan1(y), jan1(y + 1) - jan1(y)
        k = c.int("k", 0, 365)
        f = c.real("f", 1e-6, 1 - 1e-6)
        c.assume(k < n)
        jd = start + k + f
        r = aq.day_of_year(Q(c.arr([jd]), u.jd2000))
        c.approx(r[0], k + 1, 1e-6, "day of year counts from 1 January")
        c.check(len(r) == 1, "one value per time")
    return f


def rows(c):
    """Mixed arrays: each element as if alone."""
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    aq = c.mod("celest.coordinates.astronomical_quantities")
    bases = (2415020.6, 2451604.6, 2451910.6)
    jds = []
    for i in range(2):
        b = bases[c.choice("b%d" % i, 3)]
        jds.append(instant(c, "jd%d" % i, b, b + 40))
    n = aq.day_of_year(Q(c.arr(jds), u.jd2000))
    for i in range(2):
        k = aq.day_of_year(Q(jds[i], u.jd2000))
        c.approx(n[i], k[0], 1e-6, "row %d independent" % i)


def years(lo, hi):
    return Harness("y%d" % lo, one(list(range(lo, hi))), "every instant of %d-%d" % (lo, hi - 1),
                   opts={})


HARNESSES = [years(lo, lo + 40) for lo in range(1600, 2400, 40)] + [
    Harness("centuries", one([1600, 1700, 1800, 1899, 1900, 1996, 2000, 2100, 2200, 2300, 2400]),
            "every instant of the century years"),
    Harness("rows", rows, "2 rows in 40-day windows of 3 epochs"),
]
