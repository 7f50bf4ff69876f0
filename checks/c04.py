"""C04: Julian date <-> calendar date."""
from symcel.dates import parts
from symcel.harness import Harness

ASSUMPTIONS = [
    "instants are kept 1e-6 day away from midnight (a float Julian date cannot "
    "resolve less than 5e-10 day)",
    "years 4 to 9990, in windows; arrays up to length 3",
]
REFORM = 2299160.5


def days_in_month(c, y, m, greg):
    """A 0/1-style case split on the month; y may be symbolic."""
    leap = (y % 4 == 0) & ~((y % 100 == 0) & (y % 400 != 0)) if greg else (y % 4 == 0)
    return leap


def civil(c, y, m, d, greg):
    """Julian date of 0h of day d (an integer) of month m of year y: days since
    1 March of a cycle of years, an algorithm unlike the one under test."""
    f = c.floor
    adj = f((14 - m) / 12)                  # 1 for January and February
    yy = y - adj
    mm = m + 12 * adj - 3                   # March = 0
    n = d + f((153 * mm + 2) / 5) + 365 * yy + f(yy / 4)
    if greg:
        n = n - f(yy / 100) + f(yy / 400) + 1721118.5
    else:
        n = n + 1721116.5
    return n


def month_length(c, y, m, greg):
    """Fork on the month."""
    for k, n in ((1, 31), (3, 31), (4, 30), (5, 31), (6, 30), (7, 31), (8, 31),
                 (9, 30), (10, 31), (11, 30), (12, 31)):
        if m == k:
            return n
    c.check(m == 2, "month between 1 and 12")
    leap = (y % 4 == 0) and (not greg or (y % 100 != 0) or (y % 400 == 0))
    return 29 if leap else 28


def fields(c, y, m, d, jd, greg, i=""):
    c.check(m >= 1, "month%s at least 1" % i)
    c.check(m <= 12, "month%s at most 12" % i)
    c.check(d >= 1, "day%s at least 1" % i)
    n = month_length(c, y, m, greg)
    c.check(d < n + 1, "day%s within the month" % i)
    day = c.floor(d)
    c.approx(civil(c, y, m, day, greg) + (d - day), jd, 4e-9, "calendar date%s denotes the instant" % i)


def instant(c, name, lo, hi):
    jd = c.real(name, lo, hi)
    c.assume(abs((jd + 0.5) - c.floor(jd + 0.5) - 0.5) <= 0.5 - 1e-6)
    return jd


def single(lo, hi, greg):
    def f(c):
        u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
        aq = c.mod("celest.coordinates.astronomical_quantities")
        jd = instant(c, "jd", lo, hi)
        y, m, d = aq.from_julian(Q(c.arr([jd]), u.jd2000))
        fields(c, y[0], m[0], d[0], jd, greg)
    return f


def scalar(c):
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    aq = c.mod("celest.coordinates.astronomical_quantities")
    jd = instant(c, "jd", 2451544.6, 2451920)
    y, m, d = aq.from_julian(Q(jd, u.jd2000))
    fields(c, y[0], m[0], d[0], jd, True)


def mixed(c):
    """Elements on either side of the reform, in any order."""
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    aq = c.mod("celest.coordinates.astronomical_quantities")
    n = 3
    kinds = [c.choice("k%d" % i, 2) for i in range(n)]
    jds = [instant(c, "jd%d" % i, REFORM + 1e-3 if k else REFORM - 60, REFORM + 60 if k else REFORM - 1e-3)
           for i, k in enumerate(kinds)]
    arr = c.arr(jds)
    y, m, d = aq.from_julian(Q(arr, u.jd2000))
    i = c.choice("which", n)
    fields(c, y[i], m[i], d[i], jds[i], bool(kinds[i]), str(i))
    for j in range(n):
        c.approx(arr[j], jds[j], 1e-9, "input unchanged")


def order(c):
    """Later instants have later calendar dates (across the reform as well)."""
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    aq = c.mod("celest.coordinates.astronomical_quantities")
    base = c.pick("base", (REFORM - 1.4, 2415019.9, 2451603.9, 2488068.9))
    a = instant(c, "a", base, base + 2.4)
    b = instant(c, "b", base, base + 2.4)
    c.assume(a < b - 1e-6)
    y, m, d = aq.from_julian(Q(c.arr([a, b]), u.jd2000))
    k0 = (y[0] * 12 + m[0])
    k1 = (y[1] * 12 + m[1])
    c.check((k0 < k1) or ((k0 == k1) and (d[0] < d[1])), "order preserved")


def datetimes(c, n=2, lo=2451545.0, hi=2451545.0 + 425, greg=True):
    """The datetime output has the calendar fields and the fraction of a day."""
    time = c.mod("celest.time")
    jds = [instant(c, "jd%d" % i, lo, hi) for i in range(n)]
    out = time.Time(c.arr(jds)).datetime()
    c.check(len(out) == n, "one datetime per time")
    i = c.choice("which", n)
    p = parts(out[i])
    c.check(p is not None, "datetime objects")
    (y, m, d), t = p
    c.check(m >= 1, "month at least 1")
    c.check(m <= 12, "month at most 12")
    c.approx(civil(c, y, m, d, greg) + t, jds[i], 4e-9, "datetime denotes the instant")
    c.check(d >= 1, "day at least 1")
    c.check(d <= month_length(c, y, m, greg), "day within the month")


def jd_of(year):
    return 1721425.5 + (year - 1) * 365.2425


HARNESSES = [
    Harness("modern", single(2378496.6, 2488069.6, True), "1800 to 2100"),
    Harness("reform_julian", single(2268923.6, REFORM - 1e-5, False), "1500 to 4 Oct 1582"),
    Harness("reform_gregorian", single(REFORM + 1e-5, 2378497.6, True), "15 Oct 1582 to 1800"),
    Harness("future", single(2488069.6, 2634167.6, True), "2100 to 2500"),
    Harness("scalar", scalar, "the year 2000"),
    Harness("mixed", mixed, "3 elements within 60 days of the reform, any order"),
    Harness("order", order, "pairs within 2.4 days of the reform, 1900, 2000 and 2100 March"),
    Harness("datetime", datetimes, "2 elements within 2000-2001"),
    Harness("datetime_early", lambda c: datetimes(c, 1, 2268923.6, REFORM - 1e-5, False), "1500 to 4 Oct 1582"),
    Harness("datetime_later", lambda c: datetimes(c, 1, REFORM + 1e-5, 2634167.6), "15 Oct 1582 to 2500"),
    Harness("antiquity", single(1722884.6, 1995000.6, False), "years 5 to 750"),
    Harness("middle_ages", single(1994999.6, 2268923.6, False), "years 750 to 1500"),
    Harness("future_4", single(2634167.6, 3182030.6, True), "years 2500 to 4000"),
    Harness("future_5", single(3182030.6, 3547273.6, True), "years 4000 to 5000"),
    Harness("future_6", single(3547272.6, 3912515.6, True), "years 5000 to 6000"),
    Harness("future_7", single(3912515.6, 4277758.6, True), "years 6000 to 7000"),
    Harness("future_8", single(4277757.6, 4643000.6, True), "years 7000 to 8000"),
    Harness("future_10", single(4643000.6, 5368500.6, True), "years 8000 to 9986"),
]
