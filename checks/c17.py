"""C17: coordinate conversions are pure, consistent and unit-independent."""
import math
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = [
    "the bias, precession and nutation matrices are replaced by fixed rotations (their values are C10); "
    "the Earth's rotation and everything else is the real code",
    "positions 6000 to 60000 km from the centre, off the axis; at least 1 km from the station, which is any point off the axis",
    "loop state of the geodetic iteration abstracted; equal inputs give equal abstracted states"]
ALL = ("gcrs", "itrs", "wgs84", "azel")


class World:
    def __init__(self, c):
        self.c, self.num, self.arr = c, c.real, c.arr
        self.u = c.mod("celest.units")
        fr = lambda m, n: getattr(c.mod("celest.coordinates.frames." + m), n)
        self.cls = {"gcrs": fr("gcrs", "GCRS"), "itrs": fr("itrs", "ITRS"),
                    "wgs84": fr("wgs84", "WGS84"), "azel": fr("azel", "AzEl")}
        self.tr = c.mod("celest.coordinates.transforms")
        self.Coordinate = c.mod("celest.coordinates.coordinate").Coordinate
        np = c.np
        swap = [[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]
        tilt = [[1.0, 0.0, 0.0], [0.0, 0.8, 0.6], [0.0, -0.6, 0.8]]
        eye = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]

        def stack(m):
            return lambda julian: np.array([m for _ in range(len(julian.data))])

        t = "celest.coordinates.transforms"
        c.patch(t, "bias_matrix", lambda: np.array(swap))
        c.patch(t, "precession_matrix", stack(tilt))
        c.patch(t, "nutation_matrix", stack(eye))
        G = c.mod("celest.coordinates.ground_location").GroundLocation
        u = self.u
        rho, gz = c.real("rho", 100, 6400), c.real("gz", -6400, 6400)
        lon = c.real("lon", 0, 180)
        c.assume(rho * rho + gz * gz >= 6000 ** 2)
        g = self.g = [rho * c.cosd(lon), rho * c.sind(lon), gz]

        class Site(G):
            itrs_x = property(lambda self: u.Quantity(g[0], u.km))
            itrs_y = property(lambda self: u.Quantity(g[1], u.km))
            itrs_z = property(lambda self: u.Quantity(g[2], u.km))

        self.site = Site(10, lon, 0, u.deg, u.km)

    def data(self, kind, n):
        """n rows of (time, three coordinates)."""
        c = self.c
        rows = []
        for i in range(n):
            jd = self.num("jd%d" % i, JD_LO, JD_HI)
            if kind == "wgs84":
                v = [self.num("lat%d" % i, -89, 89), self.num("long%d" % i, -180, 180), self.num("h%d" % i, 1, 50000)]
            else:
                v = [self.num("%s%d" % (k, i), -60000, 60000) for k in "xyz"]
                c.assume(c.norm2(v) >= 6000 ** 2)
            rows.append((jd, v))
        e = self.columns("itrs", self.direct(kind, "itrs", self.build(kind, rows)))[1:]
        for i in range(n):
            x = [q[i] for q in e]
            d = [x[k] - self.g[k] for k in range(3)]
            c.assume(c.norm2(d) >= 1)
            if kind != "wgs84":
                c.assume(x[0] * x[0] + x[1] * x[1] >= 1e-3)
            c.cauchy(d, self.g)
        return rows

    def build(self, kind, rows, other=False):
        """The frame object holding the rows, in one unit or another."""
        u, arr = self.u, self.arr
        t = arr([r[0] for r in rows])
        col = [[r[1][k] for r in rows] for k in range(3)]
        if kind == "wgs84":
            s = math.pi / 180 if other else 1.0
            return self.cls[kind](t, arr([x * s for x in col[0]]), arr([x * s for x in col[1]]),
                                  arr([x * 1000 for x in col[2]] if other else col[2]),
                                  u.rad if other else u.deg, u.m if other else u.km)
        s = 1000 if other else 1
        return self.cls[kind](t, *[arr([x * s for x in q]) for q in col], u.m if other else u.km)

    def columns(self, kind, p):
        u = self.u
        if kind == "azel":
            q = [p.azimuth.to(u.deg), p.elevation.to(u.deg)]
        elif kind == "wgs84":
            q = [p.latitude.to(u.deg), p.longitude.to(u.deg), p.height.to(u.km)]
        else:
            q = [p.x.to(u.km), p.y.to(u.km), p.z.to(u.km)]
        return [p.time.to(u.jd2000)] + q

    def direct(self, a, b, p):
        tr = self.tr
        if a == b:
            return p
        if a == "gcrs":
            p = tr._gcrs_to_itrs(p)
        elif a == "wgs84":
            p = tr._wgs84_to_itrs(p)
        return {"itrs": lambda: p, "gcrs": lambda: tr._itrs_to_gcrs(p), "wgs84": lambda: tr._itrs_to_wgs84(p),
                "azel": lambda: tr._itrs_to_azel(p, self.site)}[b]()

    def convert(self, b, p):
        return self.Coordinate(p).convert_to(self.cls[b], self.site) if b == "azel" else \
            self.Coordinate(p).convert_to(self.cls[b])


def compare(c, w, kind, p, q, label, rows=None):
    c.check(type(p) is w.cls[kind], label + ": frame")
    for x, y in zip(w.columns(kind, p), w.columns(kind, q)):
        c.check(len(x) == len(y), label + ": number of rows")
        for i in range(len(x)):
            c.approx(x[i], y[i], 1e-6, label)


def pairs(c, sources=("gcrs", "itrs", "wgs84"), targets=ALL):
    a = c.pick("source", list(sources))
    b = c.pick("target", [t for t in targets if t != a])
    return a, b


def route(c, src):
    """The interface gives what the transformations give, twice; the input
    stays as it was."""
    w = World(c)
    a, b = pairs(c, (src,))
    rows = w.data(a, 1)
    p = w.build(a, rows)
    before = [list(x) for x in w.columns(a, p)]
    c.havoc = True
    q = w.convert(b, p)
    ref = w.direct(a, b, w.build(a, rows))
    compare(c, w, b, q, ref, "%s to %s" % (a, b))
    for x, y in zip(before, w.columns(a, p)):
        c.approx(y[0], x[0], 1e-9, "input unchanged by %s to %s" % (a, b))
    compare(c, w, b, w.convert(b, p), ref, "%s to %s again" % (a, b))
    c.check(w.convert(a, p) is p or type(w.convert(a, p)) is type(p), "own frame")
    c.approx(w.columns(b, q)[0][0], rows[0][0], 1e-9, "time kept")
    if b == "azel":
        c.check(q.location is w.site, "location kept")


def units(c, src):
    w = World(c)
    a, b = pairs(c, (src,))
    rows = w.data(a, 1)
    c.havoc = True
    compare(c, w, b, w.convert(b, w.build(a, rows, True)), w.convert(b, w.build(a, rows)),
            "%s to %s in another unit" % (a, b))


def rows2(c, src):
    w = World(c)
    a, b = pairs(c, (src,), ("gcrs", "itrs", "azel"))
    n = c.pick("n", (2, 3))
    rows = w.data(a, n)
    both = w.columns(b, w.convert(b, w.build(a, rows)))
    for i in range(n):
        one = w.columns(b, w.convert(b, w.build(a, rows[i:i + 1])))
        for x, y in zip(both, one):
            c.check(len(x) == n, "a row per time")
            c.approx(x[i], y[0], 1e-6, "%s to %s row by row" % (a, b))


def chain(c):
    """Going through an intermediate frame gives the same position."""
    w = World(c)
    rows = w.data("gcrs", 1)
    p = w.build("gcrs", rows)
    b = c.pick("target", ["wgs84", "azel"])
    c.havoc = True
    compare(c, w, b, w.convert(b, w.convert("itrs", p)), w.convert(b, p), "gcrs to %s through itrs" % b)


def there_and_back(c):
    w = World(c)
    a, b = c.pick("way", [("gcrs", "itrs"), ("itrs", "gcrs")])
    rows = w.data(a, 1)
    compare(c, w, a, w.convert(a, w.convert(b, w.build(a, rows))), w.build(a, rows), "%s round trip" % a)


def refusals(c):
    w = World(c)
    L = c.mod("celest.coordinates.frames.lvlh").LVLH
    a = c.pick("source", ["gcrs", "itrs", "wgs84"])
    p = w.build(a, w.data(a, 1))
    c.check(c.raises(ValueError, w.Coordinate(p).convert_to, w.cls["azel"]), "location required")
    x = c.arr([c.real("v", 0, 1)])
    c.check(c.raises(ValueError, w.Coordinate, L(x, x, x, x, w.u.km)), "refuses LVLH")
    c.check(c.raises(ValueError, w.Coordinate, w.cls["azel"](x, x, x, w.u.deg, w.site)), "refuses AzEl")


def fix(f, src):
    return lambda c: f(c, src)


O = dict(opaque_atan2=True)
HARNESSES = [Harness("%s_%s" % (f.__name__, s), fix(f, s), "%s; from %s to every other frame" % (
    "2 and 3 rows" if f is rows2 else "1 row", s.upper()), opts=O)
    for f in (route, units, rows2) for s in ("gcrs", "itrs", "wgs84")] + [
    Harness("chain", chain, "1 row", opts=O),
    Harness("there_and_back", there_and_back, "1 row", opts=O),
    Harness("refusals", refusals, "1 row")]
