"""C18: visible windows are the maximal visible runs of samples."""
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI

ASSUMPTIONS = [
    "elevations of the satellite and the Sun are arbitrary values per sample (how they follow from the positions "
    "is C13); the solar ephemeris file, absent here, is replaced by arbitrary vectors",
    "a window is bounded by the first and the last sample of its run",
    "sample times increase, by up to 1000 days a step"]
W = "celest.encounter.window_generator"


def setup(c, n, sun=False):
    u = c.mod("celest.units")
    wg = c.mod(W)
    Q = c.mod("celest.units.quantity").Quantity
    AzEl = c.mod("celest.coordinates.frames.azel").AzEl
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    Attitude = c.mod("celest.coordinates.frames.attitude").Attitude
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    S = c.mod("celest.satellite").Satellite
    jd = [c.real("jd", JD_LO, JD_HI)]
    for i in range(1, n):
        jd.append(jd[-1] + c.real("step%d" % i, 1e-6, 1000))
    el = [c.real("el%d" % i, -90, 90) for i in range(n)]
    site = G(10, 20, 0, u.deg, u.km)
    t = c.arr(jd)
    pos = ITRS(t, *[c.arr([7000.0 + k] * n) for k in range(3)], u.km)
    vel = ITRS(t, *[c.arr([1.0 + k] * n) for k in range(3)], u.km / u.s)
    ang = [c.arr([0.1 * k] * n) for k in range(3)]

    class Sat(S):
        def attitude(self, location):
            c.check(location is site, "attitude towards the location")
            return Attitude(t, ang[0], ang[1], ang[2], u.deg, location)

    sat = Sat(pos, vel)
    sunel, vec = [], {}
    if sun:
        sunel = [c.real("sun%d" % i, -90, 90) for i in range(n)]
        for k in ((0, 10), (0, 3), (3, 399)):
            vec[k] = [[c.real("s%d_%d_%d%d" % (k + (a, i)), -1e8, 1e8) for i in range(n)] for a in range(3)]

    class Kernel:
        def __getitem__(self, k):
            class Segment:
                @staticmethod
                def compute(julian):
                    for a, b in zip(jd, julian):
                        c.approx(b, a, 1e-9, "Sun computed for the sample times")
                    return c.np.array(vec[k])
            return Segment

        def close(self):
            pass

    class SPK:
        open = staticmethod(lambda name: Kernel())
        close = staticmethod(lambda k: None)

    class Coordinate:
        def __init__(self, p):
            self.p = p

        def convert_to(self, frame, location=None):
            c.check(frame is AzEl and location is site, "elevations seen from the location")
            if self.p is pos:
                e = el
            else:
                c.check(isinstance(self.p, GCRS), "the Sun's position is inertial")
                for a, q in enumerate((self.p.x, self.p.y, self.p.z)):
                    for i in range(n):
                        c.approx(q.to(u.km)[i], vec[0, 10][a][i] - vec[0, 3][a][i] - vec[3, 399][a][i], 1e-4,
                                 "the Sun as seen from the Earth")
                e = sunel
            return AzEl(t, c.arr([0.0] * n), c.arr(e), u.deg, location)

    c.patch(W, "Coordinate", Coordinate)
    c.patch(W, "SPK", SPK)
    c.patch(W, "pkg_resources", type("R", (), {"resource_filename": staticmethod(lambda *a: "de421.bsp")}))
    return u, wg, sat, site, jd, el, sunel


def runs(vis):
    out = []
    for i, v in enumerate(vis):
        if v and out and out[-1][1] == i - 1:
            out[-1][1] = i
        elif v:
            out.append([i, i])
    return out


def expect(c, u, ws, vis, jd, site):
    ref = runs(vis)
    V = c.mod("celest.encounter.window_handling").VisibleTimeWindow
    ws = [w for w in ws]
    c.check(len(ws) == len(ref), "one window per maximal run")
    for w, (a, b) in zip(ws, ref):
        c.check(type(w) is V, "visible time windows")
        c.approx(w.rise_time.to(u.jd2000), jd[a], 1e-9, "rise at the first sample of the run")
        c.approx(w.set_time.to(u.jd2000), jd[b], 1e-9, "set at the last sample of the run")
        c.check(w.rise_time.to(u.jd2000) <= w.set_time.to(u.jd2000), "rise before set")
        c.check(w.attitude.location is site, "window of the location")
        c.check(len(w.attitude.time.to(u.jd2000)) == len(jd), "attitude of the satellite")


def anytime(c, n=5):
    u, wg, sat, site, jd, el, _ = setup(c, n)
    thr = c.real("threshold", 0, 90)
    ws = wg.generate_vtws(sat, site, thr, wg.Lighting.ANYTIME) if c.bool("explicit") else \
        wg.generate_vtws(sat, site, thr)
    expect(c, u, ws, [bool(e > thr) for e in el], jd, site)


def anytime7(c):
    anytime(c, 7)


def lighting(c, n=3):
    u, wg, sat, site, jd, el, sun = setup(c, n, True)
    thr = c.real("threshold", 0, 90)
    day = c.bool("day")
    ws = wg.generate_vtws(sat, site, thr, wg.Lighting.DAYTIME if day else wg.Lighting.NIGHTTIME)
    vis = [bool(e > thr) and bool(s > 0 if day else s < 0) for e, s in zip(el, sun)]
    expect(c, u, ws, vis, jd, site)


def lighting4(c):
    lighting(c, 4)


def refusals(c):
    u, wg, sat, site, jd, el, _ = setup(c, 2)
    thr = c.real("threshold", -1000, 1000)
    c.assume((thr < 0) | (thr > 90))
    c.check(c.raises(ValueError, wg.generate_vtws, sat, site, thr), "threshold outside [0, 90]")
    S = c.mod("celest.satellite").Satellite
    c.check(c.raises(Warning, wg.generate_vtws, S(sat.position), site, 10), "velocity required")


HARNESSES = [
    Harness("anytime", anytime, "5 samples, every visibility pattern"),
    Harness("lighting", lighting, "3 samples, every visibility and lighting pattern"),
    Harness("anytime7", anytime7, "7 samples, every visibility pattern"),
    Harness("lighting4", lighting4, "4 samples, every visibility and lighting pattern"),
    Harness("refusals", refusals, "every threshold outside [0, 90]"),
]
