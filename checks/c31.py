"""C31: results depend only on the values of the arguments."""
from symcel.dates import parts
from symcel.harness import Harness
from checks.common import JD_LO, JD_HI
from checks.c17 import World, ALL
from checks.c27 import Plan
from checks.sched_common import Sched, Tag

ASSUMPTIONS = [
    "a computation is repeated after one or two others of its kind; integer values stand for all other types of number",
    "positions as in C15 to C17, with the same replacements of the rotations that are decided elsewhere",
    "schedules are generated without a round of search (the search draws at random)"]
METHODS = ("ut1", "gmst", "gast", "mean_solar_time", "true_solar_time", "mean_hour_angle", "true_hour_angle",
           "lmst", "last")
LONG = METHODS[3:]


def same(c, a, b, label, tol=1e-9):
    a, b = list(a), list(b)
    c.check(len(a) == len(b), label + ": as many")
    for x, y in zip(a, b):
        c.approx(x, y, tol, label)


# ---- time -------------------------------------------------------------------

def times(c):
    """Integer dates and longitudes, lists and single numbers."""
    u = c.mod("celest.units")
    T = c.mod("celest.time").Time
    n = 2
    d = [c.int("jd%d" % i, 2414988, 2488069) for i in range(n)]
    l = c.int("long", -180, 180)
    how = c.pick("as", ["array", "list", "number"])
    m = c.pick("method", METHODS)
    call = lambda t, lon: getattr(t, m)(*((lon,) if m in LONG else ())).to(u.hourangle if m != "ut1" else u.hourangle)
    given = {"array": c.iarr(d), "list": list(d), "number": d[0]}[how]
    k = 1 if how == "number" else n
    ref = call(T(c.arr([x * 1.0 for x in d[:k]])), c.arr([l * 1.0] * k))
    lon = {"array": c.iarr([l] * k), "list": [l] * k, "number": l}[how]
    same(c, call(T(given), lon), ref, m + " of integers")
    same(c, T(given).julian.to(u.jd2000), d[:k], "the dates themselves")
    off = c.int("offset", -1000, 1000)
    same(c, T(given, off).julian.to(u.jd2000), [x + off for x in d[:k]], "dates with an offset")
    half = c.real("half", 0, 1)
    same(c, T(given, half).julian.to(u.jd2000), [x + half for x in d[:k]], "dates with part of a day as offset")


def time_history(c):
    """The same method of the same object, after other methods and objects."""
    u = c.mod("celest.units")
    T = c.mod("celest.time").Time
    m, k = c.pick("method", METHODS), c.pick("between", ("gast", "true_solar_time"))
    a = [c.real("a%d" % i, JD_LO, JD_HI) for i in range(2)]
    b = [c.real("b%d" % i, JD_LO, JD_HI) for i in range(2)]
    l = c.real("long", -180, 180)
    g = c.real("other", -180, 180)
    call = lambda t, m, lon: list(getattr(t, m)(*((c.arr([lon] * 2),) if m in LONG else ())).to(u.hourangle))
    t, o = T(c.arr(a)), T(c.arr(b))
    first = call(t, m, l)
    call(o, m, g)
    call(t, m, g)
    call(t, k, g)
    again = call(t, m, l)
    same(c, again, first, m + " again")
    same(c, t.julian.to(u.jd2000), a, "dates unchanged")
    fresh = call(T(c.arr(a)), m, l)
    same(c, fresh, first, m + " of an equal object")
    same(c, call(o, m, l), call(T(c.arr(b)), m, l), m + " of the other object")


def dates(c):
    """Calendar dates of integer Julian dates."""
    u = c.mod("celest.units")
    T = c.mod("celest.time").Time
    d = [c.int("jd%d" % i, 2451545, 2451545 + 425) for i in range(2)]
    x, y = T(c.iarr(d)).datetime(), T(c.arr([v * 1.0 for v in d])).datetime()
    o = T(c.arr([c.real("other", 2451545, 2451545 + 425)])).datetime()
    z = T(c.iarr(d)).datetime()
    for p, q in list(zip(x, y)) + list(zip(x, z)):
        (f, r), (g, s) = parts(p), parts(q)
        for f, g in zip(f + (r,), g + (s,)):
            c.exact(f, g, "date of an integer")
    c.check(len(x) == 2 and len(o) == 1, "a date each")


QUANTITIES = ("earth_rotation_angle", "nutation_angles", "nutation_components", "conventional_precession_angles",
              "mean_obliquity", "apparent_obliquity", "equation_of_time", "equation_of_equinoxes", "sun_right_ascension")
MATRICES = ("precession_matrix", "nutation_matrix")


def series(c, names):
    """Two series of as many times, with times in common."""
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    name, keep = c.pick("name", names), c.pick("common", [(0, 2), (0, 1), (1, 2)])
    if name in MATRICES:
        fn = getattr(c.mod("celest.coordinates.nutation_precession_matrices"), name)
    elif name in QUANTITIES:
        fn = getattr(c.mod("celest.coordinates.astronomical_quantities"), name)
    else:
        fn = frame(c, name)

    def call(ts):
        """A list of numbers for each time."""
        r = fn(ts) if name in FRAMES else fn(Q(c.arr(ts), u.jd2000))
        cols = []
        for q in r if isinstance(r, tuple) else (r,):
            x = q.data if hasattr(q, "unit") else q
            x = x.reshape((len(ts), -1))
            cols += [[x[i, j] for i in range(len(ts))] for j in range(x.shape[1])]
        return [[col[i] for col in cols] for i in range(len(ts))]

    a = [c.real("t%d" % i, JD_LO, JD_HI) for i in range(3)]
    b = [x if i in keep else c.real("s%d" % i, JD_LO, JD_HI) for i, x in enumerate(a)]
    first = call(a)
    second = call(b)
    for i in range(3):
        (alone,) = call([b[i]])
        same(c, second[i], alone, name + " in a series")
        if i in keep:
            same(c, second[i], first[i], name + " of a time in common")
    (alone,) = call([a[1]])
    same(c, first[1], alone, name + " in the first series")


FRAMES = ("gcrs_to_itrs", "itrs_to_gcrs")


def frame(c, name):
    """Between the frames, of one vector at every time."""
    u = c.mod("celest.units")
    src, dst = name.split("_to_")
    cls = {k: getattr(c.mod("celest.coordinates.frames." + k), k.upper()) for k in (src, dst)}
    C = c.mod("celest.coordinates.coordinate").Coordinate

    def fn(ts):
        q = C(cls[src](c.arr(ts), *[c.arr([v] * len(ts)) for v in (7000.0, 800.0, 1200.0)], u.km)).convert_to(cls[dst])
        return tuple(x.to(u.km) for x in (q.x, q.y, q.z))
    return fn


# ---- positions --------------------------------------------------------------

def compare(c, w, kind, p, q, label):
    c.check(type(p) is w.cls[kind], label + ": frame")
    for x, y in zip(w.columns(kind, p), w.columns(kind, q)):
        same(c, x, y, label, 1e-6)


def second_site(c, w):
    """Another location, at another place."""
    G, u = c.mod("celest.coordinates.ground_location").GroundLocation, w.u
    g = [6378.0, 0.0, 0.0]

    class Site(G):
        itrs_x = property(lambda self: u.Quantity(g[0], u.km))
        itrs_y = property(lambda self: u.Quantity(g[1], u.km))
        itrs_z = property(lambda self: u.Quantity(g[2], u.km))

    return Site(0, 0, 0, u.deg, u.km)


def integers(c, src):
    """A position of integers is the position of the equal real numbers."""
    w = World(c)
    w.num = lambda name, lo, hi: c.int(name, int(lo), int(hi))
    b = c.pick("target", [k for k in ALL if k != src])
    rows = w.data(src, 1)
    c.havoc = True
    ref = w.convert(b, w.build(src, [(t * 1.0, [x * 1.0 for x in v]) for t, v in rows]))
    w.arr = c.iarr
    p = w.build(src, rows)
    q = w.convert(b, p)
    compare(c, w, b, q, ref, "%s to %s of integers" % (src, b))
    if src != "wgs84":
        same(c, p.to_numpy(w.u.m)[0], [1000 * x for x in rows[0][1]], "array in metres", 1e-6)


def coordinate(c, src):
    """One coordinate converted again and again."""
    w = World(c)
    b = c.pick("target", [k for k in ALL if k != src])
    k = c.pick("between", [k for k in ALL if k != src])
    rows = w.data(src, 1)
    other = second_site(c, w)
    # the other position is that of the other location's antipode
    far = [(rows[0][0], [-9000.0, 5.0, 7.0] if src != "wgs84" else [1.0, 179.0, 2000.0])]
    c.havoc = True
    one, two = w.Coordinate(w.build(src, rows)), w.Coordinate(w.build(src, far))
    first = one.convert_to(w.cls[b], w.site)
    two.convert_to(w.cls[b], other)
    two.convert_to(w.cls[k], other)
    one.convert_to(w.cls[k], w.site)
    again = one.convert_to(w.cls[b], w.site)
    compare(c, w, b, again, first, "%s to %s again" % (src, b))
    fresh = w.Coordinate(w.build(src, far)).convert_to(w.cls[b], other)
    compare(c, w, b, two.convert_to(w.cls[b], other), fresh, "%s to %s of the other position" % (src, b))


def sites(c):
    """One coordinate seen from two locations."""
    w = World(c)
    src = c.pick("source", ["itrs", "wgs84"])
    far = c.real("far", 20000, 40000)
    rows = [(c.real("jd", JD_LO, JD_HI), [-1 * far, 500.0, 700.0] if src != "wgs84" else [5.0, 175.0, far])]
    w.site, other = place(c, [300.0, 200.0, 6300.0]), second_site(c, w)
    one = w.Coordinate(w.build(src, rows))
    a = one.convert_to(w.cls["azel"], w.site)
    b = one.convert_to(w.cls["azel"], other)
    again = one.convert_to(w.cls["azel"], w.site)
    c.check(a.location is w.site and b.location is other and again.location is w.site, "the location asked for")
    compare(c, w, "azel", again, a, "from the first location again")
    compare(c, w, "azel", b, w.Coordinate(w.build(src, rows)).convert_to(w.cls["azel"], other), "from the second location")


# ---- satellites -------------------------------------------------------------

def place(c, g):
    u = c.mod("celest.units")
    G = c.mod("celest.coordinates.ground_location").GroundLocation

    class Site(G):
        itrs_x = property(lambda self: u.Quantity(g[0], u.km))
        itrs_y = property(lambda self: u.Quantity(g[1], u.km))
        itrs_z = property(lambda self: u.Quantity(g[2], u.km))

    return Site(10, 20, 0, u.deg, u.km)


def orbit(c, r, v, ints=False):
    u = c.mod("celest.units")
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    GCRS = c.mod("celest.coordinates.frames.gcrs").GCRS
    arr = c.iarr if ints else c.arr

    def to_gcrs(p):
        return GCRS(p.time.data, p.x.data, p.y.data, p.z.data, p.x.unit)

    c.patch("celest.satellite", "_itrs_to_gcrs", to_gcrs)
    n = len(r)
    t = arr([2459000 + i for i in range(n)])
    P = ITRS(t, *[arr([x[k] for x in r]) for k in range(3)], u.km)
    V = ITRS(t, *[arr([x[k] for x in v]) for k in range(3)], u.km / u.s)
    return c.mod("celest.satellite").Satellite(P, V)


def columns(c, sat, what, site):
    u = c.mod("celest.units")
    if what == "attitude":
        a = sat.attitude(site)
        return [a.roll.to(u.deg), a.pitch.to(u.deg), a.yaw.to(u.deg), a.time.to(u.jd2000)]
    q = getattr(sat, what)(site)
    return [q.to(u.km if what == "distance" else u.deg)]


def satellite(c):
    """Two satellites and two locations, in any order."""
    what = c.pick("what", ["distance", "look_angle", "attitude"])
    n = 1 if what == "attitude" else c.pick("rows", [1, 2])
    s = c.real("scale", 0.5, 2)
    # a polar orbit of any size and an equatorial one, over two places
    r = [[0, 0, 7000 * s], [0, 1000, 7000]][:n]
    v = [[7, 0, 1], [0, 6, 2]][:n]
    q = [[8000, 100, 0], [8000, 0, 300]][:n]
    w = [[0, 6, 3], [1, 2, 7]][:n]
    A, B = place(c, [300.0, 200.0, 3000.0]), place(c, [3100.0, -200.0, 500.0])
    one, two = orbit(c, r, v), orbit(c, q, w)
    first = columns(c, one, what, A)
    second = columns(c, one, what, B)
    third = columns(c, two, what, A)
    same_all = lambda x, y, l: [same(c, a, b, l, 1e-6) for a, b in zip(x, y)]
    same_all(columns(c, one, what, A), first, what + " again")
    same_all(columns(c, orbit(c, r, v), what, B), second, what + " from the other location")
    same_all(columns(c, orbit(c, q, w), what, A), third, what + " of the other satellite")


def satellite_integers(c):
    what = c.pick("what", ["distance", "look_angle", "attitude"])
    n = c.pick("rows", [1, 2])
    r = [[0, 0, c.int("z", 6500, 40000)], [0, 1000, 7000]][:n]
    v = [[c.int("v", 1, 9), 0, 1], [0, 6, 2]][:n]
    A = place(c, [300.25, 200.5, 3000.0])
    flt = lambda m: [[x * 1.0 for x in y] for y in m]
    for x, y in zip(columns(c, orbit(c, r, v, True), what, A), columns(c, orbit(c, flt(r), flt(v)), what, A)):
        same(c, x, y, what + " of integers", 1e-6)


def altitude(c):
    u = c.mod("celest.units")
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    S = c.mod("celest.satellite").Satellite
    r, q = [[c.int(m + k, -60000, 60000) for k in "xyz"] for m in "rq"]
    for p in (r, q):
        c.assume(c.norm2(p) >= 6000 ** 2)
        c.assume(p[0] * p[0] + p[1] * p[1] >= 1)
    make = lambda p, arr=c.iarr: S(ITRS(arr([2459000]), *[arr([x]) for x in p], u.km))
    c.havoc = True
    one, two = make(r), make(q)
    first = one.altitude().to(u.km)
    second = two.altitude().to(u.km)
    same(c, one.altitude().to(u.km), first, "altitude again", 1e-6)
    same(c, make([x * 1.0 for x in r], c.arr).altitude().to(u.km), first, "altitude of integers", 1e-6)
    same(c, make(q).altitude().to(u.km), second, "altitude of the other satellite", 1e-6)


def locations(c):
    """Two ground locations at once; of integers and of real numbers."""
    u = c.mod("celest.units")
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    at = [[c.int("lat%d" % i, -89, 89), c.int("long%d" % i, -179, 179), c.int("height%d" % i, 0, 9)] for i in range(2)]
    make = lambda p, one=1: G(p[0] * one, p[1] * one, p[2] * one, u.deg, u.km)
    look = lambda L: [L.latitude.to(u.deg), L.longitude.to(u.deg), L.height.to(u.km), L.radius.to(u.km),
                      L.itrs_x.to(u.km), L.itrs_y.to(u.km), L.itrs_z.to(u.km)]
    a = make(at[0])
    first = look(a)
    b = make(at[1])
    look(b)
    same(c, look(a), first, "a location after another was made", 1e-6)
    same(c, look(make(at[0], 1.0)), first, "a location of integers", 1e-6)
    same(c, look(b), look(make(at[1], 1.0)), "the other location", 1e-6)


# ---- containers -------------------------------------------------------------

def collections(c):
    """Two collections of windows do not share what they hold."""
    wh, u = c.mod("celest.encounter.window_handling"), c.mod("celest.units")
    Q = c.mod("celest.units.quantity").Quantity
    a, b = wh.WindowCollection(), wh.WindowCollection()
    held = {0: [], 1: []}
    for i in range(3):
        k = c.choice("into%d" % i, 2)
        if k:
            w = wh.VisibleTimeWindow(c.real("rise%d" % i, 0, 1), c.real("set%d" % i, 1, 2), None)
        else:
            w = wh.ObservationWindow(Q(c.real("start%d" % i, 0, 1), u.jd2000), Q(10, u.s), None, None)
        (a, b)[k].add_window(w)
        held[k].append(w)
    for k in range(2):
        got = [w for w in (a, b)[k]]
        c.check(len(got) == len(held[k]) == len((a, b)[k]), "each holds what was added to it")
        c.check(all(x is y for x, y in zip(got, held[k])), "each holds what was added to it")
    c.check(len(wh.WindowCollection()) == 0, "a new collection is empty")


def handlers(c):
    """Two request handlers do not share requests, counts or orders."""
    s = Sched(c)
    hs = [s.handler(), s.handler()]
    held = [[], []]
    pri = {}
    for i in range(3):
        k = c.choice("into%d" % i, 2)
        p = c.int("priority%d" % i, 1, 10)
        tag = s.add(hs[k], i, [s.window("w%d" % i)], priority=p)
        held[k].append(tag)
        pri[tag] = p
    k = c.choice("on", 2)
    if held[k]:
        hs[k].schedule_request(0, 0, s.jd(c.real("start", 0, 1)), s.sec(60))
        c.check(hs[k].is_request_scheduled(0), "scheduled where it was scheduled")
    c.check(hs[k].number_of_scheduled_requests == (1 if held[k] else 0), "scheduled requests are counted")
    c.check(hs[1 - k].number_of_scheduled_requests == 0, "nothing is scheduled in the other")
    hs[1 - k].sort_by_decreasing_priority()
    for h, tags in zip(hs, held):
        c.check(h.number_of_requests == len(tags) == len(h.requests), "each counts its own requests")
        c.check(all(any(r[s.ix.location] is t for r in h.requests) for t in tags), "each holds its own requests")
    c.check([r[s.ix.location] for r in hs[k].requests] == held[k], "sorting one leaves the other")
    c.check(s.handler().number_of_requests == 0, "a new handler is empty")


def searches(c):
    """Two searches do not share operators, weights or solutions."""
    from checks.c24 import Search
    A = c.mod("celest.schedule.alns").ALNS
    s = Search(c, 1, 1, False)
    other = A("nothing")
    other.add_cost_function(lambda p: -1)
    other.add_completeness_function(lambda p: True)
    other.add_destroy_functions([None])
    other.add_repair_functions([None])
    c.check(other.solve(1, 0.5, 0.5, 1, 1) == "nothing", "the other search returns its own solution")
    got = s.alns.solve(1, 0.5, 0.5, 1, 1)
    c.check(isinstance(got, type(s.start)), "each search its own solution")
    c.check([x[0] for x in s.calls] == ["destroy", "repair"], "each search its own operators")
    n = len(s.made)
    more = s.alns.solve(1, 0.5, 0.5, 1, 1)
    c.check(len(s.calls) == 4 and len(s.made) == n + 1, "a second search runs in full")
    c.check(s.calls[2][3] == 0, "and starts from the initial solution")
    later = [s.first[0], s.made[-1][0]]
    for x in later:
        c.check(more.cost <= x, "and returns the best it met")


def schedulers(c):
    """Two schedulers, and one asked twice."""
    p, q = Plan(c), Plan(c)
    sa, sb = Tag(0), Tag(1)
    p.request(0, [p.window("a", sa, angles=False)], sa, 5, c.real("duration", 60, 3600), 1)
    q.request(0, [q.window("b", sb, angles=False)], sb, 5, 600, 1)
    c.check(len(p.sched.request_handler) == 1 and len(q.sched.request_handler) == 1, "each has its own requests")

    def out(x):
        u = p.s.u
        return [(w.location, w.start_time.to(u.jd2000), w.duration.to(u.s), w.attitude.yaw.to(u.deg)[0])
                for w in x.sched.generate(0, 0.8, 0.5)]

    first = out(p)
    other = out(q)
    again = out(p)
    c.check(len(first) == len(again), "as many observations again")
    for x, y in zip(first, again):
        c.check(x[0] is y[0], "the same location again")
        same(c, x[1:], y[1:], "the same observation again")
    c.check(all(w[0] is sa for w in first) and all(w[0] is sb for w in other), "each schedules its own requests")


# ---- files and units ----------------------------------------------------------

def files(c):
    """Writing again leaves what writing once does."""
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    W = c.mod("celest.file_save").TextFileWriter
    x = c.real("x", 1, 9)
    layer = lambda v: ("Part", [["name", "value"]], [["X", Q(c.arr([v, 2.5]), u.m)]], "%.1f")
    other = ("Another part", [["name", "another"], ["more", "of it"]], [["Longer", Q(c.arr([1234567.0]), u.km)]], "%.3f")

    def once(path):
        w = W(path, "Title")
        w.add_layer(*layer(x))
        w.save()

    def twice(path):
        if way == "other":
            w = W(path, "Another title")
            w.add_layer(*other)
            w.save()
        w = W(path, "Title")
        idle = W(path)
        idle.add_layer(*other)
        w.add_layer(*layer(x))
        if way == "again":
            w.save()
        w.save()

    way = c.pick("way", ["other", "again", "idle"])
    a, b = c.capture(once), c.capture(twice)
    la, lb = a.split("\n"), b.split("\n")
    c.check(len(la) == len(lb), "as many lines")
    for p, q in zip(la, lb):
        c.check(p == q, "the same lines")


def units(c):
    """Units and quantities made meanwhile change no conversion."""
    from checks.units_common import SI, GROUPS
    core = c.mod("celest.units.core")
    u, Q = c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
    g = c.pick("dim", [GROUPS[0][:4] + ["inch", "mi"], GROUPS[1], GROUPS[2]])
    a, b = c.pick("a", g), c.pick("b", g)
    x, y = c.real("x", -1000, 1000), c.real("y", 0.5, 9)
    A, B = getattr(u, a), getattr(u, b)
    p = c.int("power", 2, 3)
    q = Q(x, A)
    before, text, dim = q.to(B), (str(A), repr(A), str(A / B), str(A ** 2)), (A.dimension, (A / u.s).dimension)
    # everything that can be done with them
    s = c.real("s", 0.1, 10)
    core.Unit(a, "another of that name", {}, s * A)
    core.Unit(b, "and another", {}, (1 / s) * B)
    r = Q(y, B)
    (q + r).to(A), (q * r).to(B ** 2), (q / r), -q, (q - r).to(B), r < q, r * 2, 2 * r, (1 / r)
    for m in (A * B, A / B, A ** 2, (A * B) / A, (A / B) ** 2, 1 / A, 3 * A, A * u.s / u.s):
        str(m), m.dimension, m.bases, m.powers
    c.approx(q.to(B), before, 1e-9 * (1 + SI[a] / SI[b]), "the same conversion again")
    c.approx(q.data, x, 1e-12, "the quantity is as it was")
    c.check((str(A), repr(A), str(A / B), str(A ** 2)) == text, "units are printed as before")
    c.check((A.dimension, (A / u.s).dimension) == dim, "dimensions are as before")
    c.approx(Q(1.0, A / u.s).to(B / u.s) / (SI[a] / SI[b]), 1, 1e-9, "compounds convert as before")


def fix(f, src):
    return lambda c: f(c, src)


O = dict(opaque_atan2=True)
def visibility(c):
    """Windows of two satellites and two places close to each other, one after the other."""
    u, wg = c.mod("celest.units"), c.mod(VW)
    AzEl = c.mod("celest.coordinates.frames.azel").AzEl
    ITRS = c.mod("celest.coordinates.frames.itrs").ITRS
    Attitude = c.mod("celest.coordinates.frames.attitude").Attitude
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    S = c.mod("celest.satellite").Satellite
    V = c.mod("celest.encounter.window_handling").VisibleTimeWindow
    jd = [c.real("jd", JD_LO, JD_HI)]
    jd.append(jd[0] + c.real("step", 1e-6, 1000))
    other = c.pick("other", ((10, 20.01, 0), (10, 20, 5), (10.01, 20, 0), (20, 10, 0)))
    places = [G(10, 20, 0, u.deg, u.km), G(*other, u.deg, u.km)]

    class Sat(S):
        def attitude(self, location):
            ang = [c.arr([0.1 + k + 10 * places.index(location) + 100 * sats.index(self)] * 2) for k in range(3)]
            return Attitude(c.arr(jd), *ang, u.deg, location)

    def sat():
        return Sat(ITRS(c.arr(jd), *[c.arr([7000.0 + k] * 2) for k in range(3)], u.km),
                   ITRS(c.arr(jd), *[c.arr([1.0 + k] * 2) for k in range(3)], u.km / u.s))

    sats = [sat(), sat()]
    pairs = ((0, 0), (0, 1), (1, 0))
    el = {p: [c.real("el%d%d%d" % (p + (i,)), -90, 90) for i in range(2)] for p in pairs}

    class Coordinate:
        def __init__(self, p):
            self.p = p

        def convert_to(self, frame, location=None):
            k = [i for i, x in enumerate(sats) if x.position is self.p]
            e = el[k[0], places.index(location)] if k else [5.0, -5.0]
            return AzEl(c.arr(jd), c.arr([0.0, 0.0]), c.arr(e), u.deg, location)

    class Kernel:
        def __getitem__(self, k):
            return type("Segment", (), {"compute": staticmethod(lambda julian: c.np.array([[1.0, 2.0]] * 3))})

    c.patch(VW, "Coordinate", Coordinate)
    c.patch(VW, "SPK", type("SPK", (), {"open": staticmethod(lambda name: Kernel()), "close": staticmethod(lambda k: None)}))
    c.patch(VW, "pkg_resources", type("R", (), {"resource_filename": staticmethod(lambda *a: "de421.bsp")}))
    L = wg.Lighting
    calls = [((0, 0), 10, L.ANYTIME), c.pick("between", (((0, 1), 10, L.ANYTIME), ((1, 0), 10, L.ANYTIME),
             ((0, 0), 40, L.ANYTIME), ((0, 0), 10, L.DAYTIME))), ((0, 0), 10, L.ANYTIME)]
    for p, thr, light in calls:
        ws = [w for w in wg.generate_vtws(sats[p[0]], places[p[1]], thr, light)]
        vis = [i for i in range(2) if el[p][i] > thr and (light is L.ANYTIME or i == 0)]
        want = [] if not vis else [(vis[0], vis[-1])]
        c.check(len(ws) == len(want), "windows of this satellite, place, threshold and light")
        for w, (i, j) in zip(ws, want):
            c.check(type(w) is V, "visible time windows")
            c.approx(w.rise_time.to(u.jd2000), jd[i], 1e-9, "rise")
            c.approx(w.set_time.to(u.jd2000), jd[j], 1e-9, "set")
            c.approx(w.attitude.roll.to(u.deg)[0], 0.1 + 10 * p[1] + 100 * p[0], 1e-6, "attitude of the satellite")
            c.check(w.attitude.location is places[p[1]], "attitude towards the place")


VW = "celest.encounter.window_generator"


HARNESSES = [
    Harness("times", times, "9 time scales; arrays, lists and single numbers"),
    Harness("time_history", time_history, "9 time scales after each other, 2 objects of 2 dates"),
    Harness("series_quantities", lambda c: series(c, QUANTITIES), "%d quantities, 2 series of 3 times with 2 in common" % len(QUANTITIES)),
    Harness("series_matrices", lambda c: series(c, MATRICES), "2 matrices, 2 series of 3 times with 2 in common"),
    Harness("series_frames", lambda c: series(c, FRAMES), "2 frames, 2 series of 3 times with 2 in common"),
    Harness("dates", dates, "2 integer dates of 500 days")] + [
    Harness("%s_%s" % (f.__name__, s), fix(f, s), "1 position; from %s to every other frame" % s.upper(), opts=O)
    for f in (integers, coordinate) for s in ("gcrs", "itrs", "wgs84")] + [
    Harness("sites", sites, "2 frames, 2 locations", opts=O),
    Harness("satellite", satellite, "2 satellites of 1 and 2 rows, 2 locations"),
    Harness("satellite_integers", satellite_integers, "1 and 2 rows"),
    Harness("altitude", altitude, "2 satellites of 1 row", opts=O),
    Harness("locations", locations, "2 locations of whole degrees and kilometres"),
    Harness("collections", collections, "2 collections, 3 windows"),
    Harness("handlers", handlers, "2 handlers, 3 requests"),
    Harness("searches", searches, "2 searches, one run twice"),
    Harness("schedulers", schedulers, "2 schedulers of 1 request, one run twice"),
    Harness("visibility", visibility, "2 satellites of 2 samples, 2 places, 2 thresholds, 2 kinds of light"),
    Harness("files", files, "2 writers", opts=dict(feas_ms=200)),
    Harness("units", units, "pairs of units of a dimension"),
]
