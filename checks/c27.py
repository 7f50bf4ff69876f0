"""C27: the scheduler's output is exactly the scheduled requests."""
from symcel.harness import Harness
from checks.sched_common import Sched, Tag, DAY, apart

ASSUMPTIONS = [
    "up to 3 requests with up to 2 windows; the windows generated for a request are arbitrary (they are C18)",
    "windows start and end at samples of their attitude",
    "angles are interpolated linearly between samples"]
M = "celest.schedule.scheduler"
EPS = 1e-9


class Plan:
    def __init__(self, c):
        self.c = c
        self.s = Sched(c)
        self.m = c.mod(M)
        self.Sat = c.mod("celest.satellite").Satellite
        self.A = c.mod("celest.coordinates.frames.attitude").Attitude
        self.sat = object.__new__(self.Sat)
        self.sched = self.m.Scheduler(self.sat, 10)
        self.known = {}

    def window(self, name, site, n=2, lo=0, hi=2, angles=True):
        """A window of n samples, with its attitude."""
        c, u = self.c, self.s.u
        t = c.reals("t" + name, n, lo, hi)
        for a, b in zip(t, t[1:]):
            c.assume(b - a >= 1e-3)
        ang = [c.reals(k + name, n, -180, 180) if angles else [10 * j + i for i in range(n)]
               for j, k in enumerate(("roll", "pitch", "yaw"))]
        w = self.s.V(t[0], t[-1], self.A(c.arr(t), *[c.arr(a) for a in ang], u.deg, site))
        self.known[id(w)] = (w, t, ang)
        return w

    def origin(self, w):
        """What a window, or the search's copy of it, was made from."""
        for v, t, ang in self.known.values():
            if v is w:
                return v, t, ang
        a, b = self.s.times(w)
        return [x for x in self.known.values() if self.s.times(x[0]) == (a, b)][0]

    def window_at(self, name, site, a, b):
        t, ang = [a, b], [[0, 10 * j] for j in range(3)]
        w = self.s.V(a, b, self.A(self.c.arr(t), *[self.c.arr(x) for x in ang], self.s.u.deg, site))
        self.known[id(w)] = (w, t, ang)
        return w

    def request(self, i, ws, site, deadline=5, duration=600, priority=1, quality=1, look=None, lighting=None):
        """Through the public interface, with the generated windows given."""
        c, calls = self.c, []

        def generated(*a, **k):
            calls.append((a, k))
            out = c.mod("celest.encounter.window_handling").WindowCollection()
            for w in ws:
                out.add_window(w)
            return out
        if not c.patch(M, "generate_vtws", generated):
            raise AttributeError("generate_vtws")
        try:
            if lighting is None:
                self.sched.add_request(site, deadline, duration, priority, quality, look)
            else:
                self.sched.add_request(site, deadline, duration, priority, quality, look, lighting)
        finally:
            c.unpatch()
        return calls


def check_output(c, p, out, sites, plan=None):
    """One window for each scheduled request, as scheduled."""
    s, u = p.s, p.s.u
    on = [r for r in (p.sched.request_handler if plan is None else plan) if s.is_on(r)]
    c.check(len(out) == len(on), "one window for each scheduled request")
    got = list(out)
    for r in on:
        mine = [w for w in got if w.location is r[s.ix.location]]
        c.check(len(mine) == 1, "one window with the location of the request")
        (w,) = mine
        a, b = s.slot(r)
        start = w.start_time.to(u.jd2000)
        c.exact(start, a, "start of the observation")
        c.exact(w.duration.to(u.s), r[s.ix.duration].to(u.s), "duration of the observation")
        v, t, ang = p.origin(s.win(r))
        att = w.attitude
        c.check(att.location is r[s.ix.location], "attitude towards the location")
        c.check(len(att.time.to(u.jd2000)) == 1, "one attitude")
        c.exact(att.time.to(u.jd2000)[0], start, "attitude at the start")
        for q, val in zip((att.roll, att.pitch, att.yaw), ang):
            x = q.to(u.deg)[0]
            for i in range(len(t) - 1):
                if (t[i] <= start) and (start <= t[i + 1]):
                    f = (start - t[i]) / (t[i + 1] - t[i])
                    c.approx(x, val[i] + f * (val[i + 1] - val[i]), 1e-6, "attitude interpolated at the start")
                    break


def single(c):
    """One request, every attitude."""
    p = Plan(c)
    site = Tag(0)
    p.request(0, [p.window("a", site, 3)], site, 5, c.real("duration", 1, DAY / 2))
    check_output(c, p, p.sched.generate(0, 0.8, 0.5), [site])


def several(c):
    p = Plan(c)
    sites = [Tag(i) for i in range(3)]
    for i, site in enumerate(sites):
        p.request(i, [p.window("w%d" % i, site, angles=False)], site, 5, 600, c.int("priority%d" % i, 1, 10))
    check_output(c, p, p.sched.generate(0, 0.8, 0.5), sites)


def windows(c):
    """The attitude is that of the window used."""
    p = Plan(c)
    sites = [Tag(i) for i in range(2)]
    p.request(0, [p.window("a", sites[0]), p.window("b", sites[0])], sites[0], c.real("deadline", 0, 3), 3600)
    p.request(1, [p.window("c", sites[1])], sites[1], 5, 3600, 1)
    check_output(c, p, p.sched.generate(0, 0.8, 0.5), sites)


def improved(c):
    """What a round of search returns is feasible and not worse than the start."""
    p = Plan(c)
    s = p.s
    sites = [Tag(i) for i in range(2)]
    dur = c.reals("duration", 2, 1, DAY / 2)
    pri = [c.int("priority%d" % i, 1, 10) for i in range(2)]
    ws = []
    for i in range(2):
        ws.append(p.window("w%d" % i, sites[i], angles=False))
        p.request(i, [ws[-1]], sites[i], c.real("deadline%d" % i, 0, 3) if i else 5, dur[i], pri[i])
    out = list(p.sched.generate(1, 0.8, 0.5))
    first = 0
    for r in p.sched.request_handler:
        if s.is_on(r):
            first = first + r[s.ix.priority]
    total, slots = 0, []
    for w in out:
        i = [k for k in range(2) if sites[k] is w.location]
        c.check(len(i) == 1, "the location of a request")
        i = i[0]
        total = total + pri[i]
        a = w.start_time.to(s.u.jd2000)
        c.exact(w.duration.to(s.u.s), dur[i], "duration requested")
        rise, set_ = s.times(ws[i])
        b = a + dur[i] / DAY
        c.check((a >= rise - EPS) & (b <= set_ + EPS), "within the window")
        slots.append((a, b))
    c.check(len(set(id(w.location) for w in out)) == len(out), "a request is observed once")
    for i in range(len(slots)):
        for j in range(i):
            c.check(apart(slots[i], slots[j], EPS), "observations do not overlap")
    c.check(total >= first, "not worse than the initial schedule")


def found(c):
    """The schedule is the one the search found, not the one it started from."""
    p = Plan(c)
    sites = [Tag(i) for i in range(2)]
    at = lambda name, a, b: p.window_at(name, sites[name == "c"], a, b)
    long, short = c.real("long", 0.05, 0.15), c.real("short", 0.05, 0.15)
    p.request(0, [at("a", 0, 1), at("b", 2, 3 + long)], sites[0], 5, short * DAY, 5)
    p.request(1, [at("c", 0.25 - long, 0.75 + long)], sites[1], 5, short * DAY, 4)
    seen = []
    if hasattr(p.sched, "solve"):
        solve = p.sched.solve

        def watched(*a, **k):
            seen.append(solve(*a, **k))
            return seen[-1]
        p.sched.solve = watched
    out = p.sched.generate(1, 0.8, 0.5)
    if len(seen) == 1 and isinstance(seen[0], type(p.sched.request_handler)):
        check_output(c, p, out, sites, seen[0])
    else:
        c.check(len(out) >= 1, "something is scheduled")


def added(c):
    """A request is recorded as it is made."""
    p = Plan(c)
    s, u = p.s, p.s.u
    site, other = Tag(0), Tag(1)
    L = c.mod("celest.encounter.window_generator").Lighting
    light = c.pick("lighting", [None, L.DAYTIME, L.NIGHTTIME])
    d, t = c.real("deadline", 0, 9000), c.real("duration", 0, DAY)
    pri, q = c.int("priority", 1, 10), c.int("quality", 1, 10)
    look = c.real("look", -90, 90) if c.bool("wants_look") else None
    ws = [s.window("a"), s.window("b")]
    calls = p.request(0, ws, site, d, t, pri, q, look, light)
    p.request(1, [], other)
    c.check(len(calls) == 1, "windows generated once")
    a, k = calls[0]
    names = ("satellite", "location", "vis_threshold", "lighting")
    got = dict(zip(names, a), **k)
    c.check(got["satellite"] is p.sat and got["location"] is site, "windows of the satellite over the location")
    c.check(got["vis_threshold"] == 10, "visibility threshold")
    c.check(got["lighting"] is (L.DAYTIME if light is None else light), "lighting")
    h = p.sched.request_handler
    c.check(len(h) == 2, "requests recorded")
    r = s.get(h, site)
    c.check(not s.is_on(r), "not scheduled yet")
    c.exact(r[s.ix.deadline].to(u.jd2000), d, "deadline")
    c.exact(r[s.ix.duration].to(u.s), t, "duration in seconds")
    c.exact(r[s.ix.priority], pri, "priority")
    c.exact(r[s.ix.quality], q, "quality")
    if look is None:
        c.check(r[s.ix.look_angle] is None, "no look angle")
    else:
        c.exact(r[s.ix.look_angle].to(u.deg), look, "look angle in degrees")
    c.check(len(list(r[s.ix.vtw_list])) == 2 and all(x is y for x, y in zip(r[s.ix.vtw_list], ws)), "windows")


def refused(c):
    p = Plan(c)
    c.check(c.raises(Exception, p.sched.generate, 1, 0.8, 0.5), "nothing to schedule")
    c.check(c.raises(TypeError, p.m.Scheduler, Tag(0), 10), "a satellite is needed")
    c.check(c.raises(TypeError, p.m.Scheduler, p.sat, "10"), "a number is needed")


HARNESSES = [
    Harness("single", single, "1 request, every duration, times and attitudes at 3 samples"),
    Harness("several", several, "3 requests, every window and priority"),
    Harness("windows", windows, "2 requests with 2 and 1 windows, every attitude"),
    Harness("improved", improved, "2 requests, one round of search, every operator and draw"),
    Harness("found", found, "2 requests with 2 and 1 windows, one round of search"),
    Harness("added", added, "every request and lighting"),
    Harness("refused", refused, "no request; wrong arguments"),
]
