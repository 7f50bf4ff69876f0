"""C20: inserting requests keeps the schedule feasible."""
from symcel.harness import Harness
from checks.sched_common import Sched, DAY, apart, clash

ASSUMPTIONS = [
    "windows within two days, durations from 1 s to half a day, integer qualities 1 to 10, priorities 1 to 10",
    "requests already scheduled are feasible and disjoint",
    "no slewing time is modelled by the code, and none is claimed",
    "times compared to 1e-9 day"]
OPS = ("greedy_insertion", "minimum_opportunity_insertion", "minimum_conflict_insertion", "insert_first_n_requests")
EPS = 1e-9


def feasible(c, s, r, what):
    """The scheduled request r satisfies its own constraints."""
    ix = s.ix
    c.check(0 <= r[ix.vtw_index] < len(r[ix.vtw_list]), "refers to one of its windows")
    w = s.win(r)
    rise, set_ = s.times(w)
    a, b = s.slot(r)
    c.check(a >= rise - EPS, what + " starts within its window")
    c.check(b <= set_ + EPS, what + " ends within its window")
    c.check(b <= r[ix.deadline].to(s.u.jd2000) + EPS, what + " meets its deadline")
    c.approx(r[ix.scheduled_duration].to(s.u.s), r[ix.duration].to(s.u.s), 1e-6, what + " has its duration")
    half, mid = (set_ - rise) / 2, (set_ + rise) / 2
    q = r[ix.quality]
    # quality falls linearly from 10 at the middle to 1 at the ends
    c.check((10 - q) * half >= 9 * (a - mid) - 10 * EPS, what + " meets its quality")
    c.check((10 - q) * half >= 9 * (mid - a) - 10 * EPS, what + " meets its quality")


def request(c, s, h, i, m, quality=None, look=None):
    ws = [s.window("%d%d" % (i, k)) for k in range(m)]
    return s.add(h, i, ws, c.real("deadline%d" % i, 0, 3), c.real("duration%d" % i, 1, DAY / 2),
                 c.int("priority%d" % i, 1, 10), c.int("quality%d" % i, 1, 10) if quality is None else quality, look)


def insert(c, shape, fixed=(), op=None, ops=OPS, quality=None, k=None):
    """`shape[i]` windows for request i; the `fixed` ones are scheduled before,
    at an arbitrary feasible time."""
    s = Sched(c)
    h = s.handler()
    tags = [request(c, s, h, i, m, quality) for i, m in enumerate(shape)]
    before = {}
    for i in fixed:
        r = s.get(h, tags[i])
        w = c.choice("win%d" % i, shape[i])
        start = c.real("start%d" % i, 0, 2)
        rise, set_ = s.times(r[s.ix.vtw_list][w])
        c.assume(rise < start)
        h.schedule_request(i, w, s.jd(start), r[s.ix.duration])
        a, b = s.slot(r)
        c.assume(b < set_)
        before[i] = (a, b, s.win(r))
    for i in fixed:
        for j in fixed:
            if i < j:
                c.assume(apart(before[i][:2], before[j][:2]))
    f = getattr(s.ops, op or c.pick("operator", list(ops)))
    f(h, len(shape) if k is None else c.choice("number", len(shape) + 1))
    on = []
    c.check(len(h.requests) == len(shape), "no request lost")
    for i, t in enumerate(tags):
        r = s.get(h, t)
        c.check(r is not None, "no request lost")
        if i in before:
            c.check(s.is_on(r), "scheduled requests stay scheduled")
            a, b = s.slot(r)
            c.approx(a, before[i][0], EPS, "start of a scheduled request kept")
            c.approx(b, before[i][1], EPS, "duration of a scheduled request kept")
            c.check(s.win(r) is before[i][2], "window of a scheduled request kept")
            on.append(s.slot(r))
        elif s.is_on(r):
            feasible(c, s, r, "insertion")
            on.append(s.slot(r))
    for i in range(len(on)):
        for j in range(i):
            c.check(apart(on[i], on[j], EPS), "scheduled requests do not overlap")
    c.check(h.number_of_scheduled_requests == len(on) == sum(map(s.is_on, h.requests)), "count of scheduled requests")


def one(c):
    insert(c, (2,))


def two(c):
    insert(c, (1, 1), quality=1)


def two_quality(c):
    insert(c, (1, 1), op="insert_first_n_requests")


def beside(c):
    insert(c, (1, 1), fixed=(1,), quality=1)


def beside_windows(c):
    insert(c, (2, 1), fixed=(1,), op="insert_first_n_requests", quality=1)


def beside_two(c):
    insert(c, (1, 1, 1), fixed=(0, 2), op="insert_first_n_requests", quality=1)


def three(c):
    insert(c, (1, 1, 1), op="greedy_insertion", quality=1)


def some(c):
    insert(c, (1, 1), quality=1, k=True, op="greedy_insertion")


def look(c, n=5, windows=1):
    """A request for a look angle starts where the look angle is reached."""
    s = Sched(c)
    h = s.handler()
    made = [s.seen("w%d_" % k, n) for k in range(windows)]
    want = c.real("look", -90, 90)
    t = s.add(h, 0, [w for w, _, _ in made], c.real("deadline", 0, 3), c.real("duration", 1, DAY / 2),
              1, 1, s.Q(want, s.u.deg))
    getattr(s.ops, c.pick("operator", ["greedy_insertion", "insert_first_n_requests"]))(h, 1)
    r = s.get(h, t)
    if s.is_on(r):
        feasible(c, s, r, "insertion")
        start = s.slot(r)[0]
        w = s.win(r)
        _, times, pitch = [m for m in made if m[0] is w][0]
        ok = False
        for i in range(n - 1):
            here = (start <= times[i] + EPS) & (start >= times[i] - EPS)
            a, b = pitch[i], pitch[i + 1]
            ok = ok | (here & (((a <= want + 1e-9) & (b >= want - 1e-9)) | ((a >= want - 1e-9) & (b <= want + 1e-9))))
        c.check(ok, "the look angle is reached at the start or before the next sample")
    else:
        c.check(h.number_of_scheduled_requests == 0, "nothing scheduled")


def look_two(c):
    look(c, 3, 2)


def look_beside(c):
    """A request beside a scheduled one, for a look angle either or both."""
    s = Sched(c)
    h = s.handler()
    new, old = c.pick("looks", ((True, True), (True, False), (False, True)))
    want = s.Q(c.real("look", -90, 90), s.u.deg)
    made = [s.seen("w%d_" % k, 3) for k in range(2)]
    tags = [s.add(h, i, [made[i][0]], c.real("deadline%d" % i, 0, 3), c.real("duration%d" % i, 1, DAY / 2), 1, 1,
                  want if on else None) for i, on in enumerate((old, new))]
    r = s.get(h, tags[0])
    rise, set_ = s.times(made[0][0])
    start = made[0][1][1] if old else c.real("start", 0, 2)
    c.assume(rise < start)
    h.schedule_request(0, 0, s.jd(start), r[s.ix.duration])
    held = s.slot(r)
    c.assume(held[1] < set_)
    getattr(s.ops, c.pick("operator", ["minimum_opportunity_insertion", "insert_first_n_requests"]))(h, 2)
    got = s.get(h, tags[1])
    if s.is_on(got):
        feasible(c, s, got, "insertion")
        c.check(apart(s.slot(got), held, EPS), "scheduled requests do not overlap")
    for a, b in zip(s.slot(s.get(h, tags[0])), held):
        c.approx(a, b, EPS, "the scheduled request is kept")


HARNESSES = [
    Harness("look", look, "1 request for a look angle, 5 samples of the look angle, any profile"),
    Harness("look_two", look_two, "1 request for a look angle, 2 windows of 3 samples"),
    Harness("look_beside", look_beside, "1 request beside a scheduled one, for a look angle either or both, 3 samples"),
    Harness("one", one, "1 request with 2 windows, every operator"),
    Harness("two", two, "2 requests with 1 window, every operator"),
    Harness("two_quality", two_quality, "2 requests, every quality"),
    Harness("beside", beside, "1 request beside a scheduled one, every operator"),
    Harness("beside_windows", beside_windows, "1 request with 2 windows beside a scheduled one"),
    Harness("beside_two", beside_two, "1 request beside 2 scheduled ones"),
    Harness("some", some, "2 requests, every number to insert"),
    Harness("three", three, "3 requests, by priority"),
]
