"""C23: insertion operators are exhaustive in their documented order."""
from symcel.harness import Harness
from checks.sched_common import Sched, DAY, clash
from checks.c22 import degree

ASSUMPTIONS = [
    "up to 3 requests with up to 2 windows, windows within two days, durations from 1 s to half a day",
    "the slot an operator considers for a window is the one it uses for a request with this window alone",
    "times compared to 1e-9 day"]
OPS = ("greedy_insertion", "minimum_opportunity_insertion", "minimum_conflict_insertion", "initialize_solution")
EPS = 1e-9


def op(c, s, name):
    if name == "initialize_solution":
        f = c.mod("celest.schedule.scheduling_utils").initialize_solution
        return lambda h, n: f(h)
    return getattr(s.ops, name)


def lone(s, r, w):
    """The slot considered for window w of request r, or None."""
    ix, h = s.ix, s.handler()
    h.add_request(r[ix.location], r[ix.deadline], r[ix.duration], r[ix.priority], r[ix.quality],
                  r[ix.look_angle], [w])
    s.ops.insert_first_n_requests(h, 1)
    (q,) = h.requests
    return s.slot(q) if s.is_on(q) else None


def exhaustive(c, shape, name, fixed=(), k=None, duration=None, late=True, given={}):
    s = Sched(c)
    h = s.handler()
    tags = []
    for i, n in enumerate(shape):
        tags.append(s.add(h, i, [s.V(*given[i, j], None) if (i, j) in given else s.window("%d%d" % (i, j)) for j in range(n)],
                          5 if late else c.real("deadline%d" % i, 0, 3),
                          c.real("duration%d" % i, 1, DAY / 2) if duration is None else duration,
                          c.int("priority%d" % i, 1, 10)))
    for i in fixed:
        h.schedule_request(i, 0, s.jd(c.real("start%d" % i, 0, 2)), s.get(h, tags[i])[s.ix.duration])
    held = {t: list(s.get(h, t)[s.ix.vtw_list]) for t in tags}
    k = len(shape) if k is None else c.choice("number", len(shape) + 1)
    op(c, s, name)(h, k)
    if name == "initialize_solution":
        k = len(shape)
    c.check(sorted(t.i for t in tags) == sorted(r[s.ix.location].i for r in h.requests), "no request lost")
    # the documented order
    for a, b in zip(h.requests, h.requests[1:]):
        if name in ("greedy_insertion", "initialize_solution"):
            c.check(a[s.ix.priority] >= b[s.ix.priority], "requests in order of decreasing priority")
        elif name == "minimum_opportunity_insertion":
            c.check(len(a[s.ix.vtw_list]) <= len(b[s.ix.vtw_list]), "requests in order of increasing opportunity")
    for r in h.requests:
        ws = r[s.ix.vtw_list]
        c.check(len(ws) == len(held[r[s.ix.location]]) and all(any(w is v for v in ws) for w in held[r[s.ix.location]]),
                "windows of a request kept")
        for v, w in zip(ws, ws[1:]):
            if name == "initialize_solution":
                c.check(s.times(v)[0] <= s.times(w)[0], "windows in order of rise")
            elif name == "minimum_conflict_insertion":
                c.check(degree(c, s, h, v) <= degree(c, s, h, w) + EPS, "windows in order of increasing conflict")
    # who was inserted, in the order tried
    new = [i for i, r in enumerate(h.requests) if s.is_on(r) and r[s.ix.location].i not in fixed]
    c.check(len(new) <= k, "no more than the number asked for")
    last = len(h.requests) if len(new) < k else (new[-1] + 1 if new else 0)
    taken = [s.slot(s.get(h, tags[i])) for i in fixed]
    for r in h.requests[:last]:
        if r[s.ix.location].i in fixed:
            continue
        on = s.is_on(r)
        for j, w in enumerate(r[s.ix.vtw_list]):
            if on and j == r[s.ix.vtw_index]:
                break
            got = lone(s, r, w)
            if got is None:
                continue
            x = False
            for o in taken:
                x = x | ((got[0] < o[1] + EPS) & (o[0] < got[1] + EPS))
            c.check(x, "a slot passed over conflicts with one taken earlier")
        if on:
            taken.append(s.slot(r))


def greedy(c):
    exhaustive(c, (1, 1), "greedy_insertion", late=False)


def greedy_windows(c):
    exhaustive(c, (2, 1), "greedy_insertion")


def greedy_three(c):
    exhaustive(c, (1, 1, 1), "greedy_insertion", duration=600)


def greedy_some(c):
    exhaustive(c, (1, 1, 1), "greedy_insertion", k=True, duration=3600)


def opportunity(c):
    exhaustive(c, (2, 1), "minimum_opportunity_insertion", k=True)


def conflict(c):
    k = c.choice("request", 2)
    exhaustive(c, ((2, 1), (1, 2))[k], "minimum_conflict_insertion", duration=600,
               given={(1 - k, 0): (0.5, 1.25), (k, 0): (0.25, 0.75)})


def conflict_given(c):
    exhaustive(c, (2, 1), "minimum_conflict_insertion", duration=600, given={(1, 0): (0.5, 1.25)})


def conflict_two(c):
    exhaustive(c, (1, 1), "minimum_conflict_insertion")


def conflict_free(c):
    exhaustive(c, (2, 1), "minimum_conflict_insertion", duration=600)


def initial(c):
    exhaustive(c, c.pick("windows", [(2, 1), (1, 2)]), "initialize_solution")


def beside(c):
    exhaustive(c, (1, 1), c.pick("operator", OPS), fixed=(1,))


def choices(c, look=False, n=2):
    """Windows that do not do for a request do not keep it from the others."""
    s = Sched(c)
    h = s.handler()
    ws = [s.seen("w%d_" % k, 3)[0] if look else s.window("w%d" % k) for k in range(n)]
    t = s.add(h, 0, ws, c.real("deadline", 0, 3), c.real("duration", 1, DAY / 2), 1, 1 if look else c.int("quality", 1, 9),
              s.Q(c.real("look", -90, 90), s.u.deg) if look else None)
    op(c, s, c.pick("operator", OPS[::2] if look else OPS))(h, 1)
    r = s.get(h, t)
    for j, w in enumerate(r[s.ix.vtw_list]):
        if s.is_on(r) and j == r[s.ix.vtw_index]:
            break
        c.check(lone(s, r, w) is None, "a window passed over does not do")


def alone(c):
    """A request that comfortably fits its window is scheduled."""
    s = Sched(c)
    h = s.handler()
    w = s.window("w", gap=1 / 8)
    rise, set_ = s.times(w)
    q = c.int("quality", 1, 9)
    d = c.real("duration", 1, DAY / 4)
    # far shorter than the window, and than its part of that quality
    c.assume(d * 5 <= (set_ - rise) * DAY)
    c.assume(d * 10 <= (set_ - rise) * DAY * (10 - q))
    t = s.add(h, 0, [w], set_ + c.real("late", 0.001, 1), d, c.int("priority", 1, 10), q)
    op(c, s, c.pick("operator", OPS))(h, 1)
    c.check(s.is_on(s.get(h, t)), "a request that fits is scheduled")


HARNESSES = [
    Harness("alone", alone, "1 request shorter than a fifth of its window, any quality up to 9, every operator"),
    Harness("choices", choices, "1 request with 2 windows, every deadline and quality, every operator"),
    Harness("choices_look", lambda c: choices(c, True), "1 request for a look angle, 2 windows of 3 samples, two operators"),
    Harness("greedy", greedy, "2 requests with a deadline, by priority"),
    Harness("greedy_windows", greedy_windows, "2 requests with 2 and 1 windows, by priority"),
    Harness("greedy_some", greedy_some, "3 requests of one hour, every number to insert, by priority"),
    Harness("opportunity", opportunity, "2 requests with 2 and 1 windows, every number, by opportunity"),
    Harness("conflict", conflict, "2 requests of ten minutes, either with an arbitrary window among 3, by conflict"),
    Harness("conflict_two", conflict_two, "2 requests, by conflict"),
    Harness("initial", initial, "2 requests with 2 windows and 1 in either order, the initial solution"),
    Harness("beside", beside, "1 request beside a scheduled one, every operator"),
    Harness("greedy_three", greedy_three, "3 requests of ten minutes, by priority"),
    Harness("conflict_free", conflict_free, "2 requests of ten minutes with 2 and 1 windows, by conflict", thorough=True),
    Harness("conflict_given", conflict_given, "2 requests of ten minutes, one with 2 arbitrary windows", thorough=True),
]
