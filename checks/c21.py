"""C21: the bookkeeping of a request handler."""
from symcel.harness import Harness
from checks.sched_common import Sched, DAY

ASSUMPTIONS = [
    "histories that start from an empty handler, up to 3 requests and 4 operations",
    "windows within two days, priorities 1 to 10"]
SORTS = ("sort_by_decreasing_priority", "sort_by_decreasing_opportunity", "sort_by_increasing_opportunity",
         "sort_by_decreasing_conflict_degree", "sort_vtws_by_increasing_conflict_degree",
         "sort_vtws_by_increasing_rise_time")
PLAIN = SORTS[:3] + SORTS[5:]


class Model:
    """What the handler is to hold, by request."""

    def __init__(self, c, s):
        self.c, self.s, self.h = c, s, s.handler()
        self.req, self.on, self.tags = {}, {}, []

    def add(self, n):
        c, s, i = self.c, self.s, len(self.tags)
        ws = [s.window("%d%d" % (i, k)) for k in range(n)]
        f = [s.jd(c.real("deadline%d" % i, 0, 5)), s.sec(c.real("duration%d" % i, 1, DAY)),
             c.int("priority%d" % i, 1, 10), c.int("quality%d" % i, 1, 10), None]
        tag = s.add(self.h, i, ws, f[0].data, f[1].data, *f[2:])
        self.tags.append(tag)
        self.req[tag] = (ws, f[0].data, f[1].data, f[2], f[3])
        self.on[tag] = None

    def where(self, tag):
        at = [i for i, r in enumerate(self.h.requests) if r[self.s.ix.location] is tag]
        self.c.check(len(at) == 1, "every request is held once")
        return at[0]

    def schedule(self, tag, k, start, duration):
        i = self.where(tag)
        w = self.h.vtw_list(i)[k]
        self.h.schedule_request(i, k, start, duration)
        self.on[tag] = (w, start, duration)

    def unschedule(self, tag):
        self.h.unschedule_request(self.where(tag))
        self.on[tag] = None

    def clear(self):
        self.h.unschedule_all_requests()
        self.on = dict.fromkeys(self.on)

    def fields(self, t, i):
        c, h = self.c, self.h
        _, deadline, duration, priority, quality = self.req[t]
        c.exact(h.deadline(i).data, deadline, "deadline kept")
        c.exact(h.duration(i).data, duration, "duration kept")
        c.exact(h.priority(i), priority, "priority kept")
        c.exact(h.image_quality(i), quality, "quality kept")
        c.check(h.look_angle(i) is None, "look angle kept")

    def verify(self, fields=False):
        c, h, ix, s = self.c, self.h, self.s.ix, self.s
        n = len(self.tags)
        c.check(len(h.requests) == len(h) == h.number_of_requests == n, "number of requests")
        c.check(sum(1 for _ in h) == n, "iteration yields every request")
        c.check([r for r in h] == h.requests and [h[i] for i in range(n)] == h.requests, "iteration and index agree")
        marked = sum(1 for r in h.requests if r[ix.is_scheduled])
        c.check(h.number_of_scheduled_requests == marked, "count of scheduled requests")
        c.check(marked == sum(1 for x in self.on.values() if x is not None), "requests marked as scheduled")
        for t in self.tags:
            i = self.where(t)
            r = h.requests[i]
            ws = self.req[t][0]
            if fields:
                self.fields(t, i)
            c.check(len(h.vtw_list(i)) == len(ws) and all(any(w is x for x in h.vtw_list(i)) for w in ws),
                    "windows of a request kept")
            c.check(bool(h.is_request_scheduled(i)) == (self.on[t] is not None), "scheduled as recorded")
            if self.on[t] is None:
                c.check(h.vtw_index(i) is None and h.start_time(i) is None and h.scheduled_duration(i) is None,
                        "nothing recorded for an unscheduled request")
            else:
                w, start, dur = self.on[t]
                c.check(h.vtw_list(i)[h.vtw_index(i)] is w, "window of a scheduled request")
                c.check(h.start_time(i) is start, "start of a scheduled request")
                c.check(h.scheduled_duration(i) is dur, "duration of a scheduled request")


def start(c, shape):
    s = Sched(c)
    m = Model(c, s)
    for n in shape:
        m.add(n)
    return s, m


def slots(c, s, m, pattern=True):
    """Schedule some of the requests, in any of their windows."""
    for i, t in enumerate(m.tags):
        k = c.choice("slot%d" % i, len(m.req[t][0]) + 1)
        if k:
            m.schedule(t, k - 1, s.jd(c.real("start%d" % i, 0, 2)), s.sec(c.real("length%d" % i, 1, DAY)))


def book(c, steps=4, shape=(1, 2)):
    s, m = start(c, shape)
    m.verify()
    for k in range(steps):
        i = c.choice("request%d" % k, len(m.tags) + 1)
        if i == len(m.tags):
            if c.bool("clear%d" % k):
                m.clear()
            else:
                m.add(1)
        elif c.bool("off%d" % k):
            m.unschedule(m.tags[i])
        else:
            m.schedule(m.tags[i], c.choice("window%d" % k, len(m.req[m.tags[i]][0])), s.jd(k), s.sec(60 + k))
        m.verify(k == steps - 1)


def book_long(c):
    book(c, 5, (2, 1))


def sort_one(c, shape=(2, 1), sorts=PLAIN, again=()):
    s, m = start(c, shape)
    slots(c, s, m)
    getattr(m.h, c.pick("sort", sorts))()
    m.verify(True)
    if again:
        getattr(m.h, c.pick("again", again))()
        m.verify()
    i = c.choice("request", len(m.tags))
    if c.bool("off"):
        m.unschedule(m.tags[i])
    else:
        m.schedule(m.tags[i], 0, s.jd(1), s.sec(60))
    m.verify()
    m.clear()
    m.verify()


def sort_conflict(c):
    sort_one(c, (1, 1), SORTS[3:5])


def sort_two(c):
    sort_one(c, (1, 2), PLAIN, PLAIN)


def sort_windows(c, shape=(2, 1), sorts=SORTS[4:]):
    s, m = start(c, shape)
    slots(c, s, m)
    getattr(m.h, c.pick("sort", sorts))()
    m.verify()


def sort_windows_three(c):
    sort_windows(c, (3,))


def sort_requests_three(c):
    sort_windows(c, (2, 1, 1), SORTS[3:4])


def order(c, shape=(1, 2, 1)):
    """The order each sorting documents."""
    s, m = start(c, shape)
    slots(c, s, m)
    by = c.pick("sort", SORTS[:3])
    getattr(m.h, by)()
    m.verify()
    for a, b in zip(m.h.requests, m.h.requests[1:]):
        if by == SORTS[0]:
            c.check(a[s.ix.priority] >= b[s.ix.priority], "priority decreases")
        else:
            x, y = len(a[s.ix.vtw_list]), len(b[s.ix.vtw_list])
            c.check(x >= y if by == SORTS[1] else x <= y, "opportunity ordered")


def order_rise(c):
    s, m = start(c, (3, 2))
    m.h.sort_vtws_by_increasing_rise_time()
    m.verify()
    for r in m.h.requests:
        for a, b in zip(r[s.ix.vtw_list], r[s.ix.vtw_list][1:]):
            c.check(s.times(a)[0] <= s.times(b)[0], "rise times increase")


def totals(c):
    """The cost is the negative sum of the priorities scheduled; a schedule is
    complete when every request is scheduled."""
    s, m = start(c, (1, 1, 1))
    slots(c, s, m)
    su = c.mod("celest.schedule.scheduling_utils")
    want = 0
    for t in m.tags:
        if m.on[t] is not None:
            want = want - m.req[t][3]
    c.exact(su.cost(m.h), want, "cost")
    c.check(bool(su.is_complete(m.h)) == all(x is not None for x in m.on.values()), "complete")
    m.verify()


HARNESSES = [
    Harness("book", book, "2 requests, every history of 4 operations"),
    Harness("sort_one", sort_one, "2 requests with 2 and 1 windows, every sort but by conflict, then one operation"),
    Harness("sort_conflict", sort_conflict, "2 requests with 1 window, every sort by conflict, then one operation"),
    Harness("sort_windows", sort_windows, "2 requests with 2 and 1 windows, sorts of windows"),
    Harness("order", order, "3 requests, every priority and sort of requests"),
    Harness("order_rise", order_rise, "2 requests with 3 and 2 windows"),
    Harness("totals", totals, "3 requests, every schedule"),
    Harness("book_long", book_long, "2 requests, every history of 5 operations", thorough=True),
    Harness("sort_two", sort_two, "2 requests, every two sorts, then one operation", thorough=True),
    Harness("sort_windows_three", sort_windows_three, "1 request with 3 windows, sorts of windows"),
    Harness("sort_requests_three", sort_requests_three, "3 requests, sort by conflict", thorough=True),
]
