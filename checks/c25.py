"""C25: conflict degrees measure overlap."""
from symcel.harness import Harness
from checks.sched_common import Sched

ASSUMPTIONS = [
    "windows within two days, rise not after set; no two windows share exactly an end point",
    "the conflict degree of a window is the mean overlap with the windows that meet it, itself included"]
EPS = 1e-9


def number(s, x):
    """A degree may carry its unit."""
    return x.to(s.u.jd2000) if hasattr(x, "to") else x


def build(c, shape, given={}):
    s = Sched(c)
    h = s.handler()
    wins, tags = [], []
    for i, n in enumerate(shape):
        ws = [s.V(*given[i, j], None) if (i, j) in given else s.window("%d%d" % (i, j)) for j in range(n)]
        tags.append(s.add(h, i, ws, priority=i))
        wins += ws
    for i in range(len(wins)):
        for j in range(i):
            (a, b), (x, y) = s.times(wins[i]), s.times(wins[j])
            for p, q in ((a, y), (b, x)):
                c.assume((p - q > 1e-6) | (q - p > 1e-6))
    return s, h, tags, wins


def overlap(c, s, v, w):
    """Length of the intersection, or None."""
    (a, b), (x, y) = s.times(v), s.times(w)
    if b < x or y < a:
        return None
    return (b if b < y else y) - (x if a < x else a)


def mean(c, s, w, wins):
    got = [overlap(c, s, w, v) for v in wins]
    got = [g for g in got if g is not None]
    t = 0
    for g in got:
        t = t + g
    return t / len(got)


def degree(c, shape, given={}):
    s, h, tags, wins = build(c, shape, given)
    k = c.choice("window", len(wins)) if len(wins) > 1 else 0
    d = number(s, h._conflict_degree(wins[k]))
    c.approx(d, mean(c, s, wins[k], wins), 1e-9, "mean overlap with the windows that meet it")
    c.check(d >= -EPS, "not negative")
    a, b = s.times(wins[k])
    c.check(d <= b - a + EPS, "at most the length of the window")


def one(c):
    degree(c, (1,))


def two(c):
    degree(c, (1, 1))


def two_of_one(c):
    degree(c, (2,))


def three(c):
    degree(c, (2, 1), {(1, 0): (0.5, 1.25)})


def three_free(c):
    degree(c, (2, 1))


def symmetric(c):
    """Between two windows: what one loses the other loses."""
    s, h, tags, (v, w) = build(c, (1, 1))
    dv, dw = number(s, h._conflict_degree(v)), number(s, h._conflict_degree(w))
    (a, b), (x, y) = s.times(v), s.times(w)
    if overlap(c, s, v, w) is None:
        c.approx(dv, b - a, 1e-9, "disjoint windows do not conflict")
        c.approx(dw, y - x, 1e-9, "disjoint windows do not conflict")
    else:
        c.approx(dv * 2 - (b - a), dw * 2 - (y - x), 1e-9, "overlap is symmetric")


def alike(c):
    """Adding a window that meets no other changes nothing."""
    s, h, tags, (v, w) = build(c, (1, 1))
    before = [number(s, h._conflict_degree(x)) for x in (v, w)]
    r = c.real("far", 3, 5)
    s.add(h, 2, [s.V(r, r + 1, None)])
    after = [number(s, h._conflict_degree(x)) for x in (v, w)]
    for a, b in zip(before, after):
        c.exact(a, b, "a disjoint window does not matter")


def sort_windows(c):
    k = c.choice("request", 2)
    s, h, tags, wins = build(c, ((2, 1), (1, 2))[k], {(1 - k, 0): (0.5, 1.25)})
    h.sort_vtws_by_increasing_conflict_degree()
    a, b = s.get(h, tags[k])[s.ix.vtw_list]
    c.check({id(a), id(b)} == {id(wins[k]), id(wins[1 + k])}, "windows kept")
    c.check(mean(c, s, a, wins) <= mean(c, s, b, wins) + EPS, "windows in order of increasing conflict")


def sort_requests(c):
    s, h, tags, wins = build(c, (1, 1, 1), {(1, 0): (0.5, 1.25), (2, 0): (0.25, 0.75)})
    on = [1, 1, c.choice("on", 2)]
    for i, t in enumerate(tags):
        if on[i]:
            h.schedule_request(i, 0, s.jd(i), s.sec(60))
    h.sort_by_decreasing_conflict_degree()
    ds = [mean(c, s, s.win(r), wins) if s.is_on(r) else 0 for r in h.requests]
    c.check(len(ds) == 3 and all(s.get(h, t) is not None for t in tags), "requests kept")
    for a, b in zip(ds, ds[1:]):
        c.check(a >= b - EPS, "scheduled requests in order of decreasing conflict")


HARNESSES = [
    Harness("one", one, "1 window"),
    Harness("two", two, "2 requests with 1 window each"),
    Harness("two_of_one", two_of_one, "1 request with 2 windows"),
    Harness("three", three, "3 windows of 2 requests, one given"),
    Harness("symmetric", symmetric, "every pair of windows"),
    Harness("alike", alike, "every pair of windows and a disjoint one"),
    Harness("sort_windows", sort_windows, "2 arbitrary windows of either of 2 requests, and a given one"),
    Harness("sort_requests", sort_requests, "1 arbitrary window and 2 given ones"),
    Harness("three_free", three_free, "3 windows of 2 requests", thorough=True),
]
