"""C22: removal operators remove what they are asked to."""
from symcel.harness import Harness
from symcel.loader import RandomStub
from checks.sched_common import Sched

ASSUMPTIONS = [
    "up to 4 requests, windows within two days",
    "every value random.choice and its siblings may return is a branch of the encoding"]
OPS = ("random_removal", "priority_removal", "opportunity_removal", "conflict_removal")
M = "celest.schedule.removal_operators"


def build(c, shape, fixed=None, on=None):
    s = Sched(c)
    h = s.handler()
    tags = []
    for i, n in enumerate(shape):
        ws = [s.V(*fixed[i], None)] if fixed and i in fixed else [s.window("%d%d" % (i, k)) for k in range(n)]
        tags.append(s.add(h, i, ws, priority=c.int("priority%d" % i, 1, 10)))
    for i, t in enumerate(tags):
        if on is not None:
            k = on[i]
        else:
            k = c.choice("slot%d" % i, shape[i] + 1)
        if k:
            h.schedule_request(i, k - 1, s.jd(i), s.sec(60 + i))
    return s, h, tags


def state(s, h, t):
    r = s.get(h, t)
    if not s.is_on(r):
        return None
    return s.win(r), r[s.ix.scheduled_start_time], r[s.ix.scheduled_duration]


def degree(c, s, h, w):
    """Mean overlap of a window with the windows that meet it (itself too)."""
    total, n = 0, 0
    for r in h.requests:
        for v in r[s.ix.vtw_list]:
            (a, b), (x, y) = s.times(w), s.times(v)
            if a <= y and x <= b:
                total = total + ((b if b < y else y) - (x if a < x else a))
                n += 1
    return total / n


def remove(c, shape, ops=OPS, fixed=None, on=None, number=None):
    s, h, tags = build(c, shape, fixed, on)
    before = {t: state(s, h, t) for t in tags}
    held = [(t, s.get(h, t)[s.ix.priority], len(s.get(h, t)[s.ix.vtw_list])) for t in tags]
    scheduled = sum(x is not None for x in before.values())
    k = c.choice("number", len(shape) + 2) if number is None else number
    op = c.pick("operator", ops)
    out = getattr(c.mod(M), op)(h, k)
    c.check(out is None or out is h, "works in place")
    c.check(len(h.requests) == h.number_of_requests == len(tags), "no request lost")
    for t, p, n in held:
        r = s.get(h, t)
        c.check(r is not None, "no request lost")
        c.exact(r[s.ix.priority], p, "request kept")
        c.check(len(r[s.ix.vtw_list]) == n, "request kept")
    after = {t: state(s, h, t) for t in tags}
    gone = [t for t in tags if before[t] is not None and after[t] is None]
    stay = [t for t in tags if after[t] is not None]
    c.check(len(gone) == min(k, scheduled), "number of requests removed")
    c.check(h.number_of_scheduled_requests == len(stay) == scheduled - len(gone), "count of scheduled requests")
    for t in stay:
        c.check(before[t] is not None and all(x is y for x, y in zip(before[t], after[t])), "others untouched")
    for t in gone:
        r = s.get(h, t)
        c.check(r[s.ix.vtw_index] is None and r[s.ix.scheduled_start_time] is None
                and r[s.ix.scheduled_duration] is None, "removed requests have no time slot")
    for a in gone:
        for b in stay:
            x, y = s.get(h, a), s.get(h, b)
            if op == "priority_removal":
                c.check(x[s.ix.priority] >= y[s.ix.priority], "highest priority removed first")
            elif op == "opportunity_removal":
                c.check(len(x[s.ix.vtw_list]) >= len(y[s.ix.vtw_list]), "most opportunities removed first")
            elif op == "conflict_removal":
                c.check(degree(c, s, h, before[a][0]) >= degree(c, s, h, before[b][0]) - 1e-9,
                        "highest conflict removed first")


def counts(c):
    remove(c, (1, 2, 1), OPS[:3])


def counts_four(c):
    remove(c, (1, 1, 1, 1), OPS[:2])


def conflict(c):
    remove(c, (1, 1), OPS[3:])


def conflict_three(c):
    """Two arbitrary windows and one that is given."""
    remove(c, (1, 1, 1), OPS[3:], fixed={1: (0.5, 1.25)}, on=c.pick("pattern", [(1, 1, 1), (1, 0, 1)]), number=1)


def conflict_free(c):
    remove(c, (1, 1, 1), OPS[3:], on=(1, 1, 1), number=1)


def conflict_windows(c):
    """A request may be scheduled in either of its windows."""
    remove(c, (2, 1), OPS[3:], number=1, fixed={1: (0.5, 1.25)})


class Script:
    """Random draws taken from a list, and how many values each had."""

    def __init__(self, draws):
        self.draws, self.sizes = draws, []

    def choice(self, name, n):
        k = len(self.sizes)
        self.sizes.append(n)
        return self.draws[k] if k < len(self.draws) else 0

    def unit(self, name):
        return (self.choice(name, 8) + 0.5) / 8

    def weights(self, w):
        pass


def outcomes(c, run):
    """The outcomes of `run` over every sequence of random draws."""
    todo, out = [[]], []
    while todo and len(out) < 3000:
        draws = todo.pop()
        sc = Script(draws)
        if not c.patch(M, "random", RandomStub(sc)):
            return None
        try:
            out.append(run())
        finally:
            c.unpatch()
        full = draws + [0] * (len(sc.sizes) - len(draws))
        for i in range(len(draws), len(full)):
            todo.extend(full[:i] + [v] for v in range(1, sc.sizes[i]))
    return out


def random_any(c):
    """Each scheduled request may be the one that is removed, and each may stay."""
    n = 4
    on = [c.choice("on%d" % i, 2) for i in range(n)]
    k = c.choice("number", sum(on)) if sum(on) else 0
    if not k:
        c.check(True, "nothing to choose")
        return

    def run():
        s, h, tags = build(c, (1,) * n, {i: (0, 1) for i in range(n)}, on)
        c.mod(M).random_removal(h, k)
        return [bool(on[i]) and state(s, h, t) is None for i, t in enumerate(tags)]
    got = outcomes(c, run)
    if got is None:
        c.check(True, "random source not accessible")
        return
    for i in range(n):
        if on[i]:
            c.check(any(g[i] for g in got), "every scheduled request can be removed")
            c.check(any(not g[i] for g in got), "every scheduled request can stay")


HARNESSES = [
    Harness("counts", counts, "3 requests, every schedule and number, all but conflict removal"),
    Harness("counts_four", counts_four, "4 requests, random and priority removal"),
    Harness("conflict", conflict, "2 requests, every window, schedule and number, conflict removal"),
    Harness("conflict_three", conflict_three, "3 requests, two arbitrary windows, conflict removal of one"),
    Harness("conflict_windows", conflict_windows, "2 requests, one with two arbitrary windows"),
    Harness("random_any", random_any, "4 requests, every schedule, number and random draw"),
    Harness("conflict_free", conflict_free, "3 requests, every window, conflict removal of one"),
]
