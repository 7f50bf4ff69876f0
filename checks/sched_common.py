"""Shared by the scheduling checks: symbolic requests and windows."""
DAY = 86400


class Sched:
    def __init__(self, c):
        self.c = c
        self.u = c.mod("celest.units")
        self.Q = c.mod("celest.units.quantity").Quantity
        self.rh = c.mod("celest.schedule.request_handler")
        self.ix = self.rh.RequestIndices
        self.ops = c.mod("celest.schedule.insertion_operators")
        self.V = c.mod("celest.encounter.window_handling").VisibleTimeWindow

    def window(self, name, lo=0, hi=2, attitude=None, gap=0):
        """An arbitrary window within two days."""
        c = self.c
        r, s = c.real("rise" + name, lo, hi), c.real("set" + name, lo, hi)
        c.assume(s - r >= gap)
        return self.V(r, s, attitude)

    def seen(self, name, n, lo=0, hi=2, span=None):
        """A window of n samples at which the attitude is known; `span` gives
        its first and last sample among them."""
        c = self.c
        t = c.reals("t" + name, n, lo, hi)
        for a, b in zip(t, t[1:]):
            c.assume(a < b)
        pitch = c.reals("pitch" + name, n, -180, 180)
        a, b = span or (0, n - 1)
        roll, yaw = c.reals("roll" + name, n, -180, 180), c.reals("yaw" + name, n, -180, 180)
        deg = lambda x: self.Q(c.arr(x), self.u.deg)
        w = self.V(t[a], t[b], Seen(deg(pitch), self.jd(c.arr(t)), deg(roll), deg(yaw)))
        return w, t, pitch

    def times(self, w):
        return w.rise_time.to(self.u.jd2000), w.set_time.to(self.u.jd2000)

    def jd(self, x):
        return self.Q(x, self.u.jd2000)

    def sec(self, x):
        return self.Q(x, self.u.s)

    def handler(self):
        return self.rh.RequestHandler()

    def add(self, h, i, windows, deadline=None, duration=None, priority=1, quality=1, look=None):
        """A request, tagged by a location object of its own."""
        tag = Tag(i)
        h.add_request(tag, self.jd(10 if deadline is None else deadline),
                      self.sec(60 if duration is None else duration), priority, quality, look, list(windows))
        return tag

    def get(self, h, tag):
        for r in h.requests:
            if r[self.ix.location] is tag:
                return r
        return None

    def is_on(self, r):
        return bool(r[self.ix.is_scheduled])

    def slot(self, r):
        """Start and end in days."""
        s = r[self.ix.scheduled_start_time].to(self.u.jd2000)
        return s, s + r[self.ix.scheduled_duration].to(self.u.s) / DAY

    def win(self, r):
        return r[self.ix.vtw_list][r[self.ix.vtw_index]]


class Seen:
    """Stands for the attitude of a window."""

    def __init__(self, pitch, time, roll=None, yaw=None):
        self.pitch, self.time = pitch, time
        self.roll = pitch if roll is None else roll
        self.yaw = pitch if yaw is None else yaw


class Tag:
    def __init__(self, i):
        self.i = i

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "site%d" % self.i


def clash(a, b):
    """Two intervals share more than an end point."""
    return (a[0] < b[1]) & (b[0] < a[1])


def apart(a, b, eps=0):
    return (a[1] <= b[0] + eps) | (b[1] <= a[0] + eps)
