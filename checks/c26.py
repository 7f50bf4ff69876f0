"""C26: image quality and look angle times."""
from symcel.harness import Harness
from checks.sched_common import Sched

ASSUMPTIONS = [
    "windows from half a minute to two days long; up to 9 samples of the look angle, at increasing times",
    "times in a window start and end at samples, as the generated windows do"]
M = "celest.schedule.insertion_operators"
EPS = 1e-9


def window(c):
    s = Sched(c)
    w = s.window("w", gap=1 / 2880)
    return (s, w) + s.times(w)


def quality(c):
    s, w, a, b = window(c)
    f = c.real("where", 1e-6, 1 - 1e-6)
    t = a + (b - a) * f
    q = s.ops.image_quality(w, s.jd(t))
    c.check((q == 1) | (q == 2) | (q == 3) | (q == 4) | (q == 5) | (q == 6) | (q == 7) | (q == 8) | (q == 9) | (q == 10),
            "an integer from 1 to 10")
    # |t - middle| as a part of half the window
    d = 2 * f - 1
    d = d if d >= 0 else -d
    c.check(q <= 10 - 9 * d + 1e-6, "falls with the distance from the middle")
    c.check(q > 9 - 9 * d - 1e-6, "falls with the distance from the middle")


def ends(c):
    """At the ends themselves, for times that floats hold exactly."""
    s = Sched(c)
    a, b = c.int("rise", 0, 2048), c.int("set", 0, 2048)
    c.assume(b > a)
    a, b = a / 1024, b / 1024
    w = s.V(a, b, None)
    c.check(s.ops.image_quality(w, s.jd((a + b) / 2)) == 10, "10 at the middle")
    c.check(s.ops.image_quality(w, s.jd(a)) == 1, "1 at the rise")
    c.check(s.ops.image_quality(w, s.jd(b)) == 1, "1 at the set")


def met(c):
    s, w, a, b = window(c)
    t = a + (b - a) * c.real("where", 0, 1)
    q, need = s.ops.image_quality(w, s.jd(t)), c.int("needed", 1, 10)
    c.check(bool(s.ops.is_image_quality_met(w, s.jd(t), need)) == bool(q >= need), "quality met")


def bounds(c):
    """A slot within the window ends by the deadline."""
    s, w, a, b = window(c)
    t, d, e = c.real("start", 0, 2), c.real("duration", 0, 1), c.real("deadline", 0, 3)
    inside = bool(s.ops.is_window_within_vtw_bounds(s.jd(t), s.jd(d), w))
    c.check(c.implies(inside, (t >= a - EPS) & (t + d <= b + EPS)), "within the window")
    c.check(c.implies((t > a) & (t + d < b), inside), "strictly inside is within the window")
    before = bool(s.ops.does_window_meet_deadline(s.jd(t), s.jd(d), s.jd(e)))
    c.check(c.implies(before, t + d <= e + EPS), "ends by the deadline")
    c.check(c.implies(t + d < e, before), "ends by the deadline")


def look(c, n, first=0, last=None, units=False):
    s = Sched(c)
    last = n - 1 if last is None else last
    t = c.reals("t", n, 0, 2)
    for x, y in zip(t, t[1:]):
        c.assume(x < y)
    p = c.reals("look", n, -180, 180)
    want = c.real("wanted", -180, 180)
    unit = s.u.deg
    given, desired = c.arr(p), want
    if units:
        given, desired = s.Q(c.arr(p), s.u.deg).convert_to(s.u.rad), s.Q(want, s.u.deg).convert_to(s.u.arcmin)
    else:
        given, desired = s.Q(given, unit), s.Q(desired, unit)
    got = s.ops._look_angle_time(given, desired, s.jd(c.arr(t)), s.jd(t[first]), s.jd(t[last]))
    lo, hi = p[first] - want, p[last] - want
    if got is None:
        c.check(lo * hi >= -1e-7, "none only when both ends are on one side")
        return
    c.check(lo * hi <= 1e-7, "a time only when the ends are on either side")
    x = got.to(s.u.jd2000)
    c.check((x >= t[first] - EPS) & (x <= t[last] + EPS), "within the window")
    ok = False
    for i in range(first, last):
        u, v = p[i] - want, p[i + 1] - want
        ok = ok | ((x <= t[i] + EPS) & (x >= t[i] - EPS)
                   & (((u <= EPS) & (v >= -EPS)) | ((u >= -EPS) & (v <= EPS))))
    c.check(ok, "the angle is reached between the time found and the next sample")


def look_three(c):
    look(c, 3)


def look_six(c):
    look(c, 6)


def look_inside(c):
    """The window covers only some of the samples."""
    look(c, 6, *c.pick("span", [(1, 4), (0, 3), (2, 5), (1, 2)]))


def look_units(c):
    look(c, 3, units=True)


def look_nine(c):
    look(c, 9)


def look_end(c):
    """The angle at an end of the window is reached."""
    s = Sched(c)
    n = 4
    t = c.reals("t", n, 0, 2)
    for x, y in zip(t, t[1:]):
        c.assume(x < y)
    p = c.reals("look", n, -180, 180)
    first, last = c.pick("span", [(0, 3), (0, 1), (1, 3)])
    want = p[c.pick("which", [first, last])]
    got = s.ops._look_angle_time(s.Q(c.arr(p), s.u.deg), s.Q(want, s.u.deg), s.jd(c.arr(t)), s.jd(t[first]), s.jd(t[last]))
    c.check(got is not None, "the angle at an end of the window is found")


HARNESSES = [
    Harness("quality", quality, "every window and time in it, a millionth of the window from its ends"),
    Harness("ends", ends, "every window with ends in multiples of 1/1024 day"),
    Harness("met", met, "every window, time and quality"),
    Harness("bounds", bounds, "every window, slot and deadline"),
    Harness("look_three", look_three, "3 samples, any profile"),
    Harness("look_six", look_six, "6 samples, any profile"),
    Harness("look_inside", look_inside, "6 samples, windows that start or end between"),
    Harness("look_units", look_units, "3 samples, in radians, the angle in arc minutes"),
    Harness("look_end", look_end, "4 samples, any profile, the angle at one end"),
    Harness("look_nine", look_nine, "9 samples, any profile", thorough=True),
]
