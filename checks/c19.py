"""C19: a window collection iterates, indexes and counts faithfully."""
from symcel.harness import Harness

ASSUMPTIONS = ["windows with arbitrary times", "histories as bounded; the kind of every step is arbitrary"]


def load(c):
    wh = c.mod("celest.encounter.window_handling")
    u = c.mod("celest.units")
    return wh, u, c.mod("celest.units.quantity").Quantity


def window(c, wh, u, Q, kind, i):
    if kind == 0:
        return wh.VisibleTimeWindow(c.real("rise%d" % i, 0, 10), c.real("set%d" % i, 0, 10), None)
    return wh.ObservationWindow(Q(c.real("start%d" % i, 0, 10), u.jd2000), Q(c.real("dur%d" % i, 1, 60), u.s),
                                None, None)


def same(c, got, want, label):
    got = list(got)
    c.check(len(got) == len(want), label + ": every window once")
    for a, b in zip(got, want):
        c.check(a is b, label + ": in the order added")


def observe(c, ws, model, i):
    """One use of the collection."""
    how = c.choice("use%d" % i, 5)
    if how == 0:
        same(c, [w for w in ws], model, "iteration")
    elif how == 1:
        k = c.choice("stop%d" % i, 3)
        seen = []
        for w in ws:
            if len(seen) == k:
                break
            seen.append(w)
        same(c, seen, model[:k], "abandoned iteration")
    elif how == 2:
        pairs = [(a, b) for a in ws for b in ws]
        c.check(len(pairs) == len(model) ** 2, "nested iteration: every pair")
        for p, q in zip(pairs, [(a, b) for a in model for b in model]):
            c.check(p[0] is q[0] and p[1] is q[1], "nested iteration: order")
    elif how == 3:
        a, b = iter(ws), iter(ws)
        out = []
        for _ in model:
            out.append(next(a))
            out.append(next(b))
        same(c, out, [x for w in model for x in (w, w)], "parallel iterations")
    else:
        for k in range(len(model)):
            c.check(ws[k] is model[k] and ws[k - len(model)] is model[k], "index")
        for part in (slice(2), slice(None, None, -1), slice(None, None, 2), slice(-2, None), slice(1, -1)):
            same(c, ws[part], model[part], "slice")
        c.check(c.raises(IndexError, lambda: ws[len(model)]), "index past the end")
    c.check(len(ws) == len(model), "length")


def history(c, steps=4):
    wh, u, Q = load(c)
    ws, model, kind = wh.WindowCollection(), [], None
    for i in range(steps):
        op = c.choice("op%d" % i, 4)
        if op == 2:
            junk = c.pick("junk%d" % i, [None, 1.0, [], "window"])
            c.check(c.raises(TypeError, ws.add_window, junk), "refuses what is not a window")
        elif op == 3:
            observe(c, ws, model, i)
        else:
            w = window(c, wh, u, Q, op, i)
            if kind in (None, op):
                ws.add_window(w)
                model.append(w)
                kind = op
            else:
                c.check(c.raises(TypeError, ws.add_window, w), "refuses the other type of window")
    c.check(len(ws) == len(model), "length")
    same(c, [w for w in ws], model, "iteration at the end")


def uses(c, n=3, k=3):
    """Successive uses of one collection."""
    wh, u, Q = load(c)
    ws = wh.WindowCollection()
    kind = c.choice("kind", 2)
    model = [window(c, wh, u, Q, kind, i) for i in range(c.choice("n", n + 1))]
    for w in model:
        ws.add_window(w)
    for i in range(k):
        observe(c, ws, model, i)


def data(c):
    """A window returns what it was built from."""
    wh, u, Q = load(c)
    rise, set_ = c.real("rise", 0, 10), c.real("set", 0, 10)
    v = wh.VisibleTimeWindow(rise, set_, None)
    c.exact(v.rise_time.to(u.jd2000), rise, "rise time")
    c.exact(v.set_time.to(u.jd2000), set_, "set time")
    where, att = object(), object()
    s, d = Q(c.real("start", 0, 10), u.jd2000), Q(c.real("dur", 1, 60), u.s)
    o = wh.ObservationWindow(s, d, where, att)
    c.exact(o.start_time.to(u.jd2000), s.to(u.jd2000), "start time")
    c.exact(o.duration.to(u.s), d.to(u.s), "duration")
    c.check(o.location is where and o.attitude is att, "location and attitude")


def printed(c):
    """Printed forms name the times of the window, each in its place."""
    wh, u, Q = load(c)
    a, b = c.int("rise", 10, 99), c.int("set", 100, 199)
    v = wh.VisibleTimeWindow(a, b, "att")
    o = wh.ObservationWindow(Q(a, u.jd2000), Q(b, u.s), "here", "att")
    ws = wh.WindowCollection()
    ws.add_window(v)
    ws.add_window(wh.VisibleTimeWindow(3, 4, "tta"))
    jd, s = str(u.jd2000), str(u.s)

    def run():
        return [c.text(x, f) for x, f in ((Q(a, u.km), str), (Q(b, u.km / u.s), repr), (v, str), (v, repr), (o, str),
                                          (o, repr), (ws, str), (ws, repr))]

    def pieces(text, form, label):
        """`form` with its two numbers, in order."""
        at = 0
        for part in form:
            if isinstance(part, str):
                c.check(text[at:at + len(part)] == part, label + ": text")
                at += len(part)
            else:
                n = at + (2 if part is a else 3)
                c.approx(c.number(text[at:n]), part, 0.5, label + ": number")
                at = n
        c.check(at == len(text), label + ": nothing else")

    t = c.symstr(run)
    km = str(u.km)
    pieces(t[0], (a, " " + km), "quantity")
    pieces(t[1], ("Quantity(", b, ", " + repr(u.km / u.s) + ")"), "quantity, repr")
    pieces(t[2], ("Rise time: ", a, " " + jd + ", Set time: ", b, " " + jd + ", Attitude: att"), "visible window")
    pieces(t[3], ("VisibleTimeWindow(", a, ", ", b, ", att)"), "visible window, repr")
    pieces(t[4], ("Start time: ", a, " " + jd + ", Duration: ", b, " " + s + ", Location: here, Attitude: att"), "observation")
    pieces(t[5], ("ObservationWindow(", a, " " + jd + ", ", b, " " + s + ", here, att)"), "observation, repr")
    pieces(t[6], ("[VisibleTimeWindow(", a, ", ", b, ", att), VisibleTimeWindow(3, 4, tta)]"), "collection")
    pieces(t[7], ("WindowCollection(VisibleTimeWindow(", a, ", ", b, ", att), VisibleTimeWindow(3, 4, tta))"), "collection, repr")


HARNESSES = [
    Harness("printed", printed, "printed forms of a quantity, windows and a collection, whole times, 10 to 99 and 100 to 199"),
    Harness("history", lambda c: history(c, 3), "histories of 3 steps: additions of either type, of junk, uses"),
    Harness("history4", history, "histories of 4 steps", thorough=True),
    Harness("uses", lambda c: uses(c, 3, 2), "up to 3 windows, 2 successive uses"),
    Harness("uses3", uses, "up to 3 windows, 3 successive uses"),
    Harness("data", data, "any window"),
]
