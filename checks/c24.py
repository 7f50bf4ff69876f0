"""C24: the adaptive search never loses its best solution."""
from symcel.harness import Harness
from symcel.loader import RandomStub

ASSUMPTIONS = [
    "costs are not positive, as those of the scheduler are",
    "operators work in place, as those of the scheduler do; what they make of a solution is arbitrary",
    "every random draw is arbitrary within its range; exp is an increasing function with exp(x) >= 1 + x"]
M = "celest.schedule.alns"
EPS = 1e-9


class Plan:
    """A solution: its cost, whether it is complete and when it was made, kept
    in a list of lists as that of the scheduler is."""

    def __init__(self, cost, complete, born):
        self.rows = [[cost, complete, born, False]]

    cost, complete, born, broken = (
        property(lambda self, k=k: self.rows[0][k], lambda self, v, k=k: self.rows[0].__setitem__(k, v))
        for k in range(4))


class Search:
    """An ALNS whose operators are arbitrary, and what they were asked."""

    def __init__(self, c, nd=2, nr=1, completes=True):
        self.c, self.completes = c, completes
        self.calls, self.made = [], []
        self.start = Plan(c.real("cost", -10, 0), completes and c.bool("complete"), 0)
        self.first = (self.start.cost, self.start.complete)
        a = self.alns = c.mod(M).ALNS(self.start)
        a.add_cost_function(lambda p: p.cost)
        a.add_completeness_function(lambda p: p.complete)
        a.add_destroy_functions([self.destroyer(i) for i in range(nd)])
        a.add_repair_functions([self.repairer(i) for i in range(nr)])

    def destroyer(self, i):
        def destroy(p, n):
            self.calls.append(("destroy", i, n, p.born))
            # an unfinished plan, better than it will turn out
            p.broken, p.cost, p.complete = True, -1000, False
        return destroy

    def repairer(self, i):
        def repair(p, n):
            c, k = self.c, len(self.made) + 1
            self.calls.append(("repair", i, n, p.born))
            c.check(p.broken, "repair follows destruction")
            p.broken, p.born = False, k
            p.cost = c.real("cost%d" % k, -10, 0)
            p.complete = self.completes and c.bool("complete%d" % k)
            self.made.append((p.cost, p.complete))
        return repair


def search(c, iters=2, nd=1, nr=1, completes=True):
    s = Search(c, nd, nr, completes)
    p, l = c.real("annealing", 0, 1), c.real("decay", 0, 1)
    n, m = 3, 4
    got = s.alns.solve(iters, p, l, n, m)
    # nothing is evaluated beyond the bound, destruction and repair alternate
    c.check(len(s.calls) <= 2 * iters, "iterations within the bound")
    c.check(len(s.calls) % 2 == 0, "every destruction is repaired")
    for a, b in zip(s.calls[::2], s.calls[1::2]):
        c.check(a[0] == "destroy" and a[2] == n, "number to remove")
        c.check(b[0] == "repair" and b[2] == m, "number to add")
        c.check(a[3] == b[3], "the destroyed solution is repaired")
    if not completes:
        c.check(len(s.calls) == 2 * iters, "as many rounds as asked for")
    elif len(s.calls) < 2 * iters:
        c.check(s.first[1] or any(done for _, done in s.made), "no fewer rounds unless complete")
    # the initial solution is as it was
    c.check(s.start.born == 0 and not s.start.broken and bool(s.start.complete) == bool(s.first[1]),
            "initial solution not modified")
    c.exact(s.start.cost, s.first[0], "initial solution not modified")
    # the best of all
    every = [s.first] + s.made
    c.check(not got.broken, "the result is a repaired solution")
    c.check(0 <= got.born < len(every), "the result was evaluated")
    c.exact(got.cost, every[got.born][0], "the result is as it was evaluated")
    c.check(bool(got.complete) == bool(every[got.born][1]), "the result is as it was evaluated")
    for cost, _ in every:
        c.check(got.cost <= cost, "no solution evaluated is better than the result")
    # each round starts from the solution accepted last
    current = 0
    scores = []
    best = every[0][0]
    for k in range(1, len(every)):
        made = s.calls[2 * k - 1][3]
        c.check(made == current, "each round starts from the current solution")
        old, new = every[current][0], every[k][0]
        nxt = s.calls[2 * k + 1][3] if 2 * k + 1 < len(s.calls) else None
        if nxt is not None:
            c.check(nxt in (current, k), "the next round starts from the current or the new solution")
            if new <= old:
                c.check(nxt == k, "every improvement is accepted")
            scores.append(3 if new < best else (2 if new < old else 1) if nxt == k else 0)
            current = nxt
        best = new if new < best else best
    if not completes:
        # the last round may have accepted what is worse
        old, new = every[current][0], every[-1][0]
        if len(every) > 1:
            lead = every[0][0]
            for cost, _ in every[1:-1]:
                lead = cost if cost < lead else lead
            last = [3] if new < lead else [2] if new < old else [1] if new <= old else [1, 0]
        ok = False
        for z in last:
            fits = True
            for kind, got in (("destroy", s.alns.destroy_weights), ("repair", s.alns.repair_weights)):
                want = [1] * len(got)
                used = [call[1] for call in s.calls if call[0] == kind]
                for i, y in zip(used, scores + [z]):
                    want[i] = (1 - l) * want[i] + l * (y / 6)
                for g, w in zip(got, want):
                    fits = fits & (g <= w + EPS) & (g >= w - EPS)
            ok = ok | fits
        c.check(ok, "the weights follow the scores")
    for ws in getattr(c, "seen_weights", []):
        c.check(all(w >= 0 for w in ws), "weights not negative")
        c.check(sum(ws) > 0, "some weight positive")
    c.check(all(w >= 0 for w in list(s.alns.destroy_weights) + list(s.alns.repair_weights)), "weights not negative")


def rounds(c):
    search(c, 2)


def scores(c):
    search(c, 2, completes=False)


def rounds_three(c):
    search(c, 3, completes=False)


def rounds_four(c):
    search(c, 4, completes=False)


def operators(c):
    search(c, 2, 2, 2, completes=False)


def no_rounds(c):
    s = Search(c)
    got = s.alns.solve(0, c.real("annealing", 0, 1), c.real("decay", 0, 1), 1, 1)
    c.check(not s.calls, "no round")
    c.exact(got.cost, s.first[0], "the initial solution is returned")


def fixed(c, value):
    class Env:
        def unit(self, name):
            return value

        def choice(self, name, n):
            return c.choice(name, n)

        def weights(self, w):
            pass
    return c.patch(M, "random", RandomStub(Env()))


def accept(c, a, t, old, new):
    a.add_cost_function(lambda x: x)
    r = a._accept(new, old, t)
    return bool(r)


def better(c):
    """Improvements are always accepted."""
    a = c.mod(M).ALNS(None)
    old, new = c.real("old", -100, 0), c.real("new", -100, 0)
    t = c.real("temperature", 0, 100)
    r = accept(c, a, t, old, new)
    if new <= old:
        c.check(r, "improvement accepted")
    if (new > old) & (t == 0):
        c.check(not r, "nothing worse is accepted when cold")


def worse(c):
    """What is worse is accepted for some draws but not for all."""
    a = c.mod(M).ALNS(None)
    old, new = c.real("old", -100, -1), c.real("new", -100, 0)
    t = c.real("temperature", 0.01, 100)
    c.assume(new > old)
    if not fixed(c, 0):
        c.check(True, "random source not accessible")
        return
    r0 = accept(c, a, t, old, new)
    c.unpatch()
    fixed(c, 1)
    r1 = accept(c, a, t, old, new)
    # exp underflows to 0 only for hopeless solutions
    c.check(r0 != r1, "a worse solution is accepted for some draws only")


def colder(c):
    """At one draw: the worse the solution or the colder, the fewer accepted."""
    a = c.mod(M).ALNS(None)
    old = c.real("old", -100, -1)
    new, t = c.reals("new", 2, -100, 0), c.reals("temperature", 2, 0.01, 100)
    u = c.real("draw", 0, 1)
    c.assume(new[0] <= new[1])
    if c.bool("same_cost"):
        new[1] = new[0]
    else:
        t[1] = t[0]
    c.assume(t[0] >= t[1])
    if not fixed(c, u):
        c.check(True, "random source not accessible")
        return
    r0 = accept(c, a, t[0], old, new[0])
    r1 = accept(c, a, t[1], old, new[1])
    c.check(r0 or not r1, "worse or colder is not accepted more often")


def weights(c):
    """The weight of an operator moves from the old weight towards its score."""
    a = c.mod(M).ALNS(None)
    n = 3
    w = c.reals("weight", n, 0, 5)
    l, k, score = c.real("decay", 0, 1), c.choice("operator", n), c.pick("score", [0, 1, 2, 3])
    a.destroy_weights, a.repair_weights = list(w), list(w)
    a.destroy_functions = a.repair_functions = [None] * n
    a._update_destroy_weights(l, score, k)
    a._update_repair_weights(l, score, k)
    for got in (a.destroy_weights, a.repair_weights):
        for i in range(n):
            if i == k:
                c.check(got[i] >= 0, "weight not negative")
                c.exact(got[i], (1 - l) * w[i] + l * (score / 6), "weight decays towards the score")
            else:
                c.exact(got[i], w[i], "other weights kept")


def chances(c, n=3):
    """Operators are drawn in proportion to their weights."""
    a = c.mod(M).ALNS(None)
    w = c.reals("weight", n, 0, 5)
    p = a._get_probabilities(w)
    total = 0
    c.check(len(p) == n, "a probability for each")
    for x in p:
        c.check(x >= 0, "probability not negative")
        total = total + x
    c.approx(total, 1, 1e-9, "probabilities sum to one")
    for i in range(n):
        for j in range(i):
            c.check(c.implies(w[i] <= w[j], p[i] <= p[j] + EPS), "in the order of the weights")
            c.exact(p[i] * w[j], p[j] * w[i], "in proportion to the weights")


HARNESSES = [
    Harness("rounds", rounds, "2 rounds, every cost, completeness and draw"),
    Harness("scores", scores, "2 rounds, never complete, weights of the operators"),
    Harness("rounds_three", rounds_three, "3 rounds, never complete, every cost and draw"),
    Harness("rounds_four", rounds_four, "4 rounds, never complete, every cost and draw", thorough=True),
    Harness("operators", operators, "2 rounds, 2 destroy and 2 repair functions"),
    Harness("no_rounds", no_rounds, "no round"),
    Harness("better", better, "every cost and temperature"),
    Harness("worse", worse, "every cost up to -1 and temperature from 0.01"),
    Harness("colder", colder, "every cost, temperature and draw"),
    Harness("weights", weights, "3 operators, every weight, decay and score"),
    Harness("chances", chances, "3 operators, every weight"),
]
