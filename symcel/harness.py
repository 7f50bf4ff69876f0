"""symcel.harness: write a harness once, run it three ways.

* symbolically (`SymCtx`): every path within the bounds, every assertion
  decided by z3;
* concretely on the real, unmodified code (`ConcCtx`): replay of a
  counterexample, and witnesses that the assertions are reachable;
* concolically: the symbolic encoding evaluated at concrete inputs, compared
  with the real code's outputs (validates the encoding).
"""

import importlib
import itertools
import json
import math
import multiprocessing
import os
import random as real_random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
from fractions import Fraction

import numpy as real_np
import z3
from symcel import core, nps, strs, loader
from symcel.state import State
from symcel.core import (Sym, SymBool, SymError, PathAbort, Path, Stats, fml,
                         f_not, b_and, b_or, b_not)

REPO = loader.REPO


class Reject(BaseException):
    """Concrete input outside the harness's assumptions."""


class Violated(Exception):
    def __init__(self, label, info=""):
        super().__init__(label)
        self.label, self.info = label, info


# --------------------------------------------------------------------------

class BaseCtx:
    symbolic = False

    def real(self, name, lo=None, hi=None):
        raise NotImplementedError

    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def bool(self, name):
        return self.choice(name, 2) == 1

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def implies(self, a, b):
        return b_implies(a, b)

    def between(self, lo, x, hi, label, strict_hi=False):
        self.check(lo <= x, label + " >= %s" % lo)
        self.check(x < hi if strict_hi else x <= hi,
                   label + (" < %s" if strict_hi else " <= %s") % hi)

    def exact(self, a, b, label):
        self.approx(a, b, 1e-9, label)

    def vec(self, xs):
        return list(xs)

    def norm2(self, v):
        t = 0
        for x in v:
            t = t + x * x
        return t

    def dot(self, u, v):
        t = 0
        for x, y in zip(u, v):
            t = t + x * y
        return t

    def crossv(self, u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                u[0] * v[1] - u[1] * v[0]]

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs:
            return True
        return False

    # nondeterministic `random`
    def unit(self, name):
        self._n = getattr(self, "_n", 0) + 1
        return self.real("%s_u%d" % (name, self._n), 0, 1)

    def weights(self, w):
        self.seen_weights = getattr(self, "seen_weights", []) + [list(w)]

    havoc, havoced = False, ()

    def mod(self, name):
        raise NotImplementedError

    def patch(self, modname, attr, value):
        """Replace what `attr` of the module is, wherever celest refers to it."""
        m = self.mod(modname)
        if not hasattr(m, attr):
            return False
        was = getattr(m, attr)
        for o in self.modules():
            for a, v in list(vars(o).items()):
                if v is was and (a == attr or callable(v)):
                    self._patches.append((o, a, v))
                    setattr(o, a, value)
        return True

    def unpatch(self):
        for m, a, v in reversed(self._patches):
            setattr(m, a, v)
        self._patches = []


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, world, path, run):
        self.world, self.path, self.run = world, path, run
        self._patches = []
        self._cnt = {}
        self.vars = {}
        self.np = nps.NP
        self.outs = []
        self.havoc, self.havoced, self.loop_memo = False, [], {}

    def mod(self, name):
        return self.world.load(name)

    def modules(self):
        return list(self.world.mods.values())

    def real(self, name, lo=None, hi=None):
        v = core.var(name, lo, hi)
        self.vars[name] = v
        return v

    def int(self, name, lo, hi):
        v = core.var(name, lo, hi, True)
        self.vars[name] = v
        return v

    def choice(self, name, n):
        if name == "rnd":
            self._cnt[name] = self._cnt.get(name, 0) + 1
            name = "rnd_%d" % self._cnt[name]
        if n == 1:
            return 0
        v = core.var(name, 0, n - 1, True)
        self.vars[name] = v
        return self.path.concretize(v)

    def arr(self, xs):
        return nps.sarr(list(xs), "f")

    def iarr(self, xs):
        return nps.sarr(list(xs), "i")

    def assume(self, cond):
        f = fml(cond)
        if f is True:
            return
        if f is False:
            raise PathAbort()
        if self.path.forced is not None:
            return
        if self.path._relaxed(f) == z3.unsat:
            raise PathAbort()
        self.path.add(f)

    def lemma(self, cond):
        """Valid by mathematics (e.g. a sum of squares); not an assumption."""
        if self.path.forced is None:
            self.run.stats.lemmas += 1
            self.path.lemma(fml(cond))

    def cauchy(self, u, v):
        """|u.v| <= |u||v| in the form the encoding uses (sum of squares)."""
        e1, e2 = self.norm2(u), self.norm2(v)
        if not isinstance(e1, Sym) or not isinstance(e2, Sym):
            return
        w = self.norm2(self.crossv(u, v))
        if not isinstance(w, Sym):
            return
        self.lemma((w / e1 / e2) >= 0)
        self.lemma(w >= 0)
        t = self.dot(u, v) / (self.sqrt(e1) * self.sqrt(e2))
        self.lemma(t <= 1)
        self.lemma(t >= -1)

    def check(self, cond, label, **kw):
        if self.path.forced is not None:
            self.outs.append((label, "b", cond))
            return
        self.run.check(self, fml(cond), label)

    def approx(self, a, b, tol, label):
        if self.path.forced is not None:
            self.outs.append((label, "f", a))
            self.outs.append((label, "f", b))
            return
        a, b = nps.unwrap(a), nps.unwrap(b)
        for x in (a, b):
            if isinstance(x, float) and x != x:
                self.run.check(self, False, label + " (nan)")
                return
        d = a - b
        if isinstance(d, float) and (d != d or abs(d) == core.INF):
            self.run.check(self, False, label + " (non-finite)")
            return
        t = core.to_frac(tol)
        f = core.f_and(fml(d <= t), fml(d >= -t))
        if f is True and (isinstance(a, Sym) or isinstance(b, Sym)):
            # normal form and interval bounds settle it; the solver is given
            # both sides all the same and must agree
            pa, pb = core.to_poly(a), core.to_poly(b)
            for p in (pa, pb):
                for m in p.t:
                    self.path._ensure_mono(m)
            z = core.zpoly(pa, core.lin_mono) - core.zpoly(pb, core.lin_mono)
            zt = core.zfrac(t)
            if self.path.query(("z3", z3.Or(z > zt, z < -zt)), False)[0] == "unsat":
                self.run.stats.normalised -= 1
        self.run.check(self, f, label)

    def fail(self, label):
        self.check(False, label)

    def sin(self, x):
        return core.sin(x) if isinstance(x, Sym) else math.sin(x)

    def cos(self, x):
        return core.cos(x) if isinstance(x, Sym) else math.cos(x)

    def sind(self, x):
        return self.sin(x * nps._radc()) if isinstance(x, Sym) else math.sin(math.radians(x))

    def cosd(self, x):
        return self.cos(x * nps._radc()) if isinstance(x, Sym) else math.cos(math.radians(x))

    def sqrt(self, x):
        return core.sqrt(x) if isinstance(x, Sym) else math.sqrt(x)

    def floor(self, x):
        return core.floor(x) if isinstance(x, Sym) else math.floor(x)

    def isnum(self, x):
        return isinstance(x, (Sym, SymBool)) or core.is_num(x)

    def capture(self, fn, name="out.txt"):
        """Run fn(path) and return the text it wrote there."""
        strs.SYMSTR[0] = True
        try:
            fn(name)
        finally:
            strs.SYMSTR[0] = False
        return self.world.files[name].text()

    def symstr(self, fn):
        strs.SYMSTR[0] = True
        try:
            return fn()
        finally:
            strs.SYMSTR[0] = False

    def text(self, x, form=str):
        """str(x) or repr(x)"""
        return strs.text(x, "__str__" if form is str else "__repr__")

    def number(self, s):
        """The number a decimal string denotes."""
        if isinstance(s, strs.SymStr):
            return loader._parse(s)
        return float(s)


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, assign, rng=None):
        self.assign, self.rng = dict(assign), rng
        self._patches = []
        self._cnt = {}
        self.used = {}
        self.np = real_np
        self.reached = []
        self.outs = []

    def mod(self, name):
        return real_module(name)

    def modules(self):
        return [m for n, m in list(sys.modules.items())
                if m is not None and n.split(".")[0] == "celest"]

    def _rand(self, lo, hi):
        r = self.rng
        lo = -1000.0 if lo is None else float(lo)
        hi = lo + 2000.0 if hi is None else float(hi)
        k = r.random()
        if k < 0.06:
            return lo
        if k < 0.12:
            return hi
        if k < 0.2:
            v = float(round(r.uniform(lo, hi)))
            return min(max(v, lo), hi)
        if k < 0.25 and lo < 0 < hi:
            return 0.0
        if k < 0.35 and lo < 0 < hi:
            return min(max(r.uniform(-1, 1), lo), hi)
        return r.uniform(lo, hi)

    def real(self, name, lo=None, hi=None):
        if name in self.assign:
            v = float(self.assign[name])
        elif self.rng is not None:
            v = self._rand(lo, hi)
        else:
            lo2 = -1.0 if lo is None else float(lo)
            hi2 = lo2 + 2.0 if hi is None else float(hi)
            v = (lo2 + hi2) / 2
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        if name in self.assign:
            v = int(self.assign[name])
        elif self.rng is not None:
            v = self.rng.randint(lo, hi)
        else:
            v = (lo + hi) // 2
        v = min(max(v, lo), hi)
        self.used[name] = v
        return v

    def choice(self, name, n):
        if name == "rnd":
            self._cnt[name] = self._cnt.get(name, 0) + 1
            name = "rnd_%d" % self._cnt[name]
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    def arr(self, xs):
        return real_np.array(list(xs), dtype=float)

    def iarr(self, xs):
        a = real_np.array(list(xs), dtype=float)
        return real_np.rint(a).astype(int)

    def assume(self, cond):
        if not bool(cond):
            raise Reject()

    def lemma(self, cond):
        pass

    def cauchy(self, u, v):
        pass

    def check(self, cond, label, **kw):
        self.outs.append((label, "b", bool(cond)))
        if not bool(cond):
            raise Violated(label)
        self.reached.append(label)

    def approx(self, a, b, tol, label):
        a, b = float(a), float(b)
        self.outs.append((label, "f", a))
        self.outs.append((label, "f", b))
        if not abs(a - b) <= 0.6 * tol:
            raise Violated(label, "%r versus %r (tolerance %g)" % (a, b, tol))
        self.reached.append(label)

    def fail(self, label):
        raise Violated(label)

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    sqrt = staticmethod(lambda x: math.sqrt(x))
    floor = staticmethod(math.floor)

    def sind(self, x):
        return math.sin(math.radians(x))

    def cosd(self, x):
        return math.cos(math.radians(x))

    def isnum(self, x):
        return core.is_num(x)

    def capture(self, fn, name="out.txt"):
        d = tempfile.mkdtemp(prefix="symcel_")
        try:
            p = os.path.join(d, name)
            fn(p)
            with open(p, encoding="utf-8", newline="") as f:
                return f.read()
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def symstr(self, fn):
        return fn()

    def text(self, x, form=str):
        return form(x)

    def number(self, s):
        return float(s)


# ---- the real modules ------------------------------------------------------

class _EnvProxy:
    env = None

    def choice(self, name, n):
        return self.env.choice(name, n)

    def unit(self, name):
        return self.env.unit(name)

    def weights(self, w):
        return self.env.weights(w)


_proxy = _EnvProxy()
_real_ready = [False]
REAL_STUBS = {}        # "module:attr" -> value, patched before celest loads


_real_state = [None, ()]


def real_afresh():
    """The real modules as they are when imported."""
    mine = {n: m for n, m in sys.modules.items() if n.split(".")[0] == "celest" and m is not None}
    if not mine:
        return
    if _real_state[0] is not None and _real_state[1] == sorted(mine) and not _real_state[0].changed():
        return
    for n in mine:
        del sys.modules[n]
    importlib.invalidate_caches()
    _real_ready[0] = False
    for n in list(mine):
        real_module(n)
    mine = {n: m for n, m in sys.modules.items() if n.split(".")[0] == "celest" and m is not None}
    _real_state[:] = [State(list(mine.values())), sorted(mine)]


def real_module(name):
    if not _real_ready[0]:
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        stub = loader.RandomStub(_proxy)
        rng = real_random
        for n in ("random", "uniform", "choice", "choices", "randrange",
                  "randint", "sample", "shuffle"):
            setattr(rng, n, getattr(stub, n))
        import warnings
        warnings.filterwarnings("ignore")
        real_np.seterr(all="ignore")
        for k, v in REAL_STUBS.items():
            m, a = k.split(":")
            setattr(importlib.import_module(m), a, v)
        _real_ready[0] = True
    m = importlib.import_module(name)
    f = getattr(m, "__file__", "") or ""
    if not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
        raise SymError("real module %s was loaded from %s" % (name, f))
    return m


# --------------------------------------------------------------------------

class Harness:
    def __init__(self, name, fn, bounds="", funcs=(), stubs=None, opts=None,
                 thorough=False, tries=400, known=None):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.stubs = stubs
        self.opts = opts or {}
        self.thorough = thorough
        self.tries = tries
        self.known = known


class Found(Exception):
    def __init__(self, rec):
        super().__init__(rec["label"])
        self.rec = rec


class Hang(BaseException):
    """The code under test does not come back."""


HANG_S = 25          # processor time allowed to one run of the real code


class limit_cpu:
    """Raise Hang in the block after so many seconds of processor time, not
    counting what `free()` returns (the time spent in the solver)."""

    def __init__(self, seconds, free=lambda: 0.0):
        self.seconds, self.free = seconds, free

    def __enter__(self):
        self.t0, self.f0 = time.process_time(), self.free()
        signal.signal(signal.SIGPROF, self.fire)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def fire(self, *_):
        left = self.seconds - (time.process_time() - self.t0) + (self.free() - self.f0)
        if left > 0.1:
            signal.setitimer(signal.ITIMER_PROF, left)
        else:
            raise Hang()

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_PROF, 0)


class HarnessRun:
    def __init__(self, prop, h, seed, tier, deadline):
        self.prop, self.h, self.seed, self.tier = prop, h, seed, tier
        self.stats = Stats()
        self.deadline = deadline
        self.labels = {}
        self.inconclusive = []
        self.samples = []
        self.reached = {}
        self.validated = 0
        self.mismatch = []
        self.witnesses = []
        self.path = None
        self.maxterms = 0
        # random.Random is independent of the patched module-level functions
        self.rng = real_random.Random(seed * 7919 + len(h.name))
        self.opts = dict(feas_ms=2000, nra_ms=15000 if tier == "quick" else 60000)
        self.opts.update(h.opts)
        self.opts["deadline"] = deadline
        self.no_repro = {}
        self.retries = 4

    # -- assertion
    def check(self, ctx, f, label):
        self.stats.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if f is True:
            self.stats.normalised += 1
            return
        verdict, model = ctx.path.query(f_not(f))
        if verdict == "unsat":
            if f is not False:
                ctx.path.add(f)
            return
        # `False` here means: violated on every input of this path
        self.candidate(ctx, label, verdict, model, f)
        if verdict == "unknown" and f is not False and self.again(ctx, label, f):
            return
        raise PathAbort()

    def again(self, ctx, label, f):
        """An assertion the solver gave up on, with more time (a loaded or
        slower machine must not change the verdict)."""
        left = self.deadline - time.time()
        if self.retries <= 0 or left < 30:
            return False
        self.retries -= 1
        verdict, model = ctx.path.full_query(f_not(f), 1000 * min(60, left / 2), seed=self.retries)
        if verdict == "unsat":
            self.inconclusive.pop()
            ctx.path.add(f)
            return True
        if model is not None:
            self.inconclusive.pop()
            self.candidate(ctx, label, verdict, model, f)
        return False

    def candidate(self, ctx, label, verdict, model, f, exc=None):
        assigns = []
        if model is not None:
            assigns = self.assignments(ctx, model)
        for a in assigns:
            r = self.replay(a)
            if r is not None:
                raise Found(dict(label=label, replay_label=r[0], info=r[1],
                                 assignment=a, verdict=verdict))
        # models with slack, then models of the path alone
        if not exc and not isinstance(f, bool):
            for a in self.more_models(ctx, f):
                r = self.replay(a)
                if r is not None:
                    raise Found(dict(label=label, replay_label=r[0], info=r[1],
                                     assignment=a, verdict=verdict))
        if verdict == "unknown" and not assigns:
            # the solver gave no model: inputs that take this path
            for a in self.more_models(ctx, None):
                r = self.replay(a)
                if r is not None:
                    raise Found(dict(label=label, replay_label=r[0], info=r[1],
                                     assignment=a, verdict=verdict))
        if self.no_repro.get(label, 0) < 2:
            self.no_repro[label] = self.no_repro.get(label, 0) + 1
            r = self.pool(assigns[:1], self.h.tries, 12.0)
            if r is not None:
                raise Found(dict(label=label, replay_label=r[0], info=r[1],
                                 assignment=r[2], verdict=verdict))
        self.inconclusive.append(dict(
            label=label, verdict=verdict, exc=exc,
            model={k: str(v) for k, v in (assigns[0] if assigns else {}).items()},
            path=len(ctx.path.trace)))
        if len(self.inconclusive) > 12:
            raise core.Budget("too many undecided assertions")

    def assignments(self, ctx, model):
        base = {}
        for n, v in ctx.vars.items():
            (m,) = v.p.t
            a = core.ATOMS[m[0][0]]
            base[n] = core.zvalue(model, a)
        out = [base]
        # angles: solve sin/cos atoms of an input for that input
        fixed = dict(base)
        done = set()
        seen = ctx.path.cone(ctx.path.pc) | {a.id for a in core.ATOMS if a.kind == "cos"}
        for i in sorted(seen):
            a = core.ATOMS[i]
            if a.kind != "cos":
                continue
            arg = a.args[0]
            vs = [x for x in arg.atoms() if core.ATOMS[x].kind == "var"]
            if len(vs) != 1 or len(arg.atoms()) != 1 or any(len(m) > 1 or (m and m[0][1] > 1) for m in arg.t):
                continue
            vn = core.ATOMS[vs[0]]
            if vn.id in done or vn.name not in fixed:
                continue
            c = float(core.zvalue(model, a))
            s = float(core.zvalue(model, core.ATOMS[a.extra]))
            ang = Fraction(math.degrees(math.atan2(s, c)))
            k = arg.t[((vn.id, 1),)]
            x = (ang - arg.t.get((), 0)) / k
            per = abs(360 / k)
            if vn.lo is not None:
                x = x + per * math.ceil((vn.lo - x) / per)
            elif vn.hi is not None:
                x = x - per * math.ceil((x - vn.hi) / per)
            done.add(vn.id)
            fixed[vn.name] = x
        if done:
            out.append(fixed)
        for den in (1, 64, 4096):
            out.append({n: Fraction(round(v * den), den) for n, v in base.items()})
        if done:
            out.append({n: Fraction(round(v * 64), 64) for n, v in fixed.items()})
        return out

    def more_models(self, ctx, f):
        """Further models of the violation: away from boundaries, and with
        some inputs pinned to varied values."""
        p = ctx.path
        neg = True if f is None else f_not(f)
        names = [n for n, v in ctx.vars.items() if not v.isint]
        for k in range(6):
            if time.time() > self.deadline:
                return
            extra = []
            for n in names:
                if k == 0 or self.rng.random() < 0.5:
                    v = ctx.vars[n]
                    (m,) = v.p.t
                    a = core.ATOMS[m[0][0]]
                    lo = a.lo if a.lo is not None else Fraction(-100)
                    hi = a.hi if a.hi is not None else lo + 200
                    if k == 0:
                        # interior
                        extra.append(fml(v >= lo + (hi - lo) / 64))
                        extra.append(fml(v <= hi - (hi - lo) / 64))
                    else:
                        t = lo + (hi - lo) * Fraction(self.rng.randint(1, 31), 32)
                        extra.append(fml(v == t))
            g = core.f_and(neg, *extra)
            if g is False or g is True:
                continue
            s0 = p.opts.get("nra_ms")
            p.opts["nra_ms"] = 2000
            try:
                verdict, model = p.query(g)
            finally:
                p.opts["nra_ms"] = s0
            if verdict == "sat" and model is not None:
                for a in self.assignments(ctx, model)[:2]:
                    yield a

    def replay(self, assign, rng=None):
        """Run the harness on the real code.  -> None or (label, info, used)"""
        real_afresh()
        ctx = ConcCtx(assign, rng)
        _proxy.env = ctx
        try:
            with limit_cpu(HANG_S):
                self.h.fn(ctx)
        except Hang:
            return ("does not return", "after %d s of processor time" % HANG_S, ctx.used)
        except Violated as v:
            return (v.label, v.info, ctx.used)
        except Reject:
            return None
        except SymError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/celest/" in f.filename]
            w = where[-1] if where else tb[-1]
            return ("exception %s" % type(e).__name__,
                    "%s at %s:%d" % (e, w.filename, w.lineno), ctx.used)
        finally:
            ctx.unpatch()
            _proxy.env = None
        for l in ctx.reached:
            self.reached[l] = self.reached.get(l, 0) + 1
        return None

    def pool(self, assigns, n, seconds):
        t0 = time.time()
        for i in range(n):
            if time.time() - t0 > seconds:
                break
            base = {}
            if assigns and i % 2:
                a = assigns[0]
                base = {k: v for k, v in a.items() if self.rng.random() < 0.6}
            r = self.replay(base, self.rng)
            if r is not None:
                return r
        return None

    # -- exploration
    def explore(self):
        h = self.h
        work = [[]]
        world = self.world = loader.World(None, dict(h.stubs(True)) if h.stubs else None)
        state = None
        maxpaths = self.opts.get("max_paths", 20000 if self.tier == "quick" else 400000)
        while work:
            prefix = work.pop()
            if time.time() > self.deadline:
                raise core.Budget("time budget exhausted after %d paths" % self.stats.paths)
            if self.stats.paths >= maxpaths:
                raise core.Budget("path budget exhausted")
            if state is None and self.stats.paths or state is not None and (
                    len(world.mods) != size or state.changed()):
                # each path finds the modules as they are when loaded
                world, state, size = self.fresh(world)
            path = Path(prefix, self.stats, self.opts)
            core.PATH[0] = path
            ctx = SymCtx(world, path, self)
            world.env = ctx
            world.random._env = ctx
            world.files.clear()
            self.stats.paths += 1
            core._depth[0] = 0
            try:
                with limit_cpu(self.opts.get("path_cpu_s", 60 if self.tier == "quick" else 600), lambda: self.stats.solver_s):
                    h.fn(ctx)
                self.keep_witness(ctx)
                if len(self.samples) < 3:
                    self.samples.append(dict(
                        harness=h.name, decisions=len(path.trace),
                        path_condition=[repr(f)[:160] for f in path.pc[:6]]))
            except PathAbort:
                pass
            except Found:
                raise
            except Hang:
                self.fallback(ctx, "does not return")
                raise SymError("a path does not come to an end")
            except SymError as e:
                self.fallback(ctx, "not encoded: %s" % e)
                raise
            except RecursionError as e:
                self.fallback(ctx, "recursion limit")
                raise SymError("recursion limit: %s" % e)
            except Exception as e:
                self.on_exception(ctx, e)
            finally:
                ctx.unpatch()
            work.extend(path.alternatives)

    def fresh(self, old):
        h = self.h
        world = loader.World(old.env, dict(h.stubs(True)) if h.stubs else None)
        world.entered = old.entered
        for name in old.mods:
            world.load(name)
        self.world = world
        return world, State([m for n, m in world.mods.items() if n not in world.stubs]), len(world.mods)

    def fallback(self, ctx, label):
        """The path cannot be followed to its end: it is undecided, unless the
        solver's models of what was followed break the property when run."""
        seen = 0
        t0 = time.time()
        try:
            verdict, model = ctx.path.query(True)
            if verdict == "unsat":
                return
            cands = self.assignments(ctx, model) if model is not None else []
            for a in itertools.chain(cands, self.more_models(ctx, False)):
                seen += 1
                r = self.replay(a)
                if r is not None:
                    raise Found(dict(label=label, replay_label=r[0], info=r[1],
                                     assignment=a, verdict="path"))
                if seen > 20 or time.time() - t0 > 60:
                    break
        except SymError:
            pass
        r = self.pool([], self.h.tries, 12.0)
        if r is not None:
            raise Found(dict(label=label, replay_label=r[0], info=r[1],
                             assignment=r[2], verdict="path"))

    def keep_witness(self, ctx):
        """Remember some finished paths, to take concrete inputs from."""
        n = self.finished = getattr(self, "finished", 0) + 1
        if n & (n - 1) == 0 or n % 97 == 0:
            self.witnesses.append(ctx)
            del self.witnesses[:-12]

    def solved_inputs(self):
        """Concrete inputs that follow a path the solver found feasible."""
        for ctx in list(self.witnesses):
            try:
                core.PATH[0] = ctx.path
                verdict, model = ctx.path.query(True)
                if verdict != "sat" or model is None:
                    continue
                yield from self.assignments(ctx, model)[:2]
                yield from self.more_models(ctx, False)
            except SymError:
                continue

    def on_exception(self, ctx, e):
        tb = traceback.extract_tb(e.__traceback__)
        w = tb[-1]
        cel = [f for f in tb if f.filename.startswith(REPO)]
        label = "exception %s: %s (%s:%d)" % (
            type(e).__name__, str(e)[:120],
            cel[-1].filename if cel else w.filename,
            cel[-1].lineno if cel else w.lineno)
        self.stats.checks += 1
        try:
            verdict, model = ctx.path.query(True)
        except SymError:
            verdict, model = "unknown", None
        if verdict == "unsat":
            return
        self.last_tb = "".join(traceback.format_exception(e))[-3000:]
        self.candidate(ctx, label, verdict, model, False, exc=self.last_tb)

    # -- validation of the encoding
    def validate(self, n):
        self.validate_on(({} for _ in range(n * 6)), n)
        if not self.validated and not self.mismatch:
            # random inputs miss the harness's assumptions: ask the solver
            self.validate_on(self.solved_inputs(), n)

    def validate_on(self, inputs, n):
        done = 0
        t0 = time.time()
        for assign in inputs:
            if done >= n or time.time() - t0 > 15:
                break
            real_afresh()
            ctx = ConcCtx(assign, self.rng)
            _proxy.env = ctx
            bad = None
            try:
                with limit_cpu(HANG_S):
                    self.h.fn(ctx)
            except Hang:
                bad = ("does not return", "", ctx.used)
            except Violated as v:
                bad = (v.label, v.info, ctx.used)
            except Reject:
                continue
            except SymError:
                raise
            except Exception as e:
                bad = ("exception %s" % type(e).__name__, str(e), ctx.used)
            finally:
                ctx.unpatch()
            for l in ctx.reached:
                self.reached[l] = self.reached.get(l, 0) + 1
            if bad is not None:
                # the real code violates the harness at this input
                raise Found(dict(label=bad[0], replay_label=bad[0], info=bad[1],
                                 assignment=bad[2], verdict="witness"))
            env = {k: v for k, v in ctx.used.items()}
            path = Path([], Stats(), dict(self.opts))
            cache = {}
            path.forced = lambda f: core.eval_formula(f, env, cache)
            path.fenv = (env, cache)
            core.PATH[0] = path
            self.fresh(self.world)
            sctx = SymCtx(self.world, path, self)
            self.world.env = sctx
            self.world.random._env = sctx
            self.world.files.clear()
            _proxy.env = None
            try:
                self.h.fn(sctx)
            except PathAbort:
                continue
            except SymError:
                raise
            except Exception as e:
                self.mismatch.append("encoding raised %s: %s" % (type(e).__name__, e))
                continue
            finally:
                sctx.unpatch()
            if len(sctx.outs) != len(ctx.outs):
                self.mismatch.append("different assertions reached")
                continue
            ok = True
            for (l1, k1, v1), (l2, k2, v2) in zip(sctx.outs, ctx.outs):
                if k1 != k2:
                    ok = False
                elif k1 == "b":
                    f = fml(v1)
                    x = f if isinstance(f, bool) else core.eval_formula(f, env, cache)
                    # equality of reals evaluated in floats is not compared
                    if not x and v2 and not _mentions_eq(f):
                        ok = False
                else:
                    x = core.eval_poly(v1.p, env, cache) if isinstance(v1, Sym) else float(v1)
                    if not abs(x - v2) <= 1e-5 * (1 + abs(v2)):
                        ok = False
                if not ok:
                    self.mismatch.append("%s: encoding %r, code %r at %r" % (
                        l1, v1 if not isinstance(v1, Sym) else x, v2, env))
                    break
            if ok:
                done += 1
        self.validated += done

    def result(self):
        s = self.stats
        return dict(
            harness=self.h.name, bounds=self.h.bounds, paths=s.paths,
            decisions=s.decisions, forks=s.forks, checks=s.checks,
            normalised=s.normalised, queries=s.queries,
            feasibility_queries=s.feas_queries, lemmas=s.lemmas,
            solver_s=round(s.solver_s, 3), labels=self.labels,
            reached=self.reached, samples=self.samples,
            validated=self.validated, mismatch=self.mismatch[:5],
            inconclusive=self.inconclusive,
            functions=sorted(self.world.entered) if hasattr(self, "world") else [])


def _mentions_eq(f):
    if isinstance(f, bool):
        return False
    if f[0] in ("and", "or"):
        return any(_mentions_eq(g) for g in f[1])
    if f[0] == "not":
        return _mentions_eq(f[1])
    return f[0] in ("eq", "le", "lt")


def b_implies(a, b):
    if isinstance(a, (SymBool, Sym)) or isinstance(b, (SymBool, Sym)):
        return b_or(b_not(a), b)
    return (not a) or b


def run_harness(prop, h, seed, tier, budget, nvalid):
    """Explore one harness; -> result dict with 'status'."""
    t0 = time.time()
    core.reset()
    sys.setrecursionlimit(20000)
    run = HarnessRun(prop, h, seed, tier, t0 + budget)
    res = {}
    status, found = "ok", None
    err = None
    try:
        if h.stubs:
            for k, v in h.stubs(False).items():
                if ":" in k:
                    REAL_STUBS[k] = v
        run.explore()
        if run.inconclusive:
            status = "inconclusive"
        else:
            run.validate(nvalid)
    except Found as f:
        status, found = "violation", f.rec
    except SymError as e:
        status, err = "error", "%s: %s" % (type(e).__name__, e)
        err += "\n" + "".join(traceback.format_exception(e))[-2500:]
    except Exception as e:
        status, err = "error", "".join(traceback.format_exception(e))[-4000:]
    res = run.result()
    if status == "ok":
        if not run.labels:
            status, err = "error", "vacuous: no assertion was reached"
        elif run.mismatch:
            status, err = "error", "encoding mismatch: %s" % run.mismatch[0]
        elif not run.validated:
            status, err = "error", "no concrete witness reaches the assertions"
    res.update(status=status, found=found, error=err, wall_s=round(time.time() - t0, 2))
    return res


def _child(conn, prop, h, seed, tier, budget, nvalid):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = run_harness(prop, h, seed, tier, budget, nvalid)
    except BaseException as e:
        r = dict(harness=h.name, status="error", error="".join(
            traceback.format_exception(e))[-3000:])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(harness=h.name, status="error", error="unpicklable: %s" % e))
    conn.close()


def run_all(prop, harnesses, seed, tier, budget, nvalid, jobs=8, verbose=False):
    """Run harnesses in parallel processes, each with a wall-time budget."""
    ctx = multiprocessing.get_context("fork")
    pending = list(harnesses)
    active = []
    results = []
    broken = []
    while pending or active:
        while pending and len(active) < jobs:
            h = pending.pop(0)
            a, b = ctx.Pipe(False)
            hb = h.opts.get("budget_s", budget)
            p = ctx.Process(target=_child, args=(b, prop, h, seed, tier, hb, nvalid))
            p.start()
            b.close()
            active.append((h, p, a, time.time() + hb + 45))
        still = []
        if broken and time.time() > broken[0]:
            # one violation is enough: do not wait for the rest
            for h, p, conn, dl in active:
                p.kill()
                p.join()
            for h in [x[0] for x in active] + pending:
                results.append(dict(harness=h.name, status="stopped",
                                    error="not finished when a violation had been found"))
            break
        for h, p, conn, dl in active:
            if conn.poll(0.02):
                try:
                    r = conn.recv()
                except EOFError:
                    r = dict(harness=h.name, status="error", error="worker died")
                p.join()
            elif not p.is_alive():
                r = dict(harness=h.name, status="error", error="worker died (exit %s)" % p.exitcode)
            elif time.time() > dl:
                p.kill()
                p.join()
                r = dict(harness=h.name, status="error", error="wall-time limit")
            else:
                still.append((h, p, conn, dl))
                continue
            results.append(r)
            if r["status"] == "violation" and not h.known and not broken:
                broken.append(time.time() + 30)
            if verbose:
                print("  [%s] %s paths=%s checks=%s queries=%s %.1fs" % (
                    r["status"], r["harness"], r.get("paths"), r.get("checks"),
                    r.get("queries"), r.get("wall_s", 0)), flush=True)
        active = still
    order = {h.name: i for i, h in enumerate(harnesses)}
    results.sort(key=lambda r: order[r["harness"]])
    return results
