"""C20: Timer accounting."""
import random
import time
import warnings

from ..core import Violation, check

ID = "C20"
LEVEL = "exploration"
RULE = (
    "A case is a random program of 10-60 operations on one Timer (start, stop, nested clock "
    "blocks of which some are left by exceptions or break, misuse, disable, enable, reset, "
    "reading times and hits) run next to a reference model; accumulated times are bounded by "
    "clock readings taken just inside and just outside of every measured section. "
    "Non-trivial: at least two names were timed and one operation was refused or raised.")
COUNTS = {"quick": 4000, "thorough": 80000}
REQUIRED = {"sections": 20000, "left_by_exception": 3000, "refused": 3000, "disabled": 3000,
            "warnings": 2000, "reads": 20000, "null_timer": 2000,
            "enabled_again": 1000}
ASSUMPTIONS = ["one thread per timer"]
EPS = 2e-6


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31), ops=rng.choice([rng.randint(10, 60)] * 30 + [1500]))


def directed(tier):
    return ([dict(seed=s, ops=40) for s in range(8)]
            + [dict(seed=8, ops=20, often=n) for n in (300, 5000, 70000)])


class Model:
    def __init__(self):
        self.low, self.high, self.hits = {}, {}, {}
        self.running = {}  # name -> (outside reading, inside reading) at start
        self.enabled = True

    def started(self, name, a, b):
        if self.enabled:
            self.running[name] = (a, b)

    def stopped(self, name, a, b):
        if self.enabled:
            out, ins = self.running.pop(name)
            self.low[name] = self.low.get(name, 0.0) + max(0.0, a - ins)
            self.high[name] = self.high.get(name, 0.0) + (b - out)
            self.hits[name] = self.hits.get(name, 0) + 1


def spin(rng):
    end = time.perf_counter() + rng.choice([0, 0, 1e-5, 5e-5])
    while time.perf_counter() < end:
        pass


def refused(mon, f, errors, what):
    try:
        f()
    except errors:
        mon.count("refused")
        return
    raise Violation(f"{what} was accepted", "accepts-invalid")


def read(timer, model, mon, rng):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        times = timer.times
        hits = timer.hits
    mon.count("reads", 2)
    warned = [x for x in w if issubclass(x.category, RuntimeWarning)]
    if model.running:
        check(len(warned) == 2, f"{len(warned)} warnings for two reads while clocks are going",
              "no-warning")
        mon.count("warnings")
    else:
        check(not warned, "a warning although no clock is going", "false-warning")
    check(dict(hits) == model.hits, f"hits {dict(hits)}, expected {model.hits}", "hits")
    check(set(times) == set(model.low), f"times of {sorted(times)}, expected "
          f"{sorted(model.low)}", "names")
    for n, t in times.items():
        check(model.low[n] - EPS <= t <= model.high[n] + EPS,
              f"{n} took between {model.low[n]:.9f} and {model.high[n]:.9f} s, timer says "
              f"{t:.9f}", "time")
    check(timer.enabled == model.enabled, "enabled", "enabled")
    for d in (times, hits):
        if rng.random() < 0.3:
            d["intruder"] = 3
            d.pop(next(iter(d)))
    return times


def section(timer, model, mon, rng, names, depth):
    """a clock block, maybe nested, maybe left early"""
    free = [n for n in names if n not in model.running]
    if not free:
        return
    name = rng.choice(free)
    how = rng.choice(["normal", "normal", "exception", "halt", "break", "nested", "nested-same"])
    boom = None
    a = time.perf_counter()
    try:
        for _ in range(1):
            with timer.clock(name):
                model.started(name, a, time.perf_counter())
                spin(rng)
                if how == "nested" and depth < 3:
                    section(timer, model, mon, rng, names, depth + 1)
                if how == "nested-same" and model.enabled:
                    def again():
                        with timer.clock(name):
                            pass
                    refused(mon, again, ValueError, "starting a running clock")
                inside = time.perf_counter()
                if how == "exception":
                    raise Boom()
                if how == "halt":
                    raise Halt()
                if how == "break":
                    break
    except (Boom, Halt) as e:
        boom = e
    model.stopped(name, inside, time.perf_counter())
    check((boom is not None) == (how in ("exception", "halt")), "an exception was swallowed by clock",
          "swallowed")
    mon.count("left_by_exception", boom is not None)
    mon.count("sections")


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    timer = util.Timer()
    other = util.Timer()
    model = Model()
    names = rng.sample(["pack", "unpack", "a", "b", "", "Isend", "x y"], rng.randint(1, 4))
    raised = 0
    for _ in range(p.get("often", 0)):
        a = time.perf_counter()
        with timer.clock(names[0]):
            b = time.perf_counter()
            model.started(names[0], a, b)
            a = time.perf_counter()
        model.stopped(names[0], a, time.perf_counter())
    for _ in range(p["ops"]):
        op = rng.choice(["start", "stop", "stop", "section", "section", "section", "read",
                         "misuse", "toggle", "reset", "read"])
        if op == "start":
            n = rng.choice(names)
            if n in model.running:
                continue
            a = time.perf_counter()
            timer.start(n)
            model.started(n, a, time.perf_counter())
        elif op == "stop":
            if not model.running and model.enabled:
                continue
            if not model.enabled:
                timer.stop(rng.choice(names))
                mon.count("disabled")
                continue
            n = rng.choice(sorted(model.running))
            a = time.perf_counter()
            timer.stop(n)
            model.stopped(n, a, time.perf_counter())
            mon.count("sections")
        elif op == "section":
            section(timer, model, mon, rng, names, 0)
            mon.count("disabled", not model.enabled)
        elif op == "read":
            read(timer, model, mon, rng)
        elif op == "misuse" and model.enabled:
            raised += 1
            if model.running:
                n = rng.choice(sorted(model.running))
                refused(mon, lambda: timer.start(n), ValueError, "starting a running clock")
                refused(mon, timer.disable, RuntimeError, "disabling a running timer")
            else:
                refused(mon, lambda: timer.stop("never started"), Exception,
                        "stopping a clock which is not running")
            free = [n for n in names if n not in model.running]
            if free:
                refused(mon, lambda: timer.stop(free[0]), Exception,
                        "stopping a clock which is not running")
        elif op == "toggle":
            if model.enabled and (model.running or rng.random() < 0.3):
                timer.enable()  # changes nothing
                mon.count("enabled_again", bool(model.running))
            elif model.enabled:
                timer.disable()
                model.enabled = False
            else:
                timer.enable()
                model.enabled = True
        elif op == "reset":
            if rng.random() < 0.3:
                timer.reset()
                model.low.clear()
                model.high.clear()
                model.hits.clear()
    for n in sorted(model.running):
        a = time.perf_counter()
        timer.stop(n)
        model.stopped(n, a, time.perf_counter())
    read(timer, model, mon, rng)
    check(not other.times and not other.hits, "timers are not independent", "shared-state")
    null = util.NullTimer()
    n = rng.choice(names)
    null.start(n)
    null.start(n)
    null.stop(n)
    null.stop("unknown")
    with null.clock(n):
        with null.clock(n):
            pass
    try:
        with null.clock(n):
            raise Boom()
    except Boom:
        pass
    null.disable()
    null.reset()
    check(not null.enabled and not null.times and not null.hits, "NullTimer keeps times",
          "null-timer")
    refused(mon, null.enable, NotImplementedError, "enabling a NullTimer")
    check(not null.enabled, "NullTimer was enabled", "null-timer")
    mon.count("null_timer")
    return p if raised and len(model.hits) > 1 else None
