"""C28: unit strings are compared exactly, up to blanks around them."""
import random

from ..core import check

ID = "C28"
LEVEL = "exploration"
RULE = (
    "A case compares 60 pairs of unit strings: equal ones, equal ones with blanks (space, tab, "
    "newline) added around them, and ones which differ by a letter's case, an inner blank, a "
    "sign, an exponent, one letter more or less or another unit. units_are_equal must say yes "
    "exactly if the trimmed strings are the same, both ways round; ensure_equal_units must "
    "raise UnitsError exactly otherwise. Non-trivial: both answers occurred.")
COUNTS = {"quick": 2000, "thorough": 40000}
REQUIRED = {"equal": 20000, "different": 20000, "near_misses": 10000}
ASSUMPTIONS = ["units are str"]
WORDS = ["m", "s", "K", "Pa", "kg", "m s^-1", "kg/kg", "m^2", "degK", "1", "", "%", "days",
         "days since 2016-08-01", "J kg^-1", "unknown", "none", "μm", "m/s**2", "W/m^2", "m²", "m2", "\u212a", "\u00b5m"]


def generate(rng, tier):
    return dict(seed=rng.randrange(2**31))


def directed(tier):
    return [dict(seed=s) for s in range(4)]


def near(rng, a):
    k = rng.randrange(6)
    if k == 0 and a.swapcase() != a:
        return a.swapcase()
    if k == 1 and " " in a:
        return a.replace(" ", rng.choice(["", "  ", "\t"]), 1)
    if k == 2 and a:
        i = rng.randrange(len(a))
        return a[:i] + a[i + 1:]
    if k == 3 and "-" in a:
        return a.replace("-", "")
    i = rng.randint(0, len(a))
    return a[:i] + rng.choice("mskKP1^/ -*") + a[i:]


def run(p, mon):
    import fv3gfs.util as util

    rng = random.Random(p["seed"])
    seen = set()
    for _ in range(60):
        a = rng.choice(WORDS)
        if rng.random() < 0.3:
            a = " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 3)))
        u = rng.random()
        b = a if u < 0.45 else near(rng, a) if u < 0.8 else rng.choice(WORDS)
        if rng.random() < 0.5:
            a = rng.choice(["", " ", "  ", "\t", "\n "]) + a + rng.choice(["", " ", "\t "])
            b = rng.choice(["", " ", "\n"]) + b + rng.choice(["", " ", "   "])
        want = a.strip(" \t\n") == b.strip(" \t\n")
        for x, y in ((a, b), (b, a)):
            got = util.units_are_equal(x, y)
            check(bool(got) == want, f"units_are_equal({x!r}, {y!r}) is {got}", "units")
            try:
                util.ensure_equal_units(x, y)
                ok = True
            except util.UnitsError as e:
                ok = False
                check(x in str(e) and y in str(e),
                      lambda: f"the error for {x!r} and {y!r} does not name them: {e}",
                      "units-message")
            check(ok == want, f"ensure_equal_units({x!r}, {y!r}) "
                  + ("passes" if ok else "raises"), "units")
        mon.count("equal" if want else "different")
        mon.count("near_misses", not want and u < 0.8)
        seen.add(want)
    return p if len(seen) == 2 else None
