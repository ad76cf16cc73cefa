"""Shared vocabulary: verdicts, monitors (event counters) and seeded randomness."""
import hashlib
import json
import os
import random
import sys

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


class Violation(Exception):
    """A monitor observed an execution that breaks the property."""

    def __init__(self, message, mechanism=None):
        super().__init__(message)
        self.mechanism = mechanism or "unclassified"


class Inconclusive(Exception):
    """The monitor could not decide this case."""


def import_target():
    """Import fv3gfs.util from the working tree of the repository under test."""
    sys.dont_write_bytecode = True
    # never read (possibly stale) bytecode that lies in the repository
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")
    import fv3gfs.util as util

    got = os.path.realpath(util.__file__)
    if not got.startswith(REPO + os.sep):
        raise RuntimeError(f"imported {got}, expected it under {REPO}")
    return util


class Monitor:
    """Counts what the monitors actually observed in one run."""

    def __init__(self):
        self.counters = {}
        self.sets = {}
        self.samples = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def seen(self, name, value):
        """record a distinct observation (kept as a short digest)"""
        s = self.sets.setdefault(name, set())
        if len(s) < 200000:
            s.add(digest(value))

    def export(self):
        return {
            "counters": self.counters,
            "sets": {k: sorted(v) for k, v in self.sets.items()},
            "samples": self.samples[:3],
        }


def digest(value):
    if not isinstance(value, (bytes, str)):
        value = json.dumps(value, sort_keys=True, default=str)
    if isinstance(value, str):
        value = value.encode()
    return hashlib.blake2b(value, digest_size=8).hexdigest()


def rng_for(*parts):
    return random.Random("/".join(str(p) for p in parts))


def np_rng(*parts):
    import numpy as np

    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:16], "little"))


def check(condition, message, mechanism=None):
    if not condition:
        raise Violation(message() if callable(message) else message, mechanism)
