"""C26: optional packages are needed only by the features which use them."""
import json
import os
import subprocess
import sys

from ..core import VERIF, Inconclusive, check

ID = "C26"
LEVEL = "exploration"
RULE = (
    "A case starts a fresh interpreter in which a set of optional packages cannot be imported, "
    "imports fv3gfs.util there, compares its public names and the results (a digest of all "
    "bytes) of a numpy-only workload - halo updates, interface synchronisation, gather/scatter, "
    "corner filling, nudging, timer, stream capture - with those of an interpreter with all "
    "packages, and tries every feature that uses an optional package. Non-trivial: at least "
    "one package was blocked.")
COUNTS = {"quick": 20, "thorough": 150}
REQUIRED = {"interpreters": 25, "core_digests": 25, "refusals": 40, "working": 30}
ASSUMPTIONS = ["the required packages (numpy, cftime, fsspec, typing_extensions) are there",
               "a missing package raises ModuleNotFoundError when imported"]
PACKAGES = ["xarray", "zarr", "scipy", "mpi4py", "pandas", "yaml", "dask", "netCDF4",
            "gt4py", "cupy", "numcodecs", "pytest", "f90nml"]
# packages (with the packages those need) which a feature may ask for
MAY_NEED = {
    "zarr_monitor": {"zarr", "numcodecs", "xarray", "pandas", "dask"},
    "data_array": {"xarray", "pandas", "dask"},
    "to_dataset": {"xarray", "pandas", "dask"},
    "write_state": {"xarray", "pandas", "scipy", "netCDF4", "yaml", "dask"},
    "read_state": {"xarray", "pandas", "scipy", "netCDF4", "zarr", "numcodecs", "dask"},
    "open_restart": {"xarray", "pandas", "scipy", "netCDF4", "zarr", "numcodecs", "dask",
                     "f90nml", "yaml"},
}
_baseline = {}


def generate(rng, tier):
    k = rng.choice([1, 2, 2, 3, 4, 6, len(PACKAGES)])
    return dict(blocked=sorted(rng.sample(PACKAGES, k)), seed=rng.randrange(3))


def directed(tier):
    out = [dict(blocked=[p], seed=0) for p in
           ("xarray", "zarr", "scipy", "mpi4py", "pandas", "yaml")]
    out += [dict(blocked=PACKAGES, seed=1), dict(blocked=["mpi4py", "scipy", "xarray", "zarr"],
                                                 seed=2)]
    return out


def interpreter(blocked, seed):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, "vf", "optional_child.py"),
             ",".join(blocked), str(seed)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200, cwd="/",
            universal_newlines=True)
    except subprocess.TimeoutExpired:
        raise Inconclusive("interpreter took too long")
    for line in r.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    raise RuntimeError(f"no result from child: {r.stderr[-800:]}")


def run(p, mon):
    if p["seed"] not in _baseline:
        _baseline[p["seed"]] = interpreter([], p["seed"])
    base = _baseline[p["seed"]]
    check("error" not in base, lambda: "with every installed package: " + base["error"],
          "import-fails")
    for f, (status, message, _) in base["features"].items():
        check(status == "works", lambda: f"{f} fails with every package there: {message}",
              "feature-fails")
    got = interpreter(p["blocked"], p["seed"])
    mon.count("interpreters")
    mon.seen("package_sets", p["blocked"])
    what = "without " + ", ".join(p["blocked"])
    check("error" not in got, lambda: f"{what}: {got['error']}", "import-fails")
    check(got["names"] == base["names"],
          lambda: f"{what} the public names differ: "
                  f"{sorted(set(got['names']) ^ set(base['names']))}", "names-differ")
    check(got["core"] == base["core"],
          lambda: f"{what} numpy-only results differ from those with every package",
          "results-differ")
    mon.count("core_digests")
    blocked = set(p["blocked"])
    for f, (status, message, name) in got["features"].items():
        check(status in ("works", "missing"),
              lambda: f"{what} {f} fails with {message}, not with the missing package",
              "unclear-failure")
        if status == "missing":
            check(name in blocked, lambda: f"{what} {f} reports {message}", "unclear-failure")
            check(blocked & MAY_NEED[f],
                  lambda: f"{what} {f} does not work ({message}), which does not use it",
                  "needs-too-much")
            mon.count("refusals")
        else:
            mon.count("working")
    return p
