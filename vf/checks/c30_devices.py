"""C30: operations give the same on device arrays and gt4py storages as on numpy arrays."""
import importlib

from .. import fields, standin

ID = "C30"
LEVEL = "exploration"
RULE = (
    "A case is a case of the check of C01, C02, C03, C09, C10, C14, C15 or C19 whose "
    "quantities hold cupy arrays or gt4py storages (numpy, gtx86, gtcuda) instead of numpy "
    "arrays; cupy and gt4py are stand-ins which refuse what the real ones refuse (implicit "
    "conversion, mixing host and device arrays) and count what crosses over. The oracle is "
    "the one of that check; new quantities must be of the same kind. Non-trivial: as there.")
CHECKS = ("c01_scalar_halo", "c02_vector_halo", "c03_interface_sync", "c09_scatter_gather",
          "c10_state_transfer", "c14_fill_corners", "c15_zarr_store", "c19_nudging")
COUNTS = {"quick": 1000, "thorough": 20000}
REQUIRED = {f"cases of {c[:3].upper()} on {k}": 5 for c in CHECKS for k in standin.KINDS}
REQUIRED.update(device_operations=20000, copies_to_host=300, executions=300)
ASSUMPTIONS = [
    "cupy and gt4py.storage are stand-ins over host memory; the repository's own tests for "
    "these backends pass on them",
    "MPI takes contiguous device arrays as they are (CUDA-aware), device work is synchronous",
]


def module(name):
    return importlib.import_module("vf.checks." + name)


def setup():
    standin.install()
    for name in CHECKS:
        m = module(name)
        if hasattr(m, "setup"):
            m.setup()


def generate(rng, tier):
    name = rng.choice(CHECKS)
    return dict(check=name, kind=rng.choice(standin.KINDS + ("cupy",)),
                p=module(name).generate(rng, tier))


def directed(tier):
    return [dict(check=name, kind=kind, p=p) for name in CHECKS
            for i, p in enumerate(module(name).directed("quick")[:8])
            for kind in standin.KINDS[i % 2::2]]


def run(c, mon):
    before = dict(standin.COUNTS)
    fields.PLACE, fields.KEPT = standin.placement(c["kind"])
    try:
        sig = module(c["check"]).run(c["p"], mon)
    finally:
        fields.PLACE = fields.KEPT = None
    mon.count(f"cases of {c['check'][:3].upper()} on {c['kind']}")
    for key, name in (("to_host", "copies_to_host"), ("to_device", "copies_to_device"),
                      ("device_ops", "device_operations"), ("storages", "storages")):
        mon.count(name, standin.COUNTS[key] - before[key])
    return c if sig is not None else None
