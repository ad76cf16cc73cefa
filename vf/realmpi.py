"""The same programs and judges on real MPI: separate processes, each with its own hash seed.

The simulator runs all ranks in one process, so it cannot show what differs between processes
(order of sets, object identities) nor what mpi4py itself makes of a buffer. Each check with a
`program`/`judge` pair (or its own `real`) calls `phase` from its `extra`.
"""
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import core
from .core import Monitor, Violation

SIZE = 6
ENV = {"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
       "PMIX_MCA_gds": "hash", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
       "OMPI_MCA_btl": "self,vader", "OMPI_MCA_rmaps_base_oversubscribe": "1",
       "OMPI_MCA_mpi_yield_when_idle": "1", "OMP_NUM_THREADS": "1"}


def launch(module, job, out, hash_base, timeout):
    """-> "done" | "failed" | "timeout" """
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PYTHON"))}
    env.update(ENV)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    script = (f"PYTHONHASHSEED=$(({hash_base} + OMPI_COMM_WORLD_RANK)) exec "
              f"{sys.executable} -m vf.realmpi {module} {job} {out}")
    with tempfile.TemporaryDirectory(prefix="vf-mpi-") as session:
        env["TMPDIR"] = session
        p = subprocess.Popen(
            ["mpirun", "-n", str(SIZE), "--oversubscribe", "bash", "-c", script],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL,
            env=env, cwd=core.VERIF, start_new_session=True)
        try:
            return "done" if p.wait(timeout) == 0 else "failed"
        except subprocess.TimeoutExpired:
            return "timeout"
        finally:
            for sig in (signal.SIGTERM, signal.SIGKILL):
                try:
                    os.killpg(p.pid, sig)
                except ProcessLookupError:
                    break
                time.sleep(0.5)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass


def attempt(module, cases, hash_base, timeout):
    """-> (status, [records])"""
    with tempfile.TemporaryDirectory(prefix="vf-real-") as d:
        job, out = os.path.join(d, "job"), os.path.join(d, "out")
        with open(job, "w") as f:
            json.dump(cases, f)
        status = launch(module, job, out, hash_base, timeout)
        records = []
        for name in sorted(os.listdir(d)):
            if name.startswith("out"):
                with open(os.path.join(d, name)) as f:
                    records += [json.loads(line) for line in f if line.endswith("\n")]
        return status, records


def phase(check, tier, seed, mon, deadline, n=None, timeout=100):
    """run some cases on real MPI -> failures for the runner"""
    module = check.__name__
    n = n or {"quick": 40, "thorough": 400}[tier]
    rng = core.rng_for(seed, check.ID, tier, "real-mpi")
    cases, tries = [], 0
    while len(cases) < n and tries < 50 * n:
        tries += 1
        p = check.generate(rng, "quick")
        if check.world_size(p) <= SIZE:
            cases.append(p)
    status, _ = attempt("sanity", [], 1, timeout)
    if status != "done":
        mon.count("real_mpi_unavailable")
        return []
    for k in range(0, len(cases), 40):
        if time.time() + timeout > deadline + 100:
            break
        bad = decide(module, cases[k:k + 40], rng.randrange(10**6), mon, timeout)
        if bad:
            return bad
    return []


def decide(module, cases, hash_base, mon, timeout):
    for retry in range(2):
        status, records = attempt(module, cases, hash_base, timeout)
        for r in records:
            if r["what"] == "violation":
                p = dict(phase="real-mpi", cases=[cases[r["case"]]], hash_base=hash_base)
                return [(p, Violation("on real MPI: " + r["message"], r["mechanism"]))]
        done = [r for r in records if r["what"] == "done"]
        if status == "done" and done:
            mon.count("real_mpi_cases", done[0]["cases"])
            for k, v in done[0]["counters"].items():
                mon.count("real_mpi: " + k, v)
            return []
        # no verdict: was it the environment?
        if attempt("sanity", [], 1, timeout)[0] != "done":
            mon.count("real_mpi_unavailable")
            return []
    at = max([r["case"] for r in records if r["what"] == "start"], default=0)
    p = dict(phase="real-mpi", cases=[cases[at]], hash_base=hash_base)
    what = "does not finish" if status == "timeout" else "ends without a result"
    return [(p, Violation(f"on real MPI the program {what} (twice)", "real-mpi-" + status))]


def replay(check, params):
    bad = decide(check.__name__, params["cases"], params["hash_base"], Monitor(), 100)
    return (bad[0][1].mechanism, str(bad[0][1])) if bad else None


def child():
    module, job, out = sys.argv[1:4]
    from mpi4py import MPI

    world = MPI.COMM_WORLD
    rank = world.Get_rank()
    if module == "sanity":
        world.barrier()
        assert sum(world.allgather(rank)) == SIZE * (SIZE - 1) // 2
        return
    with open(job) as f:
        cases = json.load(f)
    report = open(f"{out}-{rank}", "a")

    def tell(**kw):
        report.write(json.dumps(kw) + "\n")
        report.flush()

    from .runner import _describe

    core.import_target()
    check = importlib.import_module(module)
    if hasattr(check, "setup"):
        check.setup()
    mon, k = Monitor(), 0
    try:
        for k, p in enumerate(cases):
            n = check.world_size(p)
            comm = world.Split(0 if rank < n else 1, rank)
            if rank < n:
                if rank == 0:
                    tell(what="start", case=k)
                if hasattr(check, "real"):
                    check.real(comm, rank, p, mon)
                else:
                    result = check.program(comm, rank, p)
                    parts = comm.gather(pickle.dumps(result), root=0)
                    if rank == 0:
                        check.judge(p, [pickle.loads(x) for x in parts], mon)
            comm.Free()
            world.barrier()
    except Violation as e:
        tell(what="violation", case=k, mechanism=e.mechanism, message=str(e))
        world.Abort(1)
    except Exception as e:
        mech, message = _describe(e)
        tell(what="violation", case=k, mechanism=mech,
             message=message + f" on rank {rank}\n" + traceback.format_exc()[-600:])
        world.Abort(1)
    if rank == 0:
        tell(what="done", cases=len(cases), counters=mon.counters)


if __name__ == "__main__":
    child()
