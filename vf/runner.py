"""Runs one property's check: workers, seeds, verdicts, replays, evidence.

A check module (vf/checks/<id>_*.py) defines
  ID, RULE, COUNTS = {"quick": n, "thorough": n}, REQUIRED = {observation: minimum}
  directed(tier)        -> list of params (fixed cases which always run)
  generate(rng, tier)   -> params (JSON data)
  run(params, mon)      -> signature of a non-trivial case, or None; raises Violation
and optionally extra(tier, seed, mon, deadline) -> list of (params, Violation), for phases
which do not fit in a worker (real MPI processes and the like).
"""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import os
import pkgutil
import signal
import sys
import time
import traceback

from . import core
from .core import Inconclusive, Monitor, Violation

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 150  # seconds of CPU one case may burn (typical: well below one)
MAX_FAILURES = 40  # per worker
CAP = {"quick": 240.0, "thorough": 840.0}
FINDINGS = os.path.join(core.VERIF, "KNOWN_FINDINGS.json")


def load_check(prop):
    from . import checks

    for m in pkgutil.iter_modules(checks.__path__):
        if m.name.lower().startswith(prop.lower() + "_"):
            return importlib.import_module(f"vf.checks.{m.name}")
    raise SystemExit(f"no check for property {prop}")


class _CpuTimeout(BaseException):
    pass


def _on_cpu(signum, frame):
    raise _CpuTimeout()


class _Format(logging.Handler):
    """formats every record, as a handler which writes it would"""

    def emit(self, record):
        try:
            record.getMessage()
        except Exception:
            pass  # the logging module prints and ignores it


def run_case(check, params, mon):
    """-> (signature or None, None | (mechanism, message))"""
    log = logging.getLogger("fv3gfs.util")
    log.handlers, log.propagate = [_Format()], False
    log.setLevel(logging.DEBUG if int(core.digest(params), 16) % 2 else logging.WARNING)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return check.run(params, mon), None
    except Violation as e:
        return None, (e.mechanism, str(e))
    except Inconclusive:
        raise
    except MemoryError:
        raise
    except _CpuTimeout:
        return None, ("no-termination",
                      f"the case did not finish within {CPU_LIMIT} s of CPU time")
    except OSError as e:
        import errno

        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM, errno.EDQUOT):
            raise
        return None, _describe(e)
    except Exception as e:
        return None, _describe(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(core.REPO + os.sep)]
    at = where[-1] if where else tb[-1]
    rank = f" on rank {e.sim_rank}" if hasattr(e, "sim_rank") else ""
    short = os.path.relpath(at.filename, core.REPO) if where else at.filename
    return (f"exception:{type(e).__name__}",
            f"valid use raised {type(e).__name__}: {str(e)[:600]}{rank} "
            f"(at {short}:{at.lineno} in {at.name})")


def _worker(check_name, jobs, deadline, conn, seed, tier):
    core.import_target()
    check = importlib.import_module(check_name)
    mon = Monitor()
    done, sigs, failures, error = 0, set(), [], None
    try:
        if hasattr(check, "setup"):
            check.setup()
        for kind, i, params in jobs:
            if time.time() > deadline:
                break
            if kind == "random":
                params = check.generate(core.rng_for(seed, check.ID, tier, i), tier)
            try:
                sig, bad = run_case(check, params, mon)
            except Inconclusive as e:
                mon.count("inconclusive_cases")
                mon.count("inconclusive: " + str(e)[:60])
                continue
            done += 1
            if sig is not None:
                sigs.add(core.digest(sig))
                if len(mon.samples) < 3 and (kind == "random" or len(mon.samples) < 1):
                    mon.samples.append(params)
            if bad:
                failures.append((params, bad[0], bad[1]))
                if len(failures) >= MAX_FAILURES:
                    break
    except BaseException:
        error = traceback.format_exc()
    finally:
        if hasattr(check, "teardown"):
            try:
                check.teardown()
            except Exception:
                pass
    conn.send((done, sorted(sigs), failures, mon.export(), error))
    conn.close()


def execute(check, tier, seed):
    t0 = time.time()
    deadline = t0 + CAP[tier]
    jobs = [("directed", i, p) for i, p in enumerate(check.directed(tier))]
    jobs += [("random", i, None) for i in range(check.COUNTS[tier])]
    n_workers = max(1, min(WORKERS, len(jobs)))
    ctx = mp.get_context("fork")
    procs = []
    for w in range(n_workers):
        parent, child = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(
            check.__name__, jobs[w::n_workers], deadline, child, seed, tier))
        p.start()
        child.close()
        procs.append((p, parent))
    done, sigs, failures, exports, errors = 0, set(), [], [], []
    hard = deadline + 200
    for p, conn in procs:
        try:
            if not conn.poll(max(1.0, hard - time.time())):
                raise TimeoutError("worker made no progress")
            d, s, f, ex, err = conn.recv()
            done += d
            sigs.update(s)
            failures += f
            exports.append(ex)
            if err:
                errors.append(err)
        except (EOFError, TimeoutError) as e:
            errors.append(f"worker lost: {e!r}")
        finally:
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()
    mon = Monitor()
    extra_failures = []
    if hasattr(check, "extra") and not failures:
        extra_failures = check.extra(tier, seed, mon, deadline)
        for params, v in extra_failures:
            failures.append((params, v.mechanism, str(v)))
    exports.append(mon.export())
    counters, sets, samples = {}, {}, []
    for ex in exports:
        for k, v in ex["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in ex["sets"].items():
            sets.setdefault(k, set()).update(v)
        samples += ex["samples"]
    return dict(done=done, sigs=sigs, failures=failures, counters=counters,
                sets={k: len(v) for k, v in sets.items()}, samples=samples[:5],
                errors=errors, wall=time.time() - t0, planned=len(jobs))


def known_findings(prop):
    try:
        with open(FINDINGS) as f:
            entries = json.load(f)["findings"]
    except FileNotFoundError:
        return {}
    return {e["mechanism"]: e for e in entries if e["property"] == prop}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.property
    core.import_target()
    check = load_check(prop)

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        core.import_target()
        if hasattr(check, "setup"):
            check.setup()
        if rec["params"].get("phase") and hasattr(check, "replay_extra"):
            bad = check.replay_extra(rec["params"])
        else:
            _, bad = run_case(check, rec["params"], Monitor())
        if bad:
            print(f"VIOLATION property={prop} replay={args.replay}")
            print(f"  [{bad[0]}] {bad[1]}")
            return 1
        print("replay: no violation")
        return 0

    r = execute(check, args.tier, seed)
    known = known_findings(prop)
    new, old = [], {}
    for params, mech, msg in r["failures"]:
        if mech in known:
            old.setdefault(mech, []).append((params, msg))
        else:
            new.append((params, mech, msg))

    status = 0
    printed = set()
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    for params, mech, msg in new:
        if mech in printed or len(printed) >= 5:
            continue
        printed.add(mech)
        status = 1
        name = f"{prop}-{core.digest(json.dumps(params, sort_keys=True) + mech)}.json"
        path = os.path.join(core.VERIF, "replays", name)
        with open(path, "w") as f:
            json.dump({"property": prop, "mechanism": mech, "message": msg, "seed": seed,
                       "tier": args.tier, "params": params}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{mech}] {msg}")
    for mech, entry in known.items():
        n = len(old.get(mech, []))
        if n:
            print(f"KNOWN-FINDING: property={prop} {entry['what']} "
                  f"(seen in {n} cases of this run)")

    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": {
            "evaluations": r["done"],
            "distinct_nontrivial": len(r["sigs"]),
            "rule": check.RULE,
            "samples": r["samples"],
            "observed": r["counters"],
            "distinct_observed": r["sets"],
            "planned_cases": r["planned"],
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(r["wall"], 2),
        "violations": len(new),
    }
    if old:
        evidence["coverage"]["known_findings"] = {k: len(v) for k, v in old.items()}
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for e in r["errors"]:
        print(e, file=sys.stderr)
    if status == 0 and r["errors"]:
        print("harness error: no verdict", file=sys.stderr)
        return 3
    if status == 0:
        missing = {k: v for k, v in check.REQUIRED.items()
                   if max(r["counters"].get(k, 0), r["sets"].get(k, 0)) < v}
        if missing:
            print(f"too little was observed for a verdict: {missing}, "
                  f"got {r['counters']} {r['sets']}", file=sys.stderr)
            return 2
    print(f"{prop} {args.tier}: {r['done']}/{r['planned']} cases, "
          f"{len(r['sigs'])} distinct non-trivial, {len(r['failures'])} failing, "
          f"{r['wall']:.1f} s")
    return status


if __name__ == "__main__":
    sys.exit(main())
