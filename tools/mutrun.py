"""Runs some checks with reduced counts on VERIF_REPO; prints 'killed by ...' or 'survived'."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, runner  # noqa: E402

SCALE = float(os.environ.get("SCALE", "0.03"))


def main():
    try:
        core.import_target()
    except BaseException as e:
        print("killed by import:", e)
        return
    for prop in sys.argv[1:]:
        try:
            check = runner.load_check(prop)
        except SystemExit:
            continue
        check.COUNTS = {"quick": max(20, int(check.COUNTS["quick"] * SCALE))}
        runner.CAP["quick"] = 120
        runner.MAX_FAILURES = 1
        if hasattr(check, "extra"):
            del check.extra
        r = runner.execute(check, "quick", 1)
        if r["errors"]:
            print("killed by error in", prop, r["errors"][0][-200:].replace("\n", " | "))
            return
        known = runner.known_findings(prop)
        bad = [f for f in r["failures"] if f[1] not in known]
        if bad:
            print(f"killed by {prop} [{bad[0][1]}] {bad[0][2][:100]!r}")
            return
    print("survived")


main()
