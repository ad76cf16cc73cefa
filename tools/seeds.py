"""Writes /verif/seeded/<id>/ from the definitions in tools/seeddefs_*.py.

usage: seeds.py [id ...]; patches are made against the committed tree of /repo.
"""
import difflib
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "5ea68f0"
DEFS = []


def S(id, prop, needs, breaks, edits, demo, files=()):
    DEFS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo,
                     files=files))


def show(rev, path):
    return subprocess.run(["git", "-C", "/repo", "show", f"{rev}:{path}"],
                          check=True, capture_output=True, text=True).stdout


def main():
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeddefs_*.py"))):
        runpy.run_path(f, {"S": S})
    want = sys.argv[1:]
    for d in DEFS:
        if want and d["id"] not in want:
            continue
        out = os.path.join(ROOT, "seeded", d["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        patch, texts = "", {}
        for path, old, new in d["edits"]:
            path = "fv3gfs/util/" + path
            text = texts.get(path) or show("HEAD", path)
            if text.count(old) != 1:
                sys.exit(f"{d['id']}: {text.count(old)} matches in {path} of {old!r}")
            texts[path] = text.replace(old, new)
        original = False
        for path, text in texts.items():
            a, base = show("HEAD", path), show(BASE, path).splitlines()
            diff = list(difflib.unified_diff(a.splitlines(True), text.splitlines(True),
                                             "a/" + path, "b/" + path))
            for n, line in enumerate(diff):
                if not line.endswith("\n"):
                    diff[n] = line + "\n\\ No newline at end of file\n"
            original |= any(x.startswith("-") and not x.startswith("---") and x[1:-1] in base
                            for x in diff)
            patch += "".join(diff)
        if not original:
            print(f"{d['id']}: WARNING removes no line of the original repository")
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        open(os.path.join(out, "demo.py"), "w").write(
            "import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n"
            "sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n"
            + d["demo"].strip("\n") + "\n")
        if "from sim" in d["demo"] or "import sim" in d["demo"]:
            shutil.copy(os.path.join(ROOT, "tools/seeddemo/sim.py"), out)
        if "import standin" in d["demo"]:
            shutil.copy(os.path.join(ROOT, "vf/standin.py"), out)
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        print("wrote", d["id"])


main()
