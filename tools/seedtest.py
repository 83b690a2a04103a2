"""seedtest.py [--all-checks] [id...]: run the checks against each planted bug, in scratch copies.

Prints for every bug which checks report it (by default only the check of the bug's own property)."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(ROOT, "seeded"))


def one(bug, checks):
    d = tempfile.mkdtemp(prefix="seedtest")
    repo = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(SEEDED, bug, "patch.diff")], check=True)
        got = []
        for c in checks:
            r = subprocess.run([os.path.join(ROOT, "check.sh"), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS="4", VERIF_OUT=d), errors="replace")
            if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout:
                got.append(c)
            elif r.returncode:
                got.append(c + "?rc%d" % r.returncode)
        return bug, got
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    every = "--all-checks" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    allc = ["C%02d" % i for i in range(1, 100) if os.path.exists(os.path.join(ROOT, "harness/props/c%02d.py" % i))]
    jobs = []
    for b in ids:
        prop = json.load(open(os.path.join(SEEDED, b, "meta.json")))["property"]
        jobs.append((b, prop, allc if every else [prop]))
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        futs = [(b, p, ex.submit(one, b, c)) for b, p, c in jobs]
        for b, p, f in futs:
            got = f.result()[1]
            print(f"{b} [{p}]: {'caught' if p in got else 'MISSED'} {' '.join(got)}", flush=True)


main()
