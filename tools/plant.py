"""plant.py SPEC.py [id...]: turn planted bug specifications into /verif/seeded/<id>/.

SPEC.py defines BUGS, a list of dicts: id, prop, edits [(file, old, new)], needs, breaks, demo (python source;
must exit nonzero when the bug is there).  Works in a scratch copy under /tmp; keeps a bug only if the patch applies,
changes original lines, the stable tests pass, and the demonstration passes without it and fails with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = "cd4dc13"
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaviour intact, nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONUTF8=1 TZ=UTC
exec timeout 120 python3 "$here/demo.py"
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", LANG="C.UTF-8", TZ="UTC")


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(ENV, **kw.pop("env", {})), **kw)


def edit(root, edits):
    for fn, old, new in edits:
        p = os.path.join(root, "src/pynmeagps", fn)
        with open(p, encoding="utf-8", newline="") as f:
            s = f.read()
        crlf = "\r\n" in s
        s = s.replace("\r\n", "\n")
        if s.count(old) != 1:
            return f"{fn}: {s.count(old)} occurrences of {old!r}"
        s = s.replace(old, new)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(s.replace("\n", "\r\n") if crlf else s)
    return None


def original_lines(root):
    """does the change remove lines of the original repository?"""
    out = run(["git", "diff", "-U0"], root).stdout
    n = 0
    fn = None
    for line in out.splitlines():
        m = re.match(r"--- a/(.*)", line)
        if m:
            fn = m.group(1).strip()
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, k = int(m.group(1)), int(m.group(2) or 1)
            if k:
                bl = run(["git", "blame", "-s", "-l", "-L", f"{a},{a + k - 1}", "HEAD", "--", fn], root).stdout
                n += sum(x.lstrip("^").startswith(BASE) for x in bl.splitlines())
    return n


def plant(b, scratch):
    run(["git", "checkout", "-q", "--", "."], scratch)
    d = tempfile.mkdtemp(prefix="plantdemo")
    try:
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(b["demo"].strip("\n") + "\n")
        clean = run(["bash", os.path.join(d, "demo.sh")], scratch)
        if clean.returncode:
            return "demo fails on the clean tree: " + clean.stdout[-300:] + clean.stderr[-600:]
        err = edit(scratch, b["edits"])
        if err:
            return err
        if not original_lines(scratch) and "ANYLINE" not in os.environ:
            return "changes no original line"
        dirty = run(["bash", os.path.join(d, "demo.sh")], scratch)
        if dirty.returncode == 0:
            return "demo passes with the bug"
        if dirty.returncode == 124:
            return "demo timed out"
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "tests"],
                scratch, env={"PYTHONPATH": scratch + "/src", "PYTHONNOUSERSITE": "1"})
        if t.returncode:
            return "existing tests fail: " + "\n".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:400]
        patch = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True).stdout
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "wb") as f:
            f.write(patch)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(d, n), os.path.join(out, n))
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            f.write("\n")
        return None
    finally:
        shutil.rmtree(d)
        run(["git", "checkout", "-q", "--", "."], scratch)


def main():
    spec = {}
    with open(sys.argv[1], encoding="utf-8") as f:
        exec(compile(f.read(), sys.argv[1], "exec"), spec)
    scratch = tempfile.mkdtemp(prefix="plant") + "/repo"
    run(["cp", "-a", "/repo", scratch], "/")
    try:
        for b in spec["BUGS"]:
            if sys.argv[2:] and b["id"] not in sys.argv[2:]:
                continue
            res = plant(b, scratch)
            print(b["id"], "planted" if res is None else "REJECTED " + res, flush=True)
    finally:
        shutil.rmtree(os.path.dirname(scratch))


main()
