"""mutate.py FILE [name...]: apply each mutant of FILE's MUTANTS to a copy of /repo, run its tests, then the check of its property.

MUTANTS = [(name, property, [(file, old, new), ...]), ...]; prints those that survive the tests and what the check said."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
names = sys.argv[2:]
py = "/opt/venv/bin/python"


def one(m):
    name, prop, edits = m
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), w + "/repo"], check=True)
        for f, old, new in edits:
            p = w + "/repo/" + ("" if "/" in f else "pyspectral/") + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, prop, "EDIT FAILS: " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        t = subprocess.run([py, "-m", "pytest", "-q", "-x", "pyspectral/tests", "-p", "no:cacheprovider"], cwd=w + "/repo", capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=w + "/repo"))
        tail = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
        if t.returncode:
            return name, prop, "killed by tests: " + tail
        c = subprocess.run([py, "check.py", prop], capture_output=True, text=True, env=dict(os.environ, SX_REPO=w + "/repo", SX_JOBS="2"))
        out = c.stdout + c.stderr
        m1 = re.search(r"^  C\d\d \[.*$", out, re.M)
        return name, prop, ("CAUGHT " if c.returncode == 1 else "MISSED rc=%d " % c.returncode) + (m1.group(0)[:110] if m1 else out[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


ms = [m for m in ns["MUTANTS"] if not names or m[0] in names]
with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "3"))) as ex:
    for r in ex.map(one, ms):
        print("%-22s %s %s" % r, flush=True)
