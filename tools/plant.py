#!/opt/venv/bin/python
"""plant.py SPECDIR...: makes /verif/seeded/<id> from a spec (edit.py with FILE/OLD/NEW lists, PROPERTY, NEEDS, BREAKS, and demo.py), after
confirming in a scratch copy of /repo that the tests still pass and that the demonstration tells the two trees apart."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME=$work XDG_DATA_HOME=$work/data TMPDIR=$work PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 TQDM_DISABLE=1
unset PSP_CONFIG_FILE
/opt/venv/bin/python "$here/demo.py" "$work"
"""


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **env)
    e.pop("PSP_CONFIG_FILE", None)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, shell=isinstance(cmd, str))


def plant(name, prop, edits, needs, breaks, demo):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        a = os.path.join(tmp, "a")
        shutil.copytree("/repo", a, symlinks=True)
        for f, old, new in edits:
            p = os.path.join(a, f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], a).stdout
        assert diff
        d = os.path.join(tmp, "demo")
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pyspectral/tests"], a, PYTHONPATH=a,
               XDG_DATA_HOME=tmp + "/x")
        ok = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        bad = sh(["bash", os.path.join(d, "demo.sh")], a)
        res = [t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:], ok.returncode, bad.returncode]
        good = t.returncode == 0 and ok.returncode == 0 and bad.returncode != 0
        print(name, "GOOD" if good else "REJECTED", res)
        if not good:
            print(t.stdout[-1500:] if t.returncode else "", ok.stdout[-800:], ok.stderr[-800:], "BAD:", bad.stdout[-300:], bad.stderr[-300:])
            return False
        out = os.path.join(HERE, "seeded", name)
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return True
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for b in ns["BUGS"]:
        if only and b["name"] not in only:
            continue
        plant(**b)
