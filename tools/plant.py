#!/opt/venv/bin/python
"""Confirm planted bugs and write /verif/seeded/<id>/.

usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS: list of dicts {id, property, needs, breaks, edits: [(file, old, new)], demo}.
Every bug is applied in a scratch copy of /repo; it is kept only if the package imports, the
stable tests pass, and the demonstration passes without and fails with it.
"""
import concurrent.futures as cf
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
           OMP_NUM_THREADS="1")


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(bug):
    wt = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        repo = os.path.join(wt, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh(["git", "checkout", "-q", "--", "."], repo)
        demo = os.path.join(wt, "demo")
        os.mkdir(demo)
        with open(os.path.join(demo, "demo.py"), "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        with open(os.path.join(demo, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        env = dict(ENV, PYTHONPATH=os.path.join(repo, "src"))
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        if rc != 0:
            return bug["id"], "demo fails on the clean tree: " + out[-600:]
        for fn, old, new in bug["edits"]:
            p = os.path.join(repo, fn)
            data = open(p, newline="").read()
            if "\r\n" in data:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if data.count(old) != 1:
                return bug["id"], f"{fn}: pattern found {data.count(old)} times"
            with open(p, "w", newline="") as f:
                f.write(data.replace(old, new))
        p = subprocess.run(["git", "diff", "--no-color", "--no-ext-diff"], cwd=repo, capture_output=True)
        diff = p.stdout
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], repo, env, 300)
        if rc == 0:
            return bug["id"], "demo passes with the bug"
        demo_out = out.strip().splitlines()[-1][:200] if out.strip() else ""
        base = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-rfE", "--tb=line",
                "--hypothesis-profile=ci", "--benchmark-disable"]
        henv = dict(env, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(wt, "hyp"))
        bad = []
        for args in (["tests", "benches"], ["--doctest-modules", "src"]):
            rc, out = sh(base + args, repo, henv, 900)
            bad += re.findall(r"^(?:FAILED|ERROR) (\S+)", out, re.M)
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

        def is_stable(t):
            tail = t.split("::", 1)[-1].replace("::", ".")
            return any(s.split("::")[-1] == tail.split(".")[-1] or s.endswith(tail) for s in stable)
        bad = [t for t in bad if is_stable(t)]
        if bad:
            return bug["id"], "tests fail: " + ", ".join(bad[:6])
        dst = os.path.join(VERIF, "seeded", bug["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(demo, dst)
        with open(os.path.join(dst, "patch.diff"), "wb") as f:
            f.write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return bug["id"], "OK   [" + demo_out + "]"
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(7) as ex:
        for i, r in ex.map(one, bugs):
            print(f"{i:32s} {r}", flush=True)


main()
