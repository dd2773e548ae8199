#!/opt/venv/bin/python
"""Run checks against planted bugs, each in a private mount namespace (development aid).

usage: bugrun.py [-j N] [-a] [-t quick|thorough] [-s SEED] ID... (default: all of /verif/seeded)
-a runs every check on every bug; otherwise only the check of the bug's property.
"""
import argparse
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    bug, prop, tier, seed, sdir = job
    wt = tempfile.mkdtemp(prefix="bugrun_", dir="/tmp")
    t0 = time.time()
    try:
        subprocess.run(["cp", "-a", "/repo", wt + "/repo"], check=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt + "/repo")
        if bug:
            r = subprocess.run(["git", "apply", f"{sdir}/{bug}/patch.diff"], cwd=wt + "/repo",
                               capture_output=True, text=True)
            if r.returncode:
                return bug, prop, "APPLY", r.stderr[:200], 0
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "replays",
                        VERIF + "/", wt + "/verif/"], check=False) if shutil.which("rsync") else \
            subprocess.run(f"mkdir {wt}/verif && cd {VERIF} && tar c --exclude=.git --exclude=./seeded "
                           f"--exclude=./replays . | tar x -C {wt}/verif", shell=True, check=True)
        cmd = (f"mount --bind {wt}/repo /repo && mount --bind {wt}/verif /verif && cd /verif && "
               f"VERIF_SEED={seed} VERIF_TIER={tier} PYTHONHASHSEED=0 "
               f"/opt/venv/bin/python run.py {prop} --tier {tier}")
        p = subprocess.run(["unshare", "-m", "bash", "-c", cmd], capture_output=True, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        info = ""
        if p.returncode == 1:
            i = [l for l in p.stdout.splitlines() if "VIOLATION" not in l and l.strip()]
            info = (i[-1] if i else "")[:170]
        elif p.returncode:
            info = (p.stdout + p.stderr)[-300:]
        return bug, prop, ("caught" if p.returncode == 1 and v else "MISSED" if p.returncode == 0
                           else f"rc{p.returncode}"), info, time.time() - t0
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-a", action="store_true")
    ap.add_argument("-t", default="quick")
    ap.add_argument("-s", default="1")
    ap.add_argument("-d", default=VERIF + "/seeded")
    ap.add_argument("-p", default="")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(a.d))
    allp = [c["property"] if "property" in c else c["id"]
            for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    jobs = []
    for i in ids:
        m = f"{a.d}/{i}/meta.json"
        props = a.p.split(",") if a.p else allp if a.a or not os.path.exists(m) else [json.load(open(m))["property"]]
        jobs += [(i, p, a.t, a.s, a.d) for p in props]
    with cf.ThreadPoolExecutor(a.j) as ex:
        for b, p, r, info, dt in ex.map(one, jobs):
            if a.a and r == "MISSED" and not a.ids:
                continue
            print(f"{b:34s} {p} {r:7s} {dt:5.0f}s {info}", flush=True)


main()
