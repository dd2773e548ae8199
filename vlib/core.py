"""Runner: workloads -> monitors -> three-valued verdict -> evidence / replay.

A check module defines
    PROPERTY  id
    ANCHORS   files (relative to /repo/src/ellalgo) whose executed lines are recorded
    RULE      how cases are made and what makes one non-trivial
    FAMILIES  {name: (function(case), quick_count, thorough_count)}
    VOLUME    factor on the quick counts (optional)
    REQUIRED  {event: minimum count} -- fewer means the monitor was not reached
A family function drives the real code and raises Violation when an observed
execution contradicts the property.  Everything random comes from case.rng.
"""

import argparse
import ast
import hashlib
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback
import zlib
from collections import Counter

sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "ellalgo")
# never trust cached bytecode: same-second, same-size edits would be missed
sys.pycache_prefix = os.path.join(VERIF, ".no-pycache-here")
sys.path.insert(0, SRC)

import numpy as np  # noqa: E402


class Violation(Exception):
    """An observed execution that contradicts the property."""

    def __init__(self, what, **witness):
        super().__init__(what)
        self.what = what
        self.witness = witness


class InjectedFault(Exception):
    """Raised on purpose by a workload; must come back out unchanged."""


class Inconclusive(Exception):
    pass


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 400 else repr(x)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return repr(x)[:300]


class Case:
    """One execution: its random source and what its monitors recorded."""

    def __init__(self, prop, family, index, seed, tier, lits):
        self.prop, self.family, self.index = prop, family, index
        self.tier = tier
        self.lits = lits
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(f"{prop}/{family}".encode()), index]
        )
        self.counts = Counter()
        self.sig = None
        self.sample = None
        self.findings = {}

    def hit(self, event, k=1):
        self.counts[event] += k

    def signature(self, *parts):
        """Non-trivial behaviour class of this case (distinct ones are counted)."""
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        if self.sig is None:
            self.sig = set()
        self.sig.add(h)

    def show(self, **kw):
        if self.sample is None:
            self.sample = jsonable(kw)

    def finding(self, key, text):
        self.findings[key] = text

    # -- the dictionary (inputs only) ----------------------------------------
    def hot(self, lo, hi, default=None):
        """A magnitude in [lo, hi] at, just beside or beyond a constant that the source
        compares something with (or its square or root), or the default."""
        r = self.rng
        c = [v for h in self.lits.get("hot", ()) if h < 1e150 for v in (h, h, math.sqrt(h), h * h) if lo <= v <= hi]
        if not c:
            return default
        v = float(r.choice(c))
        u = r.random()
        s = float(r.choice([-1.0, 1.0]))
        if u < 0.15:
            v = v
        elif u < 0.3:
            v *= 1 + s * 1e-9
        elif u < 0.45:
            v *= 1 + s * 0.01
        elif u < 0.75:
            v *= 1 + s * float(r.uniform(0, 0.4))
        else:
            v *= 10.0 ** (s * float(r.uniform(0.1, 2.0)))
        return min(max(v, lo), hi)

    def hot_int(self, lo, hi, default=None):
        """A whole number in [lo, hi] at or beside a constant of the source's tests."""
        r = self.rng
        c = sorted(
            {
                k + d
                for h in self.lits.get("hot", ())
                if h < 1e9
                for k in (int(h), math.isqrt(int(h)))
                for d in (-1, 0, 1, 2)
                if lo <= k + d <= hi
            }
        )
        return int(r.choice(c)) if c else default

    def prelude(self, ask, p=0.03, top=700):
        """Now and then, many unjudged calls on the object before the judged ones
        (counters, caches and buffers that need a long past)."""
        r = self.rng
        if r.random() >= p:
            return 0
        k = int(10.0 ** r.uniform(1.0, np.log10(top)))
        if r.random() < 0.5:
            k = self.hot_int(3, 3 * top, k)
        for i in range(k):
            ask(i)
        self.hit("prelude", k)
        return k

    def decoys(self, make, args, alter, p=0.3):
        """Now and then, first build objects that differ from the one under test in exactly
        one argument (caches keyed by too little).  alter: {position: new value}."""
        if self.rng.random() >= p:
            return
        keep = self.__dict__.setdefault("_decoys", [])
        for _ in range(int(self.rng.integers(1, 3))):
            i = int(self.rng.choice(sorted(alter)))
            a = list(args)
            a[i] = alter[i](args[i])
            keep.append(self.sut(make, *a))
            self.hit("decoy")

    def reuse(self, key, x, p=0.3):
        """The caller's array: fresh, or (decided once per case and key) one array rewritten."""
        d = self.__dict__.setdefault("_arrays", {})
        x = np.asarray(x)
        if key not in d:
            d[key] = np.empty_like(x) if self.rng.random() < p else None
        b = d[key]
        if b is None or b.shape != x.shape or b.dtype != x.dtype:
            return x
        b[...] = x
        self.hit("array-rewritten")
        return b

    # -- convenience -------------------------------------------------------
    def sut(self, fn, *a, allow=(), **k):
        """Call the code under test; an exception not allowed is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, InjectedFault, Inconclusive):
            raise
        except allow:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            raise Violation(
                f"valid input raised {type(e).__name__}: {e}", where=where
            ) from e

    def check(self, ok, what, **wit):
        self.counts["checks"] += 1
        if not ok:
            raise Violation(what, **wit)


# ---------------------------------------------------------------- line coverage
class LineCov:
    """Executed lines of the anchored files (evidence, never a verdict)."""

    TOOL = 4

    def __init__(self, files):
        self.files = {os.path.join(PKG, f) for f in files}
        self.lines = {f: set() for f in self.files}

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(self.TOOL, "vcov")
        except ValueError:
            return
        files, lines, disable = self.files, self.lines, mon.DISABLE

        def on_line(code, line):
            f = code.co_filename
            if f in files:
                lines[f].add(line)
            return disable

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)

    @staticmethod
    def functions(path):
        """{qualname: executable lines} of every function in the file."""
        out = {}
        with open(path, "rb") as fh:
            code = compile(fh.read(), path, "exec", dont_inherit=True)

        def walk(c):
            for k in c.co_consts:
                if hasattr(k, "co_code"):
                    if k.co_flags & 0x2 and k.co_name != "<lambda>":  # a function
                        ls = {ln for _, _, ln in k.co_lines() if ln}
                        ls.discard(k.co_firstlineno)
                        if ls:
                            out[k.co_qualname] = ls
                    walk(k)

        walk(code)
        return out


_CONST = (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop)
_BOUNDS = {
    "min", "max", "range", "round", "isclose", "allclose", "clip", "maximum", "minimum",
    "full", "arange", "linspace", "fmin", "fmax", "islice", "lru_cache",
}


def _number(node):
    """The value of a constant numeric expression, or None."""
    if not isinstance(node, (ast.Constant, ast.BinOp, ast.UnaryOp)):
        return None
    for k in ast.walk(node):
        if not isinstance(k, _CONST):
            return None
        if isinstance(k, ast.Constant) and (
            isinstance(k.value, bool) or not isinstance(k.value, (int, float)) or abs(k.value) > 1e300
        ):
            return None
        if isinstance(k, ast.Pow) and len(ast.dump(node)) > 400:
            return None
    try:
        v = eval(compile(ast.Expression(node), "<c>", "eval"), {"__builtins__": {}})  # noqa: S307
        v = float(v)
    except Exception:  # noqa: BLE001
        return None
    return v if math.isfinite(v) else None


def literals():
    """Numeric literals of the current source: a fuzzing dictionary (inputs only).

    "hot" are the ones a value is compared with or bounded by."""
    ints, floats, hot = set(), set(), set()
    for top, _, names in os.walk(PKG):
        for nm in sorted(names):
            if not nm.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(top, nm), "rb").read())
            except SyntaxError:
                continue
            named = {}
            for node in ast.walk(tree):
                if isinstance(node, ast.Assign) and len(node.targets) == 1:
                    v = _number(node.value)
                    t = node.targets[0]
                    if v is not None and isinstance(t, (ast.Name, ast.Attribute)):
                        named[getattr(t, "id", None) or t.attr] = v

            def operand(node):
                v = _number(node)
                if v is None and isinstance(node, (ast.Name, ast.Attribute)):
                    v = named.get(getattr(node, "id", None) or getattr(node, "attr", None))
                if v is not None:
                    hot.add(abs(v))
                elif isinstance(node, ast.BinOp):
                    operand(node.left)
                    operand(node.right)

            for node in ast.walk(tree):
                if isinstance(node, ast.Compare):
                    for k in (node.left, *node.comparators):
                        operand(k)
                        if isinstance(k, (ast.Tuple, ast.List, ast.Set)):
                            for e in k.elts:
                                operand(e)
                elif isinstance(node, ast.BinOp) and isinstance(
                    node.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)
                ):
                    operand(node.right)
                elif isinstance(node, ast.Slice):
                    for k in (node.lower, node.upper, node.step):
                        if k is not None:
                            operand(k)
                elif isinstance(node, ast.Call):
                    f = node.func
                    if (getattr(f, "id", None) or getattr(f, "attr", None)) in _BOUNDS:
                        for k in (*node.args, *(w.value for w in node.keywords)):
                            operand(k)
                v = _number(node)
                if v is not None:
                    if v == int(v) and abs(v) < 10**6:
                        ints.add(int(v))
                        if 0 < abs(v) < 64:
                            floats.add(v)
                    else:
                        floats.add(v)
    return {
        "ints": sorted(ints),
        "floats": sorted(floats),
        "hot": sorted(h for h in hot if h not in (0.0, 1.0, 2.0)),
    }


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == prop and e["status"] == "known":
                out[e["key"]] = e["what"]
    return out


# ---------------------------------------------------------------- workers
CPU_LIMIT = 90.0


def _stuck(_sig, frame):
    f = frame
    while f is not None:
        if f.f_code.co_filename.startswith(PKG):
            raise Violation(
                f"no answer after {CPU_LIMIT:.0f} s of CPU time",
                where=f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}",
            )
        f = f.f_back


def run_case(mod, family, index, seed, tier, lits):
    fn = mod.FAMILIES[family][0]
    case = Case(mod.PROPERTY, family, index, seed, tier, lits)
    viol = None
    err = None
    t0 = time.perf_counter()
    # logical watchdog: CPU seconds spent inside the code under test (a case
    # normally needs well under a second or two), not wall-clock time
    signal.signal(signal.SIGPROF, _stuck)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 5.0)
    try:
        fn(case)
    except Violation as v:
        viol = {"what": v.what, "witness": jsonable(v.witness)}
    except InjectedFault as v:
        viol = {"what": f"injected fault escaped its scope: {v}", "witness": {}}
    except Inconclusive as v:
        case.hit("inconclusive:" + str(v)[:60])
    except (MemoryError, OSError):  # the sandbox, not the code under test
        err = traceback.format_exc()
    except Exception as e:  # noqa: BLE001
        # The monitor could not read what it observed (wrong type, shape, NaN...).
        # On the unchanged tree this never happens, so the observation is at fault.
        tb = traceback.extract_tb(e.__traceback__)
        viol = {
            "what": f"observation cannot be interpreted: {type(e).__name__}: {e}",
            "witness": [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-5:],
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return case, viol, err, time.perf_counter() - t0


def worker(modname, jobs, seed, tier, lits, deadline, out, slot):
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    mod = importlib.import_module(modname)
    cov = LineCov(mod.ANCHORS)
    cov.start()
    res = {
        "counts": Counter(),
        "sigs": set(),
        "samples": [],
        "viol": [],
        "errs": [],
        "findings": {},
        "done": Counter(),
        "skipped": 0,
        "slowest": (0.0, None),
    }
    for family, index in jobs:
        if time.time() > deadline:
            res["skipped"] += 1
            continue
        with open(slot, "w") as fh:  # what is running, for the watchdog
            fh.write(json.dumps([family, index]))
        case, viol, err, dt = run_case(mod, family, index, seed, tier, lits)
        res["counts"].update(case.counts)
        res["done"][family] += 1
        if case.sig:
            res["sigs"] |= case.sig
        if case.sample is not None and len(res["samples"]) < 2:
            res["samples"].append({"family": family, "index": index, **case.sample})
        res["findings"].update(case.findings)
        if dt > res["slowest"][0]:
            res["slowest"] = (dt, [family, index])
        if viol:
            res["viol"].append({"family": family, "index": index, **viol})
            if len(res["viol"]) >= 3:
                break
        if err:
            res["errs"].append({"family": family, "index": index, "tb": err})
            if len(res["errs"]) >= 3:
                break
    res["lines"] = {os.path.relpath(k, PKG): v for k, v in cov.lines.items()}
    import pickle

    with open(out, "wb") as fh:
        pickle.dump(res, fh)


def run_jobs(modname, jobs, seed, tier, lits, budget, nproc):
    """Fork workers, collect results, watch the clock (a timeout is inconclusive)."""
    import pickle
    import shutil
    import tempfile

    deadline = time.time() + budget
    tmp = tempfile.mkdtemp(prefix="vrun-")
    pids = {}
    try:
        for w in range(nproc):
            part = jobs[w::nproc]
            if not part:
                continue
            out = os.path.join(tmp, f"{w}.pkl")
            slot = os.path.join(tmp, f"{w}.cur")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    worker(modname, part, seed, tier, lits, deadline, out, slot)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (w, out, slot)
        results, stuck, crashed = [], [], []
        hard = deadline + max(60.0, 0.5 * budget)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > hard:
                    for p, (w, out, slot) in pids.items():
                        cur = open(slot).read() if os.path.exists(slot) else "?"
                        stuck.append(cur)
                        os.kill(p, 9)
                        os.waitpid(p, 0)
                    break
                time.sleep(0.02)
                continue
            if pid not in pids:
                continue
            w, out, slot = pids.pop(pid)
            if os.path.exists(out):
                with open(out, "rb") as fh:
                    results.append(pickle.load(fh))
            else:
                cur = open(slot).read() if os.path.exists(slot) else "?"
                crashed.append(f"worker {w} status {status} at {cur}")
        return results, stuck, crashed
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def merge(rs):
    tot = {
        "counts": Counter(),
        "sigs": set(),
        "samples": [],
        "viol": [],
        "errs": [],
        "findings": {},
        "done": Counter(),
        "skipped": 0,
        "lines": {},
        "slowest": (0.0, None),
    }
    for r in rs:
        tot["counts"].update(r["counts"])
        tot["sigs"] |= r["sigs"]
        tot["samples"] += r["samples"]
        tot["viol"] += r["viol"]
        tot["errs"] += r["errs"]
        tot["findings"].update(r["findings"])
        tot["done"].update(r["done"])
        tot["skipped"] += r["skipped"]
        tot["slowest"] = max(tot["slowest"], r["slowest"], key=lambda t: t[0])
        for f, ls in r["lines"].items():
            tot["lines"].setdefault(f, set()).update(ls)
    return tot


def partial_lines(tot):
    """Lines never executed, in functions that were entered at least once."""
    out = {}
    for f, hit in tot["lines"].items():
        path = os.path.join(PKG, f)
        if not os.path.exists(path):
            continue
        for q, ls in LineCov.functions(path).items():
            if q.endswith("__init__"):
                continue
            miss = ls - hit
            if miss and len(miss) < len(ls):
                out[f"{f}:{q}"] = sorted(miss)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()

    import ellalgo

    if not os.path.abspath(ellalgo.__file__).startswith(SRC + os.sep):
        print(f"ERROR: ellalgo comes from {ellalgo.__file__}", file=sys.stderr)
        return 2
    modname = f"checks.{a.property.lower()}"
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    lits = literals()

    if a.replay:
        r = json.load(open(a.replay))
        case, viol, err, dt = run_case(
            mod, r["family"], r["index"], r["seed"], r["tier"], r["lits"]
        )
        print(json.dumps({"violation": viol, "error": err}, indent=1))
        if viol:
            print(f"VIOLATION property={a.property} replay={a.replay}")
            return 1
        return 0 if not err else 2

    jobs = []
    fams = {k: v for k, v in mod.FAMILIES.items() if a.family in (None, k)}
    for fam, spec in fams.items():
        k = int(spec[1] * getattr(mod, "VOLUME", 1)) if tier == "quick" else spec[2]
        jobs += [(fam, i) for i in range(max(1, int(k * a.scale)))]
    # interleave families deterministically, so a deadline hits them evenly
    jobs.sort(key=lambda j: (zlib.crc32(f"{j[0]}{j[1]}".encode()), j))
    budget = 240.0 if tier == "quick" else 720.0
    rs, stuck, crashed = run_jobs(modname, jobs, a.seed, tier, lits, budget, a.jobs)
    tot = merge(rs)

    # code that was entered but has lines no execution reached: look harder
    extra = 0
    ext_budget = 25.0 if tier == "quick" else 100.0
    ext_t0 = time.time()
    skip_ok = getattr(mod, "UNREACHED_OK", ())
    while (
        not tot["viol"]
        and not tot["errs"]
        and not stuck
        and time.time() - ext_t0 < ext_budget
        and extra < 4
        and a.family is None
    ):
        miss = {
            k: v for k, v in partial_lines(tot).items() if not k.endswith(tuple(skip_ok))
        }
        if not miss:
            break
        extra += 1
        more = []
        for fam, spec in fams.items():
            k = spec[1]
            more += [(fam, 10_000_000 * extra + i) for i in range(k)]
        more.sort(key=lambda j: (zlib.crc32(f"{j[0]}{j[1]}".encode()), j))
        left = ext_budget - (time.time() - ext_t0)
        rs2, st2, cr2 = run_jobs(modname, more, a.seed, tier, lits, left, a.jobs)
        stuck += st2
        crashed += cr2
        skipped = tot["skipped"]
        tot = merge([tot] + rs2)
        tot["skipped"] = skipped

    known = known_findings(a.property)
    new = []
    for key, text in sorted(tot["findings"].items()):
        if key in known:
            print(f"KNOWN-FINDING: property={a.property} {known[key]}")
        else:
            new.append({"family": "finding", "index": -1, "what": text, "witness": key})
    viol = sorted(tot["viol"], key=lambda v: (v["family"], v["index"])) + new

    wall = time.time() - t0
    evals = sum(tot["done"].values())
    unmet = {
        ev: [tot["counts"].get(ev, 0), need]
        for ev, need in getattr(mod, "REQUIRED", {}).items()
        if tot["counts"].get(ev, 0) < need
    }
    files = {}
    for f, hit in sorted(tot["lines"].items()):
        path = os.path.join(PKG, f)
        allx = set()
        if os.path.exists(path):
            for ls in LineCov.functions(path).values():
                allx |= ls
        files[f] = {"executed": len(hit & allx), "executable": len(allx)}
    ev = {
        "property": a.property,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(tot["sigs"]),
            "rule": mod.RULE,
            "samples": tot["samples"][:6],
            "cases_per_family": dict(sorted(tot["done"].items())),
            "monitor_events": dict(sorted(tot["counts"].items())),
            "skipped_for_time": tot["skipped"],
            "extension_rounds": extra,
            "anchor_lines": files,
            "unreached_in_entered_functions": partial_lines(tot),
            "inconclusive_events": unmet,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(VERIF, "evidence", f"{a.property}.json")
    with open(epath + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(epath + ".tmp", epath)

    print(
        f"{a.property} {tier} seed={a.seed}: {evals} executions, "
        f"{len(tot['sigs'])} distinct, {tot['counts'].get('checks', 0)} oracle "
        f"evaluations, {wall:.1f}s"
    )
    if viol:
        v = viol[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{a.property}-{v['family']}-{v['index']}.json")
        with open(rp, "w") as fh:
            json.dump(
                {
                    "property": a.property,
                    "family": v["family"],
                    "index": v["index"],
                    "seed": a.seed,
                    "tier": tier,
                    "lits": lits,
                    "violation": v,
                    "others": viol[1:6],
                    "how": f"/opt/venv/bin/python /verif/run.py {a.property} --replay {rp}",
                },
                fh,
                indent=1,
            )
        print(json.dumps(v)[:1500])
        print(f"VIOLATION property={a.property} replay={rp}")
        return 1
    if tot["errs"]:
        print(tot["errs"][0]["tb"], file=sys.stderr)
        print("ERROR: harness error, no verdict", tot["errs"][0]["family"], file=sys.stderr)
        return 2
    if crashed or stuck:
        print(f"INCONCLUSIVE: workers lost {crashed} stuck {stuck}", file=sys.stderr)
        return 3
    if unmet and a.family is None and a.scale >= 1:
        print(f"INCONCLUSIVE: monitors not reached {unmet}", file=sys.stderr)
        return 4
    return 0
