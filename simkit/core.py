"""Seeds, run loop, minimiser, replay files, evidence."""
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SHIM_SRC = os.path.join(VERIF, "shim", "simfs.c")
PY = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
WALL_LIMIT = float(os.environ.get("VERIF_WALL", "780"))


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()[:8], "big")


def rng_of(*parts):
    return random.Random(seed_of(*parts))


def build_shim():
    src = open(SHIM_SRC, "rb").read()
    out = os.path.join(BUILD, "simfs-%s.so" % hashlib.sha256(src).hexdigest()[:12])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-Wno-nonnull-compare", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
                        "-o", tmp, SHIM_SRC], check=True)
        os.replace(tmp, out)
    return out


def worker_env(shim=True):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON") and k != "LD_PRELOAD"}
    env.update(PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONUNBUFFERED="1",
               PYTHONPATH=REPO + os.pathsep + VERIF, TZ="UTC", LC_ALL="C.UTF-8", TERM="dumb", COLUMNS="100", VERIF_REPO=REPO)
    if shim:
        env["LD_PRELOAD"] = build_shim()
    return env


class Res:
    """Outcome of executing one case."""

    __slots__ = ("violation", "info", "sig", "nontrivial", "fired", "simns", "steps", "digest", "probes")

    def __init__(self, violation=None, info=None, sig=None, nontrivial=True, fired=None, simns=0, steps=0, digest="", probes=()):
        self.violation, self.info, self.sig, self.nontrivial = violation, info or {}, sig, nontrivial
        self.fired, self.simns, self.steps, self.digest, self.probes = fired or {}, simns, steps, digest, probes


def viol(cls, msg, key=None):
    return {"class": cls, "msg": msg, "key": key or cls}


class HarnessError(Exception):
    pass


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


class BaseCheck:
    id = "?"
    level = "exploration"
    technique = "deterministic simulation with fault injection"
    shim = True
    rule = ""
    assumptions = ()
    real = ()
    stub = ()
    runs = {"quick": 100, "thorough": 2000}
    shrink_lists = ("faults", "ops")

    def setup(self):
        """Import the code under test (once per worker)."""

    def family(self, rng, i, tier):
        """Generator of cases; receives the Res of each case it yielded."""
        raise NotImplementedError

    def execute(self, case):
        raise NotImplementedError

    def brief(self, case):
        return case

    # ---- minimisation ----
    def _get(self, case, path):
        for p in path.split("."):
            if not isinstance(case, dict) or p not in case or case[p] is None:
                return None
            case = case[p]
        return case if isinstance(case, list) else None

    def _set(self, case, path, value):
        c = copy.deepcopy(case)
        d = c
        ps = path.split(".")
        for p in ps[:-1]:
            d = d[p]
        d[ps[-1]] = value
        return c

    def shrinks(self, case):
        for path in self.shrink_lists:
            lst = self._get(case, path)
            if not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                for s in range(0, n, size):
                    yield self._set(case, path, lst[:s] + lst[s + size:])
                size //= 2
        yield from self.shrink_values(case)

    def shrink_values(self, case):
        return ()

    def pin(self, case, res):
        """Turn random choices made in `res` into explicit ones (e.g. the schedule)."""
        if res.info.get("switches") is not None and case.get("schedule"):
            c = copy.deepcopy(case)
            c["schedule"] = {"switches": [list(x) for x in res.info["switches"]]}
            return c
        return case

    def minimise(self, case, res, budget=250, wall=float(os.environ.get("VERIF_SHRINK", "45"))):
        t0 = time.monotonic()
        cls = res.violation["class"]
        pinned = self.pin(case, res)
        if pinned is not case:
            r = self.execute(pinned)
            if r.violation and r.violation["class"] == cls:
                case, res = pinned, r
        used = 0
        progress = True
        while progress and used < budget and time.monotonic() - t0 < wall:
            progress = False
            for cand in self.shrinks(case):
                if used >= budget or time.monotonic() - t0 > wall:
                    break
                used += 1
                try:
                    r = self.execute(cand)
                except HarnessError:
                    continue
                except Exception:  # noqa: BLE001 - a shrunk case may be malformed
                    continue
                if r.violation and r.violation["class"] == cls:
                    case, res = cand, r
                    progress = True
                    break
        return case, res, used


def load_check(pid):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module(f"checks.{pid.lower()}").Check()


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


# ---------------------------------------------------------------------------------------------------
def worker_main(argv):
    pid, start, stride, total, seed, tier, out = argv[0], int(argv[1]), int(argv[2]), int(argv[3]), int(argv[4]), argv[5], argv[6]
    check = load_check(pid)
    check.setup()
    known = {f["key"]: f for f in known_findings(pid)}
    st = {"evaluations": 0, "families": 0, "fired": collections.Counter(), "sigs": set(), "steps": 0, "simns": 0, "samples": [],
          "probes": collections.Counter(), "violation": None, "known": {}, "digests": [], "complete": True, "error": None}
    t0 = time.monotonic()
    keep_digests = os.environ.get("VERIF_DIGESTS")
    try:
        for i in range(start, total, stride):
            gen = check.family(rng_of(seed, pid, i), i, tier)
            res = None
            st["families"] += 1
            fam = []
            while True:
                try:
                    case = gen.send(res)
                except StopIteration:
                    break
                pristine = json.loads(json.dumps(case))
                res = check.execute(case)
                st["evaluations"] += 1
                st["fired"].update(res.fired)
                st["probes"].update(res.probes)
                st["steps"] += res.steps
                st["simns"] += res.simns
                fam.append(res.digest)
                if res.nontrivial and res.sig is not None:
                    st["sigs"].add(digest(res.sig))
                if res.nontrivial and len(st["samples"]) < 2 and (i // stride) % 7 == 0:
                    st["samples"].append(check.brief(pristine))
                if res.violation:
                    if res.violation["key"] in known:
                        st["known"][res.violation["key"]] = st["known"].get(res.violation["key"], 0) + 1
                        continue
                    mcase, mres, used = check.minimise(pristine, res)
                    st["violation"] = {"run": i, "case": mcase, "original_case": pristine, "violation": mres.violation, "digest": mres.digest,
                                       "minimise_runs": used}
                    raise StopIteration
                if time.monotonic() - t0 > WALL_LIMIT:
                    st["complete"] = False
                    raise StopIteration
            if keep_digests:
                st["digests"].append((i, digest(fam)))
    except StopIteration:
        pass
    except HarnessError as e:
        import traceback
        st["error"] = "".join(traceback.format_exception(e))
    except Exception as e:  # noqa: BLE001
        import traceback
        st["error"] = "".join(traceback.format_exception(e))
    st["fired"] = dict(st["fired"])
    st["probes"] = dict(st["probes"])
    st["sigs"] = sorted(st["sigs"])
    st["wall"] = time.monotonic() - t0
    with open(out + ".part", "w") as f:
        json.dump(st, f, default=str)
    os.replace(out + ".part", out)


def run_workers(pid, tier, seed, total, jobs=None, shim=True, offset=0):
    import tempfile
    jobs = min(jobs or JOBS, max(1, total))
    tmp = tempfile.mkdtemp(prefix="objsim-")
    env = worker_env(shim)
    procs = []
    outs = []
    for j in range(jobs):
        out = os.path.join(tmp, f"w{j}.json")
        outs.append(out)
        err = open(os.path.join(tmp, f"w{j}.err"), "wb")
        procs.append(subprocess.Popen([PY, "-m", "simkit.worker", pid, str(j + offset), str(jobs), str(total + offset), str(seed), tier, out], cwd=VERIF, env=env,
                                      stdin=subprocess.DEVNULL, stdout=err, stderr=err))
    grace = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if grace is None:
            for out in outs:
                if os.path.exists(out) and '"violation": null' not in open(out).read():
                    grace = time.monotonic() + float(os.environ.get("VERIF_GRACE", "20"))
        elif time.monotonic() > grace:
            for p in procs:
                if p.poll() is None:
                    p.kill()
    rcs = [p.wait() for p in procs]
    res = []
    errors = []
    for j, out in enumerate(outs):
        tail = open(os.path.join(tmp, f"w{j}.err"), "rb").read()[-3000:].decode("utf8", "replace")
        if not os.path.exists(out):
            if grace is not None:
                continue
            errors.append(f"worker {j} ended with {rcs[j]} and no result: {tail}")
            continue
        r = json.load(open(out))
        if r["error"]:
            errors.append(f"worker {j}: {r['error']}\n{tail}")
        res.append(r)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return res, errors


def replay_case(pid, path, quiet=False):
    """Execute a replay file in a fresh process; returns (reproduced, text)."""
    p = subprocess.run([PY, "-m", "simkit.replay", path], cwd=VERIF, env=worker_env(True), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode == 1, p.stdout.decode("utf8", "replace")


def check_main(pid, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    print(f"{pid} tier={tier} VERIF_SEED={seed}")
    sys.stdout.flush()
    check = load_check(pid)
    t0 = time.time()
    total = int(os.environ.get("VERIF_RUNS", "0")) or check.runs[tier]
    res, errors = run_workers(pid, tier, seed, total, shim=check.shim)
    # ---- known findings: re-execute each stored case ----
    for f in known_findings(pid):
        p = os.path.join(BUILD, f"known-{f['id']}.json")
        os.makedirs(BUILD, exist_ok=True)
        json.dump({"property": pid, "case": f["case"], "violation": {"class": f["class"], "key": f["key"], "msg": ""}}, open(p, "w"))
        again, text = replay_case(pid, p)
        if again:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        else:
            print(f"note: known finding {f['id']} did not reproduce")
    viols = sorted((r["violation"] for r in res if r["violation"]), key=lambda v: v["run"])
    fired, probes = collections.Counter(), collections.Counter()
    sigs = set()
    for r in res:
        fired.update(r["fired"])
        probes.update(r["probes"])
        sigs.update(r["sigs"])
    wall = time.time() - t0
    evals = sum(r["evaluations"] for r in res)
    samples = [s for r in res for s in r["samples"]][:4]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(sigs),
            "rule": check.rule,
            "samples": samples,
            "workloads": sum(r["families"] for r in res),
            "runs_per_hour": int(evals / max(wall, 1e-3) * 3600),
            "seeds_per_hour": int(sum(r["families"] for r in res) / max(wall, 1e-3) * 3600),
            "simulated_seconds": round(sum(r["simns"] for r in res) / 1e9, 3),
            "simulator_steps": sum(r["steps"] for r in res),
            "faults_injected": dict(sorted(fired.items())),
            "rare_conditions_hit": dict(sorted(probes.items())),
            "ran_real": list(check.real),
            "ran_stub": list(check.stub),
            "workers": JOBS,
            "all_planned_runs_executed": all(r["complete"] for r in res),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {evals} runs in {ev['coverage']['workloads']} workloads, {len(sigs)} distinct, {sum(fired.values())} faults, {wall:.1f}s")
    if viols:
        v = viols[0]
        rdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{seed}-{v['run']}.json")
        json.dump({"property": pid, "seed": seed, "tier": tier, **v}, open(path, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v['violation']['class']}: {v['violation']['msg']}")
        print(f"  minimised in {v['minimise_runs']} runs to: {json.dumps(v['case'])[:1500]}")
        sys.stdout.flush()
        try:
            again, text = replay_case(pid, path)
            print("  replayed in a fresh process: " + ("same violation" if again else "NOT reproduced\n" + text[-1500:]))
        except Exception as e:  # noqa: BLE001 - the violation stands on its own
            print(f"  replay could not be run: {e!r}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors)[:6000])
        return 2
    if not all(r["complete"] for r in res):
        print("note: wall-clock limit reached before all planned runs were executed; the property held on everything explored")
    return 0


def replay_main(path):
    d = json.load(open(path))
    check = load_check(d["property"])
    check.setup()
    res = check.execute(d["case"])
    if res.violation:
        print(f"REPRODUCED {res.violation['class']}: {res.violation['msg']}")
        if d.get("digest") and d["digest"] != res.digest:
            print("note: event log differs from the recorded one")
        same = not d.get("violation") or d["violation"]["class"] == res.violation["class"]
        return 1 if same else 3
    print("no violation")
    return 0
