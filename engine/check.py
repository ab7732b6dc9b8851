"""Runs the scenarios of one property, replays counterexamples on the real code, writes evidence."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_PYTHON = "/opt/venv/bin/python"
EVID = os.path.join(ROOT, "evidence")


def thin(x, cap):
    """at most cap elements, the last one among them"""
    return [x[-1 - int(i * len(x) / cap)] for i in range(cap)][::-1] if len(x) > cap else x


class Scenario:
    """one symbolic harness: fn(ctx) raises on failure, returns a dict of measured facts"""

    def __init__(self, name, fn, args=(), cap=240, bounds=None):
        self.name = name
        self.fn = fn
        self.args = args
        self.cap = cap
        self.bounds = bounds


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay      # dict: payload of engine/replay_real.py


class Undecided(Exception):
    pass


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


class Ctx:
    """handed to a scenario"""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.functions = set()
        self.notes = set()
        self.samples = []
        self.paths = 0
        self.regions = 0
        self.claims = 0
        self.branches = 0
        self.traces = []
        self.later = []

    def world(self, salt=0):
        from . import sym, control
        W = sym.new_world(self.seed * 1000 + salt + 7)
        W.control = control.Control()
        return W

    def program(self):
        from . import loader
        return loader.Program()

    def traced(self, fn):
        """run fn recording which functions of /repo are executed"""
        seen = self.functions
        pre = os.path.join(REPO, "theboss")

        def prof(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(pre) and co.co_name != "<module>":
                    seen.add(os.path.relpath(co.co_filename, REPO) + ":" + co.co_qualname)
        sys.setprofile(prof)
        try:
            return fn()
        finally:
            sys.setprofile(None)

    def explore(self, fn, **k):
        from . import control
        first = [True]

        def run():
            if first[0]:
                first[0] = False
                return self.traced(fn)
            return fn()
        regs = control.explore(run, **k)
        self.regions += len(regs)
        self.paths += sum(len(r.leaves) for r in regs)
        self.branches += sum(len(lf.prefix) for r in regs for lf in r.leaves) + len(regs)
        return regs

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def validate(self, payload):
        """a concrete run of the real code at a sample point of this scenario, done by the parent:
        it must agree with the law the solver confirmed for the encoded code.  payload: a dict, or a function of the point"""
        if callable(payload):
            from checks.common import witness
            from . import sym
            if len(self.later) < 60:
                self.later.append((sym.W, payload))
            payload = payload(witness())
        if len(self.traces) < 400:
            self.traces.append(payload)

    def more_traces(self):
        """further points for a scenario that was not decided"""
        from . import sym, claims
        ls = thin(self.later, 6)
        for W, f in ls:
            sym.W = W
            for k in range(4 if len(ls) > 2 else 8):
                try:
                    self.traces.append(f(claims.points(1, base=1000 + sym.SALT + 4 * k + k)[0]))
                except BaseException:
                    pass


def _worker(job):
    modname, idx, tier, seed = job
    t0 = time.time()
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    out = {"idx": idx}
    ctx = Ctx(tier, seed)
    try:
        from . import control
        control.STATS.update(queries=0, solver_s=0.0, unknown=0, by_kind={})
        mod = importlib.import_module(modname)
        sc = mod.scenarios(tier)[idx]
        out["name"] = sc.name
        import zlib
        from . import sym
        sym.SALT = zlib.crc32(sc.name.encode()) % 1000
        out["bounds"] = sc.bounds
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(sc.cap))
        try:
            sc.fn(ctx, *sc.args)
            out["status"] = "held"
            if ctx.claims == 0:
                out["status"] = "undecided"
                out["why"] = "vacuous: no claim was put to the solver"
        finally:
            signal.alarm(0)
    except Violation as v:
        out["status"] = "violation"
        out["why"] = v.what
        out["replay"] = v.replay
    except Undecided as e:
        out["status"] = "undecided"
        out["why"] = str(e)
    except _Timeout:
        out["status"] = "undecided"
        out["why"] = "time limit of the scenario"
    except MemoryError:
        out["status"] = "undecided"
        out["why"] = "memory"
    except BaseException as e:
        from . import sym
        if isinstance(e, (sym.EngineStop, sym.P.PolyError)):
            out["status"] = "undecided"
            out["why"] = f"{type(e).__name__}: {e} at {_site(e)}"
        elif isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        else:
            out["status"] = "undecided"
            out["why"] = "check error: " + "".join(traceback.format_exception(e)[-6:])
    if out.get("status") == "undecided":
        ctx.more_traces()
    from . import control
    out.update(queries=control.STATS["queries"], solver_s=control.STATS["solver_s"],
               unknown=control.STATS["unknown"], by_kind=dict(control.STATS["by_kind"]),
               functions=sorted(ctx.functions), notes=sorted(ctx.notes), samples=ctx.samples,
               paths=ctx.paths, regions=ctx.regions, branches=ctx.branches, traces=thin(ctx.traces, 16 if out.get("status") == "undecided" else 4), claims=ctx.claims, wall=time.time() - t0)
    out.setdefault("name", f"#{idx}")
    return out


def _site(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/theboss/" in f.filename:
            return f"{os.path.relpath(f.filename, REPO)}:{f.lineno}"
    return "harness"


def run_replay(pid, k, payload, tmo=400):
    """True if the real code shows the failure"""
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{k}.json")
    payload = dict(payload)
    payload["property"] = pid
    with open(path, "w") as f:
        json.dump(payload, f, indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO)
    try:
        r = subprocess.run([REAL_PYTHON, os.path.join(ROOT, "engine", "replay_real.py"), path],
                           env=env, capture_output=True, text=True, timeout=tmo, cwd=ROOT)
    except subprocess.TimeoutExpired:
        return path, None, "replay timed out"
    out = (r.stdout + r.stderr).strip()
    if r.returncode == 1 and "REPRODUCED" in r.stdout:
        return path, True, out
    if r.returncode == 0:
        return path, False, out
    return path, None, out[-2000:]


def run_traces(pid, jobs, nproc, tmo):
    """[(scenario, payload)] on the real code, in a few processes; returns (agreed, failed, errors)"""
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1")
    nproc = max(1, min(nproc, (len(jobs) + 3) // 4))
    procs = []
    for k in range(nproc):
        part = jobs[k::nproc]
        path = os.path.join(d, f"{pid}-traces-{os.getpid()}-{k}.json")
        with open(path, "w") as f:
            json.dump([p for _, p in part], f)
        procs.append((part, path, subprocess.Popen(
            [REAL_PYTHON, os.path.join(ROOT, "engine", "replay_real.py"), "--batch", path, str(tmo)],
            env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=ROOT)))
    agreed, failed, errors = 0, [], []
    for part, path, pr in procs:
        try:
            out, _ = pr.communicate(timeout=tmo + 60)
        except subprocess.TimeoutExpired:
            pr.kill()
            out = ""
        res = {}
        for line in out.splitlines():
            if line.startswith("TRACE "):
                _, i, st, *msg = line.split(" ", 3)
                res[int(i)] = (st, msg[0] if msg else "")
        for i, (name, payload) in enumerate(part):
            st, msg = res.get(i, ("none", "not run"))
            if st == "agrees":
                agreed += 1
            elif st == "REPRODUCED":
                failed.append((name, payload, msg))
            else:
                errors.append((name, msg))
        if os.path.exists(path):
            os.unlink(path)
    return agreed, failed, errors


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                key, _, text = line.partition(f"property={pid} ")[2].partition(" :: ")
                key, _, how = key.partition(" ~ ")
                out.append((key.strip(), text.strip(), how.strip()))
    return out


def matching(known, name, out):
    """the known finding of that scenario that fails in that way"""
    return next((x for x in known if x[0] == name and x[2] in out), None)


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = argv[2] if len(argv) > 2 else None
    t0 = time.time()
    modname = f"checks.{pid.lower()}"
    mod = importlib.import_module(modname)
    scs = mod.scenarios(tier)
    idxs = [i for i, s in enumerate(scs) if only is None or only in s.name]
    idxs.sort(key=lambda i: "small" not in scs[i].name)         # the nearly degenerate matrices are cheap
    jobs = [(modname, i, tier, seed) for i in idxs]
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    budget = 560 if tier == "quick" else 6 * 3600
    end = t0 + 860 if tier == "quick" else t0 + 10 * 3600
    left_s = lambda: max(10, min(400, end - time.time()))
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        pend = {j[1]: pool.apply_async(_worker, (j,)) for j in jobs}
        got = {}
        nbad = 0
        while pend and time.time() - t0 < budget:
            for i in [i for i, a in pend.items() if a.ready()]:
                got[i] = pend.pop(i).get()
                nbad += got[i]["status"] == "violation"
                if nbad == 4 and tier == "quick":
                    budget = min(budget, time.time() - t0 + 20)     # enough counterexamples to replay
            time.sleep(0.02)
        for j in jobs:
            results.append(got.get(j[1]) or {"idx": j[1], "name": scs[j[1]].name, "status": "undecided",
                                             "why": "time budget of the check", "queries": 0, "solver_s": 0.0, "unknown": 0,
                                             "by_kind": {}, "functions": [], "notes": [], "samples": [], "paths": 0, "branches": 0,
                                             "traces": [], "regions": 0, "claims": 0, "wall": 0})
        pool.terminate()
    held = [r for r in results if r["status"] == "held"]
    bad = [r for r in results if r["status"] == "violation"]
    und = [r for r in results if r["status"] == "undecided"]
    known = load_known(pid)
    confirmed, unconfirmed, known_hit, dropped = [], [], [], []
    same_s = 0              # counterexamples at which the real code agreed
    for k, r in enumerate(bad):
        if len(confirmed) >= 2:
            break
        if len(unconfirmed) >= 6:
            break
        path, ok, out = run_replay(pid, k, r["replay"], left_s())
        r["replay_path"], r["replay_out"] = path, out
        if ok:
            kf = matching(known, r["name"], out)
            if kf:
                known_hit.append((kf, r))
            else:
                confirmed.append(r)
        else:
            same_s += ok is False
            unconfirmed.append(r)
            cand = {"scenario": r["name"], "why": "counterexample not reproduced on the real code (encoding mismatch): "
                    + r["why"]}
            dropped.append(cand)
    tr = [(r["name"], p) for r in results if r["status"] == "held" for p in r["traces"]]
    cap = 40 if tier == "quick" else 400

    # where the solver gave no verdict at least the concrete points are run
    tr = thin([(r["name"], {**p, "stat": True}) for r in results if r["status"] == "undecided" for p in r["traces"]], 5 * cap) + thin(tr, cap)
    agreed, tfailed, terrors = (0, [], [])
    if tr and not confirmed:
        agreed, tfailed, terrors = run_traces(pid, tr, nproc, (60 if not und else 120) if tier == "quick" else 600)
    for k, (name, payload, msg) in enumerate(tfailed[:2]):
        path, ok, out = run_replay(pid, f"t{k}", {**payload, "need_statistical": True}, left_s())
        if ok and not matching(known, name, out):
            confirmed.append({"name": name, "why": "the real code deviates at a sample point of the scenario: " + msg,
                              "replay_path": path, "replay_out": out})
    wall = time.time() - t0
    functions = sorted({f for r in results for f in r["functions"]})
    notes = sorted({n for r in results for n in r["notes"]})
    samples = [{"scenario": r["name"], "status": r["status"], "case": s} for r in results for s in r["samples"]][:12]
    if not samples:
        samples = [{"scenario": r["name"], "status": r["status"]} for r in results[:5]]
    kinds = {}
    for r in results:
        for k, v in r["by_kind"].items():
            kinds[k] = kinds.get(k, 0) + v
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["branches"] for r in results),
        "traces_validated_against_impl": agreed,
        "meaning": "states = complete symbolic paths through the code, transitions = decisions (random branches and "
                   "parameter case splits) taken on them, traces = concrete runs of the unmodified code at sample "
                   "points of the scenarios that agreed with the encoded behaviour",
        "assertions": sum(r["claims"] for r in results),
        "samples": samples,
        "scenarios": len(results), "scenarios_held": len(held), "scenarios_undecided": [
            {"scenario": r["name"], "why": r["why"][:400]} for r in und] + dropped,
        "bounds": sorted({str(r.get("bounds")) for r in results if r.get("bounds")}),
        "functions_encoded": functions,
        "traces_not_run": len(terrors),
        "decided_by_solver": bool(held),
        "parameter_regions": sum(r["regions"] for r in results),
        "solver": "z3 " + _z3version(), "queries_discharged": sum(r["queries"] for r in results),
        "queries_by_kind": kinds, "queries_unknown": sum(r["unknown"] for r in results),
        "solver_time_s": round(sum(r["solver_s"] for r in results), 3),
        "notes": notes,
        "slowest": [{"scenario": r["name"], "wall_s": round(r["wall"], 1)} for r in
                    sorted(results, key=lambda r: -r["wall"])[:5]],
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, "wall_s": round(wall, 2),
          "violations": len(confirmed)}
    if only is None:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {len(results)} scenarios, {len(held)} held, {len(bad)} violated, {len(und)} undecided; "
          f"{cov['assertions']} assertions, {cov['queries_discharged']} z3 queries, "
          f"{cov['solver_time_s']} s in z3, {agreed} traces validated, {wall:.1f} s wall")
    for name, msg in terrors[:5]:
        print(f"  trace not validated {name}: {msg[:300]}")
    for r in und:
        print(f"  undecided {r['name']}: {r['why'][:1500]}")
    for r in unconfirmed:
        print(f"  not reproduced on the real code {r['name']}: {r['why'][:600]}\n    {r['replay_out'][:600]}")
    for kf, r in known_hit:
        print(f"KNOWN-FINDING: property={pid} {kf[1]}")
    for r in confirmed:
        print(f"  {r['name']}: {r['why'][:800]}\n    replay: {r['replay_out'][:600]}")
    if confirmed:
        print(f"VIOLATION property={pid} replay={confirmed[0]['replay_path']}")
        return 1
    if not held and not known_hit:
        if agreed or same_s:
            # no verdict of the solver, no alarm either: only the concrete traces agreed (stated in the evidence)
            print("warning: no scenario was decided by the solver; only concrete traces agreed")
            return 0
        print("error: nothing was decided")
        return 2
    return 0


COMMON = [
    "arithmetic is exact: Python/numpy floats are modelled as exact real or complex numbers, rounding is outside the claim "
    "unless the scenario says so",
    "the pseudo-random generators are modelled as ideal: independent uniform draws",
    "process pools are modelled by running the tasks on copies of the bound object in submission order",
]


def _z3version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
