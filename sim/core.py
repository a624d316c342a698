"""Simulation core: seeded runs, parallel search, minimisation, replay, evidence."""
import contextlib
import copy
import hashlib
import importlib
import io
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT_S = int(os.environ.get("VERIF_RUN_LIMIT", "150"))  # real seconds per simulated run


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, str(detail)


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class _Hang(BaseException):
    pass


class SimCrash(BaseException):
    """The simulated process dies here; only durable state survives."""


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class Env:
    """Everything one simulated run may consult."""

    def __init__(self, prop, plan, dp, scratch):
        self.prop, self.plan, self.dp = prop, plan, dp
        self.scratch = scratch
        self.seed_int = int(plan.get("rseed", 0))
        self.clock = seams.Clock(jumps={int(k): v for k, v in (plan.get("clock") or [])})
        self.host = plan.get("host") or {"cpus": 1, "mem": 8 << 30}
        self.disk = None
        self.net = None
        self.events = []
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.pools = 0
        self.pool_list = []
        self._sched = list(plan.get("sched") or [])
        self._si = 0
        self._pool_faults = {}
        for f in plan.get("faults") or []:
            if f and f[0] == "pool":
                self._pool_faults.setdefault(f[1], {})[int(f[2])] = f[3] if len(f) > 3 else True
        self._pool_ctr = {}
        self.state_keys = set()
        self.cache = {}

    # -- recording (never draws randomness)
    def log(self, *ev):
        self.events.append(ev)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.events.append(("fault", kind))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, kind, detail=""):
        raise Violation(kind, detail)

    # -- scheduler decisions, consumed from the plan
    def decide(self, n):
        if n <= 1:
            return 0
        if self._si < len(self._sched):
            v = self._sched[self._si] % n
        else:
            v = 0
        self._si += 1
        return v

    def cpus(self):
        if self.host.get("cpu_err"):
            self.fault("host_cpus_unknown")
            if self.host["cpu_err"] == "none":
                return None
            raise NotImplementedError("injected: platform not supported")
        return self.host["cpus"]

    # -- pool
    def pool_pick(self, n):
        return self.decide(n)

    def pool_coin(self):
        return self.decide(4) == 3

    def pool_delay(self):
        return 0.01 * (1 + self.decide(50))

    def pool_shuffle(self, n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(self.decide(len(left))))
        return out

    def _tick(self, what):
        i = self._pool_ctr.get(what, 0)
        self._pool_ctr[what] = i + 1
        return i

    def pool_fault(self, what):
        return bool(self._pool_faults.get(what, {}).get(self._tick(what)))

    def pool_task_fault(self, tid):
        return self._pool_faults.get("task", {}).get(self._tick("task"))

    def digest(self):
        return hashlib.sha1(repr(self.events).encode()).hexdigest()[:16]

    def reset_random(self, salt=0):
        import numpy as np

        s = (self.seed_int * 2654435761 + salt * 97 + 12345) % (2**31 - 1)
        random.seed(s)
        np.random.seed(s)
        self.dp.set_seed(s)


# ------------------------------------------------------------ single run ----
def run_plan(mod, plan, dp):
    """Execute one plan.  Returns dict(status, kind, detail, ...)."""
    plan = copy.deepcopy(plan)
    scratch = tempfile.mkdtemp(prefix="dpsim_")
    env = Env(mod.ID, plan, dp, scratch)
    prev = seams.CURRENT
    out = {"status": "ok", "kind": None, "detail": None}

    def on_alarm(*_):
        raise _Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(RUN_LIMIT_S)
    try:
        env.reset_random()
        seams.CURRENT = env
        with contextlib.redirect_stdout(_Null()):
            mod.run(plan, env)
    except Violation as v:
        out.update(status="violation", kind=v.kind, detail=v.detail[:2000])
    except _Hang:
        out.update(status="violation", kind="no-progress", detail=f"run exceeded {RUN_LIMIT_S}s of real time")
    except HarnessError as e:
        out.update(status="harness", kind="harness", detail=str(e)[:2000])
    except MemoryError as e:
        out.update(status="harness", kind="harness", detail="MemoryError " + traceback.format_exc()[-1500:])
    except (Exception, SimCrash) as e:
        where = lib_frame(e)
        if where and not isinstance(e, SimCrash):
            # the code under test raised where the scenario allows no error
            out.update(status="violation", kind=f"unexpected-exception:{type(e).__name__}", detail=f"{e!r} at {where}")
        elif isinstance(e, (TypeError, KeyError, IndexError, AttributeError, ValueError, ArithmeticError, StopIteration)):
            # what the code under test returned is not of the form the oracle can read (never on a sound tree)
            f = traceback.extract_tb(e.__traceback__)[-1]
            out.update(status="violation", kind=f"malformed-result:{type(e).__name__}:{f.name}", detail=traceback.format_exc()[-2000:])
        else:
            out.update(status="harness", kind=type(e).__name__, detail=traceback.format_exc()[-2500:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        seams.CURRENT = prev
        if env.net is not None:
            env.net.shutdown()
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(
        digest=env.digest(),
        faults=env.faults,
        probes=env.probes,
        sim_s=env.clock.elapsed if env.clock else 0.0,
        events=len(env.events),
        steps=env.steps,
        states=sorted(env.state_keys),
        nontrivial=bool(mod.nontrivial(plan, env)) if hasattr(mod, "nontrivial") else env.steps >= 2,
    )
    if os.environ.get("VERIF_TRACE"):
        out["log"] = [repr(e) for e in env.events]
    return out


def make_plan(mod, seed, i, tier):
    rng = random.Random(f"{seed}:{mod.ID}:{i}")
    plan = mod.plan(rng, tier)
    plan.setdefault("rseed", rng.randrange(1 << 30))
    plan["run"] = i
    plan["seed"] = seed
    return json.loads(json.dumps(plan))


def lib_frame(e):
    """file:function of the innermost frame of the code under test, or ''."""
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if "/dataprofiler/" in f.filename and "/tests/" not in f.filename:
            return f"{os.path.basename(f.filename)}:{f.name}"
    return ""


def call(env, what, fn, *a, **k):
    """Call code under test in a fault-free position: any exception is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raise Violation(f"unexpected-exception:{what}:{type(e).__name__}", f"{e!r} at {lib_frame(e)}") from e


# --------------------------------------------------- a second process ------
_twins = {}


def twin_call(env, plan, arg):
    """Run the property's `twin(env, plan, arg)` in a helper process whose string hashing differs."""
    pid = os.getpid()
    p = _twins.get(pid)
    if p is None or p.poll() is not None:
        e = dict(os.environ, VERIF_HASHSEED="4242", VERIF_TWIN="1")
        p = _twins[pid] = subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "check.py"), env.prop, "--twin"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True
        )
    p.stdin.write(json.dumps([plan, arg]) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("the helper process died")
    st, val = json.loads(line)
    if st == "violation":
        raise Violation(val[0], "in the other process: " + val[1])
    if st != "ok":
        raise HarnessError(val)
    return val


def twin_loop(pid):
    from . import boot

    dp = boot.boot()
    mod = load_mod(pid)
    if hasattr(mod, "setup"):
        mod.setup(dp)
    real_out = sys.stdout
    for line in sys.stdin:
        plan, arg = json.loads(line)
        box = {}

        class One:
            ID = pid
            nontrivial = None

            @staticmethod
            def run(plan, env):
                box["v"] = mod.twin(env, plan, arg)

        One.nontrivial = staticmethod(lambda plan, env: False)
        r = run_plan(One, plan, dp)
        if r["status"] == "ok":
            res = ["ok", box["v"]]
        elif r["status"] == "violation":
            res = ["violation", [r["kind"], r["detail"]]]
        else:
            res = ["harness", r["detail"]]
        real_out.write(json.dumps(res) + "\n")
        real_out.flush()
    return 0


# ------------------------------------------------------------ parallel -----
def _worker(mod, dp, seed, tier, idxs, deadline, wfd, keep_digest):
    w = os.fdopen(wfd, "wb", buffering=0)
    for i in idxs:
        if seams.REAL_TIME() > deadline:
            w.write((json.dumps({"i": i, "status": "skipped"}) + "\n").encode())
            continue
        try:
            plan = make_plan(mod, seed, i, tier)
            r = run_plan(mod, plan, dp)
        except BaseException:
            r = {"status": "harness", "kind": "plan", "detail": traceback.format_exc()[-2000:]}
        r["i"] = i
        r.pop("log", None)
        w.write((json.dumps(r) + "\n").encode())
        if r["status"] in ("violation", "harness") and not keep_digest:
            # later indices of this worker cannot be reported first anyway
            break
    w.close()


def sweep(mod, dp, seed, tier, runs, workers, wall_cap, start=0, survey=False):
    """Run `runs` seeded runs over forked workers; returns list of results."""
    deadline = seams.REAL_TIME() + wall_cap
    procs = {}
    for wk in range(workers):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in procs:
                    os.close(fd)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _worker(mod, dp, seed, tier, range(start + wk, start + runs, workers), deadline, w, survey)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        procs[r] = [pid, b""]
    results, dead = [], []
    open_fds = set(procs)
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in rd:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                procs[fd][1] += chunk
                *lines, rest = procs[fd][1].split(b"\n")
                procs[fd][1] = rest
                results.extend(json.loads(x) for x in lines if x)
            else:
                open_fds.discard(fd)
                os.close(fd)
                _, st = os.waitpid(procs[fd][0], 0)
                if st != 0:
                    dead.append(st)
    results.sort(key=lambda r: r["i"])
    return results, dead


# ---------------------------------------------------------- minimisation ----
def _get(plan, path):
    x = plan
    for p in path:
        x = x[p]
    return x


def _with(plan, path, val):
    q = copy.deepcopy(plan)
    x = q
    for p in path[:-1]:
        x = x[p]
    x[path[-1]] = val
    return q


def _list_paths(mod, plan):
    """Concrete paths of the shrinkable lists, `*` expanded."""
    out = []

    def rec(prefix, rest):
        if not rest:
            if isinstance(_get(plan, prefix), list):
                out.append(prefix)
            return
        cur = _get(plan, prefix) if prefix else plan
        if rest[0] == "*":
            if isinstance(cur, list):
                for k in range(len(cur)):
                    rec(prefix + [k], rest[1:])
            elif isinstance(cur, dict):
                for k in cur:
                    rec(prefix + [k], rest[1:])
        elif isinstance(cur, dict) and rest[0] in cur or (
            isinstance(cur, list) and isinstance(rest[0], int) and rest[0] < len(cur)
        ):
            rec(prefix + [rest[0]], rest[1:])

    for p in getattr(mod, "SHRINK", [["ops"], ["faults"], ["sched"], ["clock"]]):
        try:
            rec([], list(p))
        except (KeyError, TypeError, IndexError):
            pass
    return out


def minimise(mod, dp, plan, kind, budget_s):
    """ddmin over every shrinkable list while the same violation kind persists."""
    t_end = seams.REAL_TIME() + budget_s
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        try:
            r = run_plan(mod, p, dp)
        except BaseException:
            return False
        return r["status"] == "violation" and r["kind"] == kind

    best = plan
    changed = True
    while changed and seams.REAL_TIME() < t_end:
        changed = False
        for path in _list_paths(mod, best):
            try:
                lst = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst and seams.REAL_TIME() < t_end:
                k = 0
                hit = False
                while k < len(lst) and seams.REAL_TIME() < t_end:
                    cand = lst[:k] + lst[k + n :]
                    q = _with(best, path, cand)
                    if fails(q):
                        best, lst, hit, changed = q, cand, True, True
                    else:
                        k += n
                if n == 1 and not hit:
                    break
                n = n // 2 if n > 1 else (1 if hit else 0)
        for q in (mod.simplify(best) if hasattr(mod, "simplify") else ()):
            if seams.REAL_TIME() > t_end:
                break
            if q != best and fails(q):
                best, changed = q, True
                break
    return best, tries


# ---------------------------------------------------------------- driver ----
def load_mod(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def known_findings(pid):
    """Lines of known-findings.txt for this property: (file, text)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in seams.REAL_OPEN(p):
            line = line.strip()
            if line.startswith("finding: ") and f"property={pid} " in line:
                parts = line.split(" ", 3)
                wit = parts[2].split("=", 1)[1]
                out.append((wit, parts[3]))
    return out


def check(pid, tier, seed, runs=None, workers=None, wall=None):
    from . import boot

    t0 = seams.REAL_TIME()
    dp = boot.boot()
    mod = load_mod(pid)
    if hasattr(mod, "setup"):
        mod.setup(dp)
    cfg = mod.RUNS[tier]
    runs = runs or cfg[0]
    wall = wall or cfg[1]
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    print(f"[{pid}] tier={tier} VERIF_SEED={seed} runs={runs} workers={workers}", flush=True)

    # known findings: their witnesses are replayed, never searched for
    for wit, text in known_findings(pid):
        with seams.REAL_OPEN(os.path.join(VERIF, wit)) as f:
            w = json.load(f)
        r = run_plan(mod, w["plan"], dp)
        if r["status"] == "violation" and r["kind"] == w["kind"]:
            print(f"KNOWN-FINDING: property={pid} {text}", flush=True)
        elif r["status"] == "violation":
            return _report(mod, dp, pid, tier, seed, [dict(r, i=-1)], [], t0, runs, workers, plan=w["plan"])

    results, dead = sweep(mod, dp, seed, tier, runs, workers, wall)
    return _report(mod, dp, pid, tier, seed, results, dead, t0, runs, workers)


def _report(mod, dp, pid, tier, seed, results, dead, t0, runs, workers, plan=None):
    done = [r for r in results if r["status"] != "skipped"]
    bad = [r for r in done if r["status"] == "violation"]
    harness = [r for r in done if r["status"] == "harness"]
    faults, probes = {}, {}
    for r in done:
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
    digests = {r["digest"] for r in done if r.get("nontrivial") and r.get("digest")}
    states = set()
    for r in done:
        states.update(r.get("states") or ())
    wall_s = seams.REAL_TIME() - t0
    samples = []
    for r in done[:2]:
        if r["i"] >= 0:
            p = json.dumps(make_plan(mod, seed, r["i"], tier))
            samples.append({"run": r["i"], "digest": r.get("digest"), "plan": p[:1500] + ("..." if len(p) > 1500 else "")})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": samples,
            "runs_per_hour": round(len(done) / max(wall_s, 1e-6) * 3600),
            "simulated_seconds": round(sum(r.get("sim_s") or 0 for r in done), 3),
            "simulated_events": sum(r.get("events") or 0 for r in done),
            "fault_kinds_injected": faults,
            "rare_condition_probes": probes,
            "distinct_states": len(states),
            "distinct_measure": "distinct = sha1 of the run's full event log (operations, deliveries, scheduling choices, faults); states = "
            + getattr(mod, "STATES", "not tracked"),
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
            "runs_requested": runs,
            "runs_skipped_by_wall_cap": len(results) - len(done),
            "workers": workers,
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall_s, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")

    def write():
        with seams.REAL_OPEN(path, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)

    rc = 0
    if bad:
        v = bad[0]
        p = plan if plan is not None else make_plan(mod, seed, v["i"], tier)
        budget = float(os.environ.get("VERIF_MIN_S", "60" if tier == "quick" else "240"))
        small, tries = minimise(mod, dp, p, v["kind"], budget)
        fin = run_plan(mod, small, dp)
        rp = os.path.join(replay_dir(), f"{pid}-{seed}-{v['i']}.json")
        with seams.REAL_OPEN(rp, "w") as f:
            json.dump(
                {"property": pid, "seed": seed, "run": v["i"], "kind": v["kind"], "detail": fin["detail"], "digest": fin["digest"], "plan": small},
                f,
                indent=1,
            )
        sub = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay", rp],
            capture_output=True,
            text=True,
        )
        ok = sub.returncode == 1 and f"digest={fin['digest']}" in sub.stdout
        ev["coverage"]["replay_reproduced_in_fresh_process"] = ok
        ev["coverage"]["minimise_tries"] = tries
        ev["coverage"]["violation"] = {"kind": v["kind"], "detail": (fin["detail"] or v["detail"])[:800]}
        print(f"  violation run={v['i']} kind={v['kind']}")
        print(f"  {(fin['detail'] or v['detail'] or '')[:1200]}")
        print(f"  minimised in {tries} runs; fresh-process replay reproduces exactly: {ok}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        rc = 1
    elif harness or dead:
        for h in harness[:3]:
            print(f"HARNESS-ERROR run={h['i']} {h['kind']}\n{h['detail']}", file=sys.stderr)
        if dead:
            print(f"HARNESS-ERROR worker died: {dead}", file=sys.stderr)
        rc = 2
    write()
    print(
        f"[{pid}] {len(done)} runs, {len(digests)} distinct non-trivial histories, faults={sum(faults.values())} "
        f"{json.dumps(faults, sort_keys=True)} probes={json.dumps(probes, sort_keys=True)} wall={wall_s:.1f}s rc={rc}",
        flush=True,
    )
    return rc


def survey(pid, tier, seed, runs, workers):
    """Development aid: run everything, list violation kinds."""
    from . import boot

    dp = boot.boot()
    mod = load_mod(pid)
    if hasattr(mod, "setup"):
        mod.setup(dp)
    t0 = seams.REAL_TIME()
    res, dead = sweep(mod, dp, seed, tier, runs, workers or 8, 1e9, survey=True)
    kinds = {}
    faults, probes = {}, {}
    for r in res:
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in (r.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
        if r["status"] != "ok":
            kinds.setdefault((r["status"], r["kind"]), []).append((r["i"], r["detail"]))
    for k, v in sorted(kinds.items(), key=lambda kv: -len(kv[1])):
        print(len(v), k, [i for i, _ in v[:6]])
        print("      ", v[0][1][-700:])
    print("runs", len(res), "dead", dead, "wall", round(seams.REAL_TIME() - t0, 1), faults, probes,
          "digest", hashlib.sha1("".join(str(r.get("digest")) for r in res).encode()).hexdigest()[:12])


def replay(pid, path):
    from . import boot

    dp = boot.boot()
    mod = load_mod(pid)
    if hasattr(mod, "setup"):
        mod.setup(dp)
    with seams.REAL_OPEN(path) as f:
        w = json.load(f)
    r = run_plan(mod, w["plan"], dp)
    print(f"[{pid}] replay status={r['status']} kind={r['kind']} digest={r['digest']}")
    print(r["detail"])
    for e in r.get("log", []):
        print("   ", e)
    if r["status"] == "violation":
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def selftest():
    from . import boot

    dp = boot.boot()
    mod = load_mod("P01")
    plan = make_plan(mod, 1, 0, "quick")
    a, b = run_plan(mod, plan, dp), run_plan(mod, plan, dp)
    print("package", os.path.dirname(dp.__file__), "run repeats:", a["digest"] == b["digest"], a["status"])
    return 0
