"""Checkpoint / crash / restart engine shared by the persistence checks.

One simulated process holds all nodes.  A client delivers batches, merges
profiles and asks for checkpoints (every live node saved, each to its own file,
two generations of files used in turn).  A checkpoint counts once every save
has returned.  When the process dies - between operations or inside a save -
memory is lost, the last complete checkpoint is loaded and the client repeats
what it had asked for since.  The twin world never saves and never dies.
"""
import os

from . import canon, disk, fleet, gen
from .core import SimCrash, Violation, call
from .props import p07

FULL = {"times"}  # not compared


def ops_with_checkpoints(rng, p, p_crash=0.5):
    """Add checkpoints and crashes to a deliver/merge history."""
    out = []
    any_ck = False
    for op in p["ops"]:
        if op[0] == "report":
            continue
        out.append(op)
        if rng.random() < 0.35:
            out.append(["checkpoint"])
            any_ck = True
        if any_ck and rng.random() < p_crash * 0.5:
            out.append(["crash"])
    if not any_ck:
        out.insert(rng.randint(1, len(out)), ["checkpoint"])
    if rng.random() < p_crash or not any(o[0] == "crash" for o in out):
        out.append(["crash"])
    return out


def refusable(plan, method):
    """JSON cannot hold sketches or labelers that are not part of the library; saying so is fine."""
    o = plan["opts"]["set"]
    return method == "json" and bool(
        o.get("structured_options.category.cms")
        or o.get("structured_options.row_statistics.unique_count.hashing_method") == "hll"
        or plan["opts"].get("labeler")
    )


class World:
    def __init__(self, env, plan, method):
        self.env, self.plan, self.method = env, plan, method
        self.fl = fleet.Fleet(env, plan)
        env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan.get("buf", 512))
        self.gen = None  # last complete checkpoint: (generation, position, {node: meta})
        self.failed_saves = 0
        self.loads = 0
        self.crashes = 0

    # -------------------------------------------------------------- ops ----
    def apply(self, k, op):
        p07.salted(self.env, self.plan, self.fl, k, op)

    def file(self, g, n):
        return self.env.disk.path(f"ck{g % 2}_{n}")

    def save_node(self, g, n, faults):
        node = self.fl.nodes[n]
        path = self.file(g, n)
        self.env.disk.arm(faults)
        try:
            node.prof.save(path, save_method=self.method)
        finally:
            self.env.disk.faults = {}
        return path

    def checkpoint(self, k, faults_for):
        """True if complete.  SimCrash propagates."""
        env = self.env
        g = self.gen[0] + 1 if self.gen else 0  # never the slot of the last complete checkpoint
        for n in sorted(self.fl.nodes):
            faults = faults_for(n)
            before = sum(env.faults.values())
            try:
                self.save_node(g, n, faults)
            except SimCrash:
                raise
            except Exception as e:
                injected = sum(env.faults.values()) - before
                if not injected and refusable(self.plan, self.method):
                    env.probe("save_refused")
                    env.log("save", n, "refused")
                    return False
                if not injected:
                    raise Violation(f"unexpected-exception:save:{type(e).__name__}", f"saving node {n}: {e!r}") from e
                self.failed_saves += 1
                env.probe("save_failed_and_said_so")
                env.log("save", n, "failed")
                return False
        meta = {n: (list(x.rows), [list(l) for l in x.labels], x.merged, x.batches, x.order) for n, x in self.fl.nodes.items()}
        self.gen = (g, k, meta)
        env.disk.synced()
        env.log("checkpoint", g, sorted(meta))
        env.probe("checkpoint_complete")
        return True

    def load(self, path):
        env = self.env
        how = self.plan.get("loader", 0)
        cls = [env.dp.Profiler, env.dp.StructuredProfiler, env.dp.Profiler][how % 3]
        lm = [None, self.method, self.method.upper()][how % 3]
        self.loads += 1
        return call(env, "load", cls.load, path, lm)

    def restart(self, keep=None):
        """Memory is gone; come back from the last complete checkpoint."""
        env = self.env
        self.crashes += 1
        env.disk.restart(keep)
        self.fl = fleet.Fleet(env, self.plan)
        if self.gen is None:
            return 0
        g, k, meta = self.gen
        env.reset_random(777 + k)
        for n in sorted(meta):
            p = self.load(self.file(g, n))
            rows, labels, merged, batches, order = meta[n]
            self.fl.nodes[n] = fleet.Node(p, list(rows), [list(l) for l in labels], merged, batches, order=order)
        return k + 1


def reports(env, fl, fmt="serializable"):
    return {n: call(env, "report", fl.nodes[n].prof.report, {"output_format": fmt} if fmt else None) for n in sorted(fl.nodes)}


def compare(env, got, want, what, rel=0.0, skip=FULL, ignore=()):
    if sorted(got) != sorted(want):
        raise Violation("nodes", f"{what}: {sorted(got)} vs {sorted(want)}")
    for n in sorted(got):
        d = canon.diff_reports(got[n], want[n], rel, ignore=ignore, skip=skip)
        if d:
            raise Violation(f"{what}:" + canon.strip_idx(d[0]), f"node {n}: {d[0]} is {d[1]!r}, without the save/crash/load it is {d[2]!r}")


def run_history(plan, env, method, rel=0.0, skip=FULL, ignore=()):
    """Crash/restart history against the never-crashing twin."""
    ops = plan["ops"]
    # twin first: reports at every checkpoint position and at the end
    twin = fleet.Fleet(env, plan)
    at = {}
    for k, op in enumerate(ops):
        if op[0] in ("deliver", "merge"):
            p07.salted(env, plan, twin, k, op)
        elif op[0] == "checkpoint":
            at[k] = reports(env, twin)
    want = reports(env, twin)
    w = World(env, plan, method)
    faults = {}
    for f in plan.get("faults") or []:
        if f[0] == "save":
            faults.setdefault(int(f[1]), []).append(f[2:])
    ncp = 0
    k = 0
    crashed = set()
    steps = 0
    while k < len(ops):
        steps += 1
        if steps > 400:
            raise Violation("no-progress", "history does not finish")
        op = ops[k]
        if op[0] in ("deliver", "merge"):
            env.log(*[str(x)[:20] for x in op])
            w.apply(k, op)
        elif op[0] == "checkpoint":
            fs = faults.pop(ncp, [])
            ncp += 1

            def pick(n, fs=fs):
                return [[o, nth, kind] for (node, o, nth, kind) in fs if sorted(w.fl.nodes)[node % len(w.fl.nodes)] == n]

            try:
                w.checkpoint(k, pick)
            except SimCrash:
                env.log("died in save")
                k = w.restart(plan.get("keep"))
                if w.gen:
                    compare(env, reports(env, w.fl), at[w.gen[1]], "after-load", rel, skip, ignore)
                continue
        elif op[0] == "crash" and k not in crashed:
            crashed.add(k)
            env.fault("process_crash_between_operations")
            k = w.restart(None)
            env.log("restart at", k)
            if w.gen:
                compare(env, reports(env, w.fl), at[w.gen[1]], "after-load", rel, skip, ignore)
            continue
        k += 1
    compare(env, reports(env, w.fl), want, "at-end", rel, skip, ignore)
    if plan.get("raw"):
        compare(env, reports(env, w.fl, None), reports(env, twin, None), "at-end-raw", rel, skip, ignore)
    env.loads = w.loads
    env.state_keys.add(f"{w.loads}/{w.crashes}/{w.failed_saves}/{len(want)}")
    if w.loads:
        env.probe("reloaded_profiles", w.loads)
    return w, twin
