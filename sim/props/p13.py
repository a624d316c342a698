"""P13: a save that goes wrong says so and leaves the live profile as it was."""
import os

from .. import canon, disk, fleet, persist
from ..core import Violation, call
from . import p01, p07, p11

ID = "P13"
RUNS = {"quick": (500, 300), "thorough": (16000, 3000)}
RULE = (
    "one run = a delivery/merge history with saves (pickle, JSON, unknown method) at seeded moments, most of which meet a disk fault (open refused, disk full, I/O error, "
    "torn or short write, error at close); the twin world never saves. A hard fault must raise; a save that returns must have written the whole profile; no handle stays open; "
    "other saved files keep their bytes; later reports and data labels must equal the twin's; non-trivial = a save failed and the profile was used afterwards"
)
STATES = "(save method, fault, raised?, labeler?)"
REAL = p01.REAL + ["save, pickle, JSON encoder", "data labeler column profile with a regex labeler"]
STUB = ["disk", "wall clock", "process-global randomness (seeded)", "no worker pool"]
SHRINK = [["ops"], ["rows"], ["ops", "*", 2], ["clock"]]


def plan(rng, tier):
    p = p07.plan(rng, tier)
    if rng.random() < 0.4:
        p["opts"]["labeler"] = True
        p["opts"]["set"].pop("structured_options.category.cms", None)
    out, names = [], []
    for op in p["ops"]:
        if op[0] == "report":
            continue
        out.append(op)
        n = op[1] if op[0] == "deliver" else op[3]
        if n not in names:
            names.append(n)
        for _ in range(rng.choice([0, 1, 1])):
            x = rng.choice(["open_w", "write", "write", "write", "write", "close", "none"])
            kind = {"open_w": ["eacces", "enospc", "emfile"], "close": ["eio", "enospc"], "none": [None]}.get(x, ["eio", "enospc", "short", "torn@500", "torn@0", "torn@999"])
            f = [] if x == "none" else [[x, rng.choice([0, 0, 0, 0, 1, 2, 3]) if x == "write" else 0, rng.choice(kind)]]
            out.append(["save", rng.choice(names), rng.choice(["pickle", "pickle", "json", "json", "Pickle", "yaml"]), f, rng.randint(0, 1)])
    p["ops"] = out
    p["buf"] = rng.choice([64, 512, 8192])
    return p


def run(plan, env):
    ops = plan["ops"]
    twin = fleet.Fleet(env, plan)
    for k, op in enumerate(ops):
        if op[0] != "save":
            p07.salted(env, plan, twin, k, op)
    want = persist.reports(env, twin)
    fl = fleet.Fleet(env, plan)
    d = env.disk = disk.SimDisk(env, env.scratch + "/d", buf=plan.get("buf", 512))
    good = {}  # path -> bytes of a completed save
    failed, env.after = set(), 0
    for k, op in enumerate(ops):
        if op[0] != "save":
            env.log(op[0], op[1], str(op[2])[:20])
            p07.salted(env, plan, fl, k, op)
            env.after += bool(failed & set(op[1:3] if op[0] == "merge" else op[1:2]))
            continue
        _, n, method, faults, slot = op
        if n not in fl.nodes:
            continue
        path = d.path(f"{n}.{slot}")
        d.arm(faults)
        before = dict(env.faults)
        raised = None
        try:
            fl.nodes[n].prof.save(path, save_method=method)
        except Exception as e:
            raised = e
        d.arm([])
        new = {k2 for k2, v in env.faults.items() if v != before.get(k2, 0) and k2.startswith("disk")}
        hard = new - {"disk_short_write"}
        env.log("save", n, method, sorted(new), type(raised).__name__)
        if raised is not None and not hard and method != "yaml" and not persist.refusable(plan, method):
            raise Violation(f"unexpected-exception:save:{type(raised).__name__}", f"saving node {n} as {method} with {sorted(new)}: {raised!r}")
        if raised is None and hard:
            raise Violation("save-fault-swallowed", f"saving node {n} as {method} met {sorted(hard)} and returned normally")
        if raised is None and method == "yaml":
            raise Violation("unknown-save-method-accepted", f"save_method={method!r} returned normally")
        if d.open_handles():
            raise Violation("handle-left-open", f"saving node {n} as {method} with {sorted(new)}: {len(d.open_handles())} file(s) still open")
        d.handles = []
        good.pop(path, None)
        if raised is None:
            with open(path, "rb") as f:
                good[path] = f.read()
            if not plan["opts"].get("labeler"):
                q = call(env, "load", env.dp.Profiler.load, path)
                got = call(env, "report", q.report, {"output_format": "serializable"})
                df = canon.diff_reports(got, call(env, "report", fl.nodes[n].prof.report, {"output_format": "serializable"}), 1e-12, skip=persist.FULL)
                if df:
                    raise Violation("save-incomplete:" + canon.strip_idx(df[0]), f"node {n} saved as {method}, loaded again: {df[0]} is {df[1]!r}, should be {df[2]!r}")
                env.probe("save_verified")
            d.handles = []
        else:
            failed.add(n)
            env.probe("save_failed")
        env.state_keys.add(f"{method}/{sorted(new)}/{raised is not None}/{bool(plan['opts'].get('labeler'))}")
    for path, b in sorted(good.items()):
        with open(path, "rb") as f:
            if f.read() != b:
                raise Violation("other-file-changed", os.path.basename(path))
    persist.compare(env, persist.reports(env, fl), want, "live-profile-disturbed", 1e-12)
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "after", 0) > 0
