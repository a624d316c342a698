"""P11: a pickled checkpoint is the profile - crash, reload and go on as if nothing had happened."""
from .. import persist
from . import p01, p07

ID = "P11"
RUNS = {"quick": (350, 300), "thorough": (10000, 3000)}
RULE = (
    "one run = a delivery/merge history over several profiles with checkpoints; the process dies between operations or inside a save (open, n-th raw write, torn write, close; "
    "the unsynced tail may be lost), or a save fails; the last complete checkpoint is loaded and the client repeats the operations since; "
    "reports after loading and at the end must equal those of a world that never saved or died; non-trivial = at least one profile loaded"
)
STATES = "(profiles loaded, crashes, failed saves, nodes)"
REAL = p01.REAL + ["save, load, pickle"]
STUB = ["disk (every raw read/write goes through SimDisk)", "process death", "wall clock", "process-global randomness (seeded)", "no data labeler, no worker pool"]
SHRINK = [["ops"], ["faults"], ["rows"], ["ops", "*", 2], ["clock"]]
METHOD = "pickle"
KINDS = ["crash", "crash", "crash_torn", "eio", "enospc", "short", "torn"]


def plan(rng, tier, extra=None):
    p = p07.plan(rng, tier)
    p["opts"]["set"].pop("structured_options.datetime.is_enabled", None) if rng.random() < 0.3 else None
    if extra:
        p["opts"]["set"].update(rng.choice(extra))
    if rng.random() < 0.3:
        p["opts"]["set"]["structured_options.correlation.is_enabled"] = True
    p["ops"] = persist.ops_with_checkpoints(rng, p)
    n = sum(1 for o in p["ops"] if o[0] == "checkpoint")
    p["faults"] = []
    for c in range(n):
        if rng.random() < 0.35:
            op = rng.choice(["open_w", "write", "write", "write", "write", "close"])
            kind = rng.choice(KINDS)
            if "torn" in kind:
                kind += "@%d" % rng.choice([0, 10, 250, 500, 750, 990, 999])
            if op == "open_w":
                kind = rng.choice(["crash", "eacces", "enospc"])
            if op == "close":
                kind = rng.choice(["crash", "eio"])
            p["faults"].append(["save", c, rng.randint(0, 3), op, rng.choice([0, 0, 0, 1, 1, 2, 3, 5, 8, 13]) if op == "write" else 0, kind])
    p["buf"] = rng.choice([64, 512, 8192])
    p["keep"] = rng.choice([None, 0, 500, 900, 1000])
    p["loader"] = rng.randint(0, 2)
    p["raw"] = rng.random() < 0.3
    p["ctor"] = rng.choice([{}, {}, {}, {"min_true_samples": 3}, {"samples_per_update": 6}, {"samples_per_update": 2, "min_true_samples": 4}, {"samples_per_update": 1, "min_true_samples": 2}])
    if rng.random() < 0.06:  # enough rows that the sampling settings matter
        p["opts"]["set"]["structured_options.sampling_ratio"] = rng.choice([0.4, 0.6, 0.9])
        p["opts"]["set"]["structured_options.correlation.is_enabled"] = False
        p["ctor"] = {}
        d = [o for o in p["ops"] if o[0] == "deliver"][-2:]
        for o in d:
            o[3:] = ["reset", 11000 // max(1, len(o[2])) + 1]
    return p


def run(plan, env):
    persist.run_history(plan, env, METHOD)
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "loads", 0) > 0
