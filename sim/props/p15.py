"""P15: worker processes make no difference to the result, whatever they do."""
from .. import canon, fleet, gen
from ..core import Violation, call
from . import p07

ID = "P15"
RUNS = {"quick": (140, 300), "thorough": (4000, 3000)}
RULE = (
    "one run = batches of a table wide enough for the library to start its worker pools, profiled with the pools simulated (tasks cross a pickle boundary, complete in any order; "
    "pools that cannot be created, submissions refused, tasks failing before the work or losing their result, unknown CPU count or memory) and once more without pools; "
    "all reports must agree and no pool may be left open; non-trivial = at least one pool that ran a task"
)
STATES = "(pools, faults, out-of-order completions)"
REAL = ["StructuredProfiler update path, compilers, column profilers, pool sizing"]
STUB = ["worker processes (SimPool: in-process, one task at a time, pickled arguments and results)", "CPU and memory probes", "wall clock", "process-global randomness (seeded)"]
SHRINK = [["ops"], ["faults"], ["sched"], ["rows"], ["ops", "*", 2]]
EX = [
    {},
    {},
    {"structured_options.correlation.is_enabled": True},
    {"structured_options.chi2_homogeneity.is_enabled": True},
    {"structured_options.null_replication_metrics.is_enabled": True},
    {"structured_options.category.cms": True},
    {"structured_options.category.max_sample_size_to_check_stop_condition": 4, "structured_options.category.stop_condition_unique_value_ratio": 0.5},
    {"structured_options.row_statistics.unique_count.hashing_method": "hll"},
]


def plan(rng, tier):
    ncols = rng.choice([21, 21, 22, 24])
    nrows = rng.choice([3, 4, 6, 9])
    dates = rng.random() < 0.2
    kinds = ["int", "float", "cat", "text", "zero", "const", "intfloat", "negative", "date"] if dates else ["int", "int", "float", "float", "cat", "text", "mix", "zero", "nulls", "phase", "const", "intfloat", "offset", "negative"]
    ks, rows = gen.table(rng, ncols, nrows, kinds)
    opts = dict(rng.choice(EX))
    if not dates:
        opts["structured_options.datetime.is_enabled"] = False
    cols = ["c%02d" % i for i in range(ncols)]
    ids = list(range(nrows))
    ops = []
    for b in gen.batches(rng, ids, 3):
        perm = gen.perm(rng, ncols, 0.3)
        ops.append(["deliver", rng.choice(["a", "a", "b"]), b, "global", perm])
    if rng.random() < 0.4:
        ops.append(["merge", "a", "b", "c"])
        ops.append(["deliver", "c", rng.sample(ids, 2), "global", None])
    faults = []
    nf = rng.choice([0, 1, 2, 4, 8, 20])
    for _ in range(nf):
        what = rng.choice(["task", "task", "task", "task", "submit", "submit", "ctor"])
        pos = rng.randint(0, 3) if what == "ctor" else rng.randint(0, 130)
        faults.append(["pool", what, pos, rng.choice(["before", "oom_before", "after"]) if what == "task" else True])
    if rng.random() < 0.08:  # every worker is broken
        faults = [["pool", "task", k, "before"] for k in range(600)]
    host = {"cpus": rng.choice([1, 2, 4, 5, 8, 16]) if rng.random() < 0.3 else rng.choice([4, 5, 8]), "mem": rng.choice([1 << 20, 8 << 20, 256 << 20])}
    if rng.random() < 0.06:
        host["cpu_err"] = rng.choice(["none", "raise"])
    if rng.random() < 0.06:
        host["mem_err"] = True
    p = {"kinds": ks, "cols": cols, "rows": rows, "typed": {}, "opts": {"set": opts}, "ops": ops, "faults": faults, "host": host, "sched": [rng.randrange(1 << 16) for _ in range(rng.choice([0, 400, 1500]))]}
    if rng.random() < 0.2:
        p["opts"]["labeler"] = True
    if rng.random() < 0.15:
        p["ctor"] = {"min_true_samples": rng.choice([1, 3])}
    if rng.random() < 0.2:
        p.setdefault("ctor", {})["samples_per_update"] = rng.choice([1, 2, 4])
    p["clock"] = [[rng.randint(1, 400), rng.choice([-3600.0, 3600.0])] for _ in range(rng.choice([0, 0, 1]))]
    return p


def world(env, plan, pools):
    p = dict(plan)
    p["opts"] = dict(plan["opts"], set=dict(plan["opts"]["set"], **{"structured_options.multiprocess.is_enabled": pools}))
    fl = fleet.Fleet(env, p)
    for k, op in enumerate(plan["ops"]):
        env.reset_random(k)
        if op[0] == "deliver":
            fl.deliver(op[1], op[2], op[3], op[4])
        else:
            fl.merge(op[1], op[2], op[3])
        if pools:
            env.log(op[0], op[1])
            for pool in env.pool_list:
                if not pool.closed or pool.pending:
                    raise Violation("pool-left-open", f"after {op[0]} of node {op[1]}: a pool of {pool.n} workers is still running ({len(pool.pending)} tasks pending)")
    return fl


def run(plan, env):
    a = world(env, plan, True)
    env.tasks = sum(p.next for p in env.pool_list)
    n = len(env.pool_list)
    b = world(env, plan, False)
    if len(env.pool_list) != n:
        raise Violation("pool-not-wanted", "a worker pool was started with multiprocessing switched off")
    env.probe("pools_started", n)
    env.probe("tasks_run", env.tasks)
    for x in sorted(a.nodes):
        ra, rb = a.report(x), b.report(x)
        # precision statistics are rounded to a few figures, and ties fall either way
        d = canon.diff_reports(ra, rb, 1e-12, ignore={"precision"}) or canon.diff_reports(ra, rb, 0.1)
        if d:
            raise Violation("pool-changes-result:" + canon.strip_idx(d[0]), f"node {x}: {d[0]} is {d[1]!r} with worker pools, {d[2]!r} without")
        fleet.check_node_exact(a, x) if not a.ctor and "cms" not in str(plan["opts"]["set"]) and "stop_condition" not in str(plan["opts"]["set"]) else None
    env.state_keys.add(f"{n}/{sorted(env.faults)}/{env.probes.get('pool_out_of_order', 0) > 0}")
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "tasks", 0) > 0
