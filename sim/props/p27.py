"""P27: merging a list of profiles with worker processes equals merging them one after the other."""
from .. import canon, fleet, gen
from ..core import Violation, call
from . import p01

ID = "P27"
RUNS = {"quick": (500, 300), "thorough": (12000, 3000)}
RULE = (
    "one run = a table sharded over 1-6 profilers which are merged by merge_profile_list with simulated worker processes (pickle boundary, any completion order, pools that cannot be made, tasks that fail or lose their result), "
    "sometimes again after a failure or after further batches; the result must be the profile of all rows and equal to that of pairwise merging, a failure must raise, and in both cases the given profiles and the result go on "
    "exactly like the twin world's, data labels included; non-trivial = at least two profiles were merged"
)
STATES = "(profiles, faults, raised?, labeler?)"
REAL = p01.REAL + ["merge_profile_list, chunk, merge, data labelers of all profiles"]
STUB = ["worker processes (SimPool: in-process, one task at a time, pickled arguments and results)", "wall clock", "process-global randomness (seeded)"]
SHRINK = [["ops"], ["faults"], ["sched"], ["rows"], ["ops", "*", 2]]


def plan(rng, tier):
    p = p01.base_plan(rng, tier, 14)
    p["clock"] = []
    if rng.random() < 0.5:
        p["opts"]["labeler"] = True
        p["opts"]["set"].pop("structured_options.category.cms", None)
    if rng.random() < 0.25:
        p["opts"]["set"]["structured_options.correlation.is_enabled"] = True
    ids = list(range(len(p["rows"])))
    rng.shuffle(ids)
    names = "abcdef"[: rng.choice([1, 2, 2, 3, 3, 4, 5, 6])]
    ops = []
    for k, b in enumerate(gen.batches(rng, ids, 8)):
        ops.append(["deliver", names[k % len(names)], b])
    for _ in range(rng.choice([1, 1, 2])):
        ops.append(["list", rng.choice([1, 2, 5]), rng.sample(names, rng.randint(1, len(names))) if rng.random() < 0.3 else list(names)])
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(["deliver", rng.choice(list(names) + ["M", "M"]), rng.sample(ids, rng.randint(1, min(3, len(ids))))])
    p["ops"] = ops
    p["faults"] = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        what = rng.choice(["task", "task", "task", "submit", "ctor"])
        p["faults"].append(["pool", what, rng.randint(0, 3), rng.choice(["before", "oom_before", "after"]) if what == "task" else True])
    p["sched"] = [rng.randrange(1 << 16) for _ in range(60)]
    return p


def tree(fl, names):
    """Pairwise merging, in this process."""
    level = [fl.nodes[n] for n in names]
    while len(level) > 1:
        nxt = []
        for i in range(0, len(level), 2):
            if i + 1 == len(level):
                nxt.append(level[i])
                continue
            A, B = level[i], level[i + 1]
            q = call(fl.env, "merge", lambda: A.prof + B.prof)
            nxt.append(fleet.Node(q, A.rows + B.rows, [*A.labels, *B.labels], True, A.batches + B.batches, order=A.order))
        level = nxt
    return level[0]


def run(plan, env):
    from dataprofiler.profilers import profiler_utils

    fl, twin = fleet.Fleet(env, plan), fleet.Fleet(env, plan)
    env.merged = 0
    for k, op in enumerate(plan["ops"]):
        if op[0] == "deliver":
            for w in (fl, twin):
                if op[1] == "M" and "M" not in w.nodes:
                    continue
                env.reset_random(k)
                w.deliver(op[1], op[2], "global")
            continue
        names = [n for n in op[2] if n in fl.nodes]
        if not names:
            continue
        lst = [fl.nodes[n].prof for n in names]
        keep = list(lst)
        before = sum(env.faults.values())
        env.reset_random(k)
        raised = got = None
        try:
            got = profiler_utils.merge_profile_list(lst, pool_count=op[1])
        except Exception as e:
            raised = e
        new = sum(env.faults.values()) - before
        env.log("list", [[n, [plan["rows"][i] for i in fl.nodes[n].rows]] for n in names], new, type(raised).__name__)
        if raised is not None and not new:
            raise Violation(f"unexpected-exception:merge_profile_list:{type(raised).__name__}", f"merging {names}: {raised!r}")
        if lst != keep:
            raise Violation("list-changed", "the caller's list of profiles was changed")
        for pool in env.pool_list:
            if not pool.closed:
                raise Violation("pool-left-open", "a worker pool is still running")
        env.state_keys.add(f"{len(names)}/{sorted(env.faults)}/{type(raised).__name__}/{bool(plan['opts'].get('labeler'))}")
        if raised is None:
            env.merged += len(names) > 1
            rows = [i for n in names for i in fl.nodes[n].rows]
            env.reset_random(k)
            if len(names) > 1:
                fl.nodes["M"] = fleet.Node(got, rows, [], True, len(names), order=fl.nodes[names[0]].order)
                twin.nodes["M"] = tree(twin, names)
            elif got is not keep[0]:
                raise Violation("single", "a list of one profile did not give that profile")
        else:
            env.probe("merge_failed_and_said_so")
    for n in sorted(fl.nodes):
        a, b = fl.report(n), twin.report(n)
        skip = canon.SKIP | {"samples"} if isinstance(canon.SKIP, (set, frozenset)) else set(canon.SKIP) | {"samples"}
        d = canon.diff_reports(a, b, 1e-9, ignore={"precision"}, skip=skip)
        if d:
            raise Violation("merge-list:" + canon.strip_idx(d[0]).rsplit("/", 1)[-1], f"node {n}: {d[0]} is {d[1]!r:.200}, by pairwise merging {d[2]!r:.200}")
        if not set(plan["opts"]["set"]) & {"structured_options.category.cms"}:
            fleet.check_node_exact(fl, n, a)
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "merged", 0) > 0
