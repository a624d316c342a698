"""P01: batch arrival history does not change the exact statistics."""
from .. import fleet, gen

ID = "P01"
RUNS = {"quick": (1600, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = one table of 1-3 typed columns (with nulls, zeros, type changes mid-stream), split into batches that arrive at one node in a "
    "seeded order with observations in between and the clock jumping; non-trivial = at least two batches folded into one profile"
)
STATES = "(data type, batches, nulls?) per checked column"
REAL = ["StructuredProfiler and every column profiler, options, report formatting", "pandas/numpy"]
STUB = ["wall clock", "process-global randomness (seeded)", "no data labeler, no worker pool"]
SHRINK = [["ops"], ["rows"], ["ops", "*", 2], ["clock"]]
SWARM = [
    {},
    {},
    {"structured_options.datetime.is_enabled": False},
    {"structured_options.int.is_enabled": False},
    {"structured_options.datetime.is_enabled": False, "structured_options.category.is_enabled": False},
    {"structured_options.*.bias_correction.is_enabled": False},
    {"structured_options.order.is_enabled": False, "structured_options.datetime.is_enabled": False},
    {"structured_options.text.vocab.is_enabled": False},
]


def base_plan(rng, tier, maxrows=40):
    ncols = rng.choice([1, 1, 2, 2, 3])
    nrows = rng.choice([2, 3, 5, 8, 13, 20, maxrows])
    kinds = None
    if rng.random() < 0.3:
        kinds = rng.sample(gen.KINDS, 3)
    ks, rows = gen.table(rng, ncols, nrows, kinds)
    runs = rng.random() < 0.12
    if runs:  # sorted runs of rows that arrive out of turn
        ks[0] = "sorted"
        for row, x in zip(rows, gen.sorted_column(rng, nrows)):
            row[:] = [x] + row[1:]
    opts = dict(rng.choice(SWARM))
    if "structured_options.int.is_enabled" in opts and rng.random() < 0.5:
        opts["structured_options.float.is_enabled"] = False
    if rng.random() < 0.25:
        opts.update(gen.stat_toggles(rng))
    ospec = {"set": opts}
    if rng.random() < 0.12:
        nulls, colnulls = gen.null_options(rng, ncols)
        ospec.update({k: v for k, v in (("nulls", nulls), ("colnulls", colnulls)) if v})
    typed = {}
    for c in range(ncols):
        col = [r[c] for r in rows]
        if len(ospec) == 1 and rng.random() < 0.25:
            from ..refmodel import as_float, is_null

            if all((not is_null(s)) and as_float(s) is not None and as_float(s) == int(as_float(s)) for s in col):
                typed[str(c)] = "int"
            elif all(is_null(s) or as_float(s) is not None for s in col):
                typed[str(c)] = "float"
            elif rng.random() < 0.5:
                typed[str(c)] = "none"
    return {
        "kinds": ks,
        "cols": gen.names(rng, ncols, dup=rng.random() < 0.1),
        "rows": rows,
        "typed": typed,
        "opts": ospec,
        "runs": runs,
        "clock": [[rng.randint(1, 200), rng.choice([-3600.0, 3600.0, -5.0, 86400.0 * 400])] for _ in range(rng.choice([0, 0, 1, 2]))],
    }


def plan(rng, tier):
    p = base_plan(rng, tier)
    ids = list(range(len(p["rows"])))
    if rng.random() < 0.4:
        rng.shuffle(ids)
    bs = gen.piecewise(rng, len(ids)) if p["runs"] else gen.batches(rng, ids, 6)
    ops = []
    mode = rng.choice(["global", "reset", "global", "global", "dup", "str", "rev"])
    for b in bs:
        ops.append(["deliver", "n", b, mode])
        if rng.random() < 0.25:
            ops.append(["report", "n"])
    if rng.random() < 0.15 and bs:  # a batch redelivered: its rows count again
        ops.append(["deliver", "n", rng.choice(bs), mode])
    p["ops"] = ops
    return p


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    for op in plan["ops"]:
        env.log(*op[:2], len(op[2]) if len(op) > 2 else 0)
        if op[0] == "deliver":
            fl.deliver(op[1], op[2], op[3])
        elif op[0] == "report":
            fleet.check_node_exact(fl, op[1])
    for n in sorted(fl.nodes):
        fleet.check_node_exact(fl, n)
        nd = fl.nodes[n]
        for c in range(len(fl.cols)):
            m = fl.column_model(nd.rows, c)
            env.state_keys.add(f"{m.data_type()}/{nd.batches}/{bool(m.nulls)}")
            env.probe(f"type_{m.data_type()}")
    env.log("end", plan["rows"])


def nontrivial(plan, env):
    return env.steps >= 2
