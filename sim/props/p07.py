"""P07: merging never disturbs the profiles that are merged, nor the result afterwards."""
from .. import canon, fleet, gen
from ..core import Violation, call
from . import p01

ID = "P07"
RUNS = {"quick": (420, 300), "thorough": (10000, 3000)}
RULE = (
    "one run = several nodes that receive batches, are merged and go on receiving batches, executed twice: once as planned and once for every node alone, "
    "in a world where no other node touches its operands; every full report must agree; non-trivial = a merge followed by an update of an operand or of the result"
)
STATES = "(operand updated?, result updated?, observed between?)"
REAL = p01.REAL
STUB = p01.STUB
SHRINK = p01.SHRINK
EXTRA = [
    {},
    {},
    {"structured_options.row_statistics.unique_count.hashing_method": "hll"},
    {"structured_options.category.cms": True, "structured_options.category.cms_max_num_heavy_hitters": 3},
    {"structured_options.category.top_k_categories": 2},
    {"structured_options.category.max_sample_size_to_check_stop_condition": 4, "structured_options.category.stop_condition_unique_value_ratio": 0.5},
    {"structured_options.null_replication_metrics.is_enabled": True},
    {"structured_options.chi2_homogeneity.is_enabled": True},
    {"structured_options.correlation.is_enabled": True},
    {"structured_options.*.histogram_and_quantiles.bin_count_or_method": 5},
]


def plan(rng, tier):
    p = p01.base_plan(rng, tier, 24)
    ex = rng.choice(EXTRA)
    if p["opts"]["set"].get("structured_options.category.is_enabled") is False:
        ex = {}
    p["opts"]["set"].update(ex)
    if rng.random() < 0.12 and "structured_options.datetime.is_enabled" not in p["opts"]["set"]:  # dates in several formats
        st = {"fmt": 4}
        for row in p["rows"]:
            row[0] = gen.cell(rng, "date", st)
        p["typed"].pop("0", None)
    elif rng.random() < 0.8 or "date" not in p["kinds"]:
        p["opts"]["set"].setdefault("structured_options.datetime.is_enabled", False)
    ids = list(range(len(p["rows"])))
    if rng.random() < 0.4:
        rng.shuffle(ids)
    bs = gen.batches(rng, ids, 5)
    extra = [rng.sample(ids, min(len(ids), rng.randint(1, 4))) for _ in range(rng.randint(1, 4))]
    ops, nxt, live = [], 0, []
    for _ in range(min(len(bs), rng.randint(1, 3))):
        ops.append(["deliver", f"n{nxt}", bs.pop(0), "global"])
        live.append(f"n{nxt}")
        nxt += 1
    bs += extra
    while bs or len(ops) < 6:
        x = rng.random()
        if x < 0.35 and nxt < 5:
            a, b = rng.choice(live), rng.choice(live)
            ops.append(["merge", a, b, f"n{nxt}"])
            live.append(f"n{nxt}")
            nxt += 1
        elif x < 0.5:
            ops.append(["report", rng.choice(live)])
        elif bs:
            ops.append(["deliver", rng.choice(live), bs.pop(0), rng.choice(["global", "reset"])])
        else:
            ops.append(["report", rng.choice(live)])
        if len(ops) > 16:
            break
    p["ops"] = ops
    return p


def salted(env, plan, fl, k, op):
    env.reset_random(k)  # what an operation draws does not depend on other nodes
    if op[0] == "deliver":
        fl.deliver(op[1], fl.ids(op[2]) * (op[4] if len(op) > 4 else 1), op[3], plan.get("perms", {}).get(op[1]))
    elif op[0] == "merge":
        fl.merge(op[1], op[2], op[3])


def isolated(env, plan, name):
    """Build `name` replaying, for every use of an operand, that operand's own history up to then."""
    ops = plan["ops"]

    def build(n, upto):
        fl = fleet.Fleet(env, plan)
        mine = [(k, op) for k, op in enumerate(ops[:upto]) if (op[0] == "deliver" and op[1] == n) or (op[0] == "merge" and op[3] == n)]
        for k, op in mine:
            if op[0] == "merge":
                a, b = build(op[1], k), build(op[2], k)
                if a is None or b is None:
                    continue
                fl.nodes["a"], fl.nodes["b"] = a, b
                env.reset_random(k)
                fl.merge("a", "b", n)
            else:
                salted(env, plan, fl, k, op)
        return fl.nodes.get(n)

    return build(name, len(ops))


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    ops = plan["ops"]
    touched, merged = set(), set()
    after = 0
    last = {}
    for k, op in enumerate(ops):
        env.log(op[0], op[1], op[2] if op[0] == "merge" else None)
        if op[0] == "report":
            r = fl.report(op[1])
            if r is not None:
                last[op[1]] = r
            continue
        salted(env, plan, fl, k, op)
        if op[0] == "merge":
            merged.update(op[1:4])
        elif op[1] in merged:
            after += 1
            env.probe("update_of_merged_or_operand")
    env.after = after
    for n in sorted(fl.nodes):
        got = fl.report(n)
        twin = isolated(env, plan, n)
        want = call(env, "report", twin.prof.report, {"output_format": "serializable"})
        d = canon.diff_reports(got, want, 1e-9)
        env.state_keys.add(f"{n in merged}/{after}/{n in last}")
        if d:
            raise Violation(
                "entangled:" + canon.strip_idx(d[0]),
                f"node {n}: {d[0]} is {d[1]!r} next to other profiles, {d[2]!r} when its operands belong to nobody else",
            )
    env.log("end")


def nontrivial(plan, env):
    return getattr(env, "after", 0) > 0
