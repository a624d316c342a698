"""P02: merging shard profiles in any tree equals profiling the union."""
from .. import fleet, gen
from . import p01

ID = "P02"
RUNS = {"quick": (1100, 300), "thorough": (16000, 3000)}
RULE = (
    "one run = a table sharded over 2-4 nodes; the seed decides which node gets which batch when, which nodes are merged in which tree and order, "
    "and whether merged profiles go on receiving batches; non-trivial = at least one merge of non-empty profiles"
)
STATES = "(data type, merge depth, updated-after-merge) per checked column"
REAL = p01.REAL
STUB = p01.STUB
SHRINK = p01.SHRINK


def plan(rng, tier):
    p = p01.base_plan(rng, tier)
    ids = list(range(len(p["rows"])))
    if rng.random() < 0.4:
        rng.shuffle(ids)
    bs = gen.piecewise(rng, len(ids)) if p["runs"] else gen.batches(rng, ids, 6)
    k = rng.randint(2, 4)
    live = []
    ops = []
    mode = rng.choice(["global", "reset"])
    nxt = 0
    pc = rng.choice([0, 0, 0.5])  # how often a shard has its columns in another order
    for i in range(k):
        if not bs:
            break
        b = bs.pop(0)
        ops.append(["deliver", f"n{nxt}", b, mode, gen.perm(rng, len(p["cols"]), pc)])
        live.append(f"n{nxt}")
        nxt += 1
    while bs or len(live) > 1:
        if len(live) > 1 and (not bs or rng.random() < 0.5):
            a, b = rng.sample(live, 2)
            c = f"n{nxt}"
            nxt += 1
            ops.append(["merge", a, b, c])
            live = [x for x in live if x not in (a, b)] + [c]
            if rng.random() < 0.1:
                live.append(a)  # an operand may live on and be merged again
        elif bs:
            ops.append(["deliver", rng.choice(live), bs.pop(0), mode, gen.perm(rng, len(p["cols"]), pc)])
        if rng.random() < 0.15:
            ops.append(["report", rng.choice(live)])
        if len(ops) > 24:
            break
    if rng.random() < 0.15 and live:  # self-merge: every row counts twice
        ops.append(["merge", live[0], live[0], f"n{nxt}"])
    p["ops"] = ops
    return p


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    merges = 0
    for op in plan["ops"]:
        env.log(op[0], op[1], op[2] if op[0] == "merge" else None)
        if op[0] == "deliver":
            if op[1] in fl.nodes and fl.nodes[op[1]].merged:
                env.probe("update_after_merge")
            fl.deliver(op[1], op[2], op[3], op[4])
        elif op[0] == "merge":
            if fl.merge(op[1], op[2], op[3]):
                merges += 1
                fleet.check_node_exact(fl, op[3])
        elif op[0] == "report":
            fleet.check_node_exact(fl, op[1])
    env.merges = merges
    for n in sorted(fl.nodes):
        fleet.check_node_exact(fl, n)
        nd = fl.nodes[n]
        for c in nd.order:
            m = fl.column_model(nd.rows, c)
            env.state_keys.add(f"{m.data_type()}/{nd.batches}/{nd.merged}")
    env.log("end", plan["rows"])


def nontrivial(plan, env):
    return getattr(env, "merges", 0) > 0
