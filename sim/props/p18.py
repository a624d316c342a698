"""P18: sampled profiles describe exactly the rows that were sampled."""
from .. import fleet, gen
from ..core import Violation
from . import p01

ID = "P18"
RUNS = {"quick": (320, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = batches profiled with a sample size (set on the profiler or on the update) and an optional minimum of true samples, with merges; one column carries powers of two, so its reported sum names the rows that were used; "
    "each update used min(sample size, rows) rows, none twice, the same rows in every column, all statistics are exactly those of the rows used, and row counts are those of all rows; "
    "over many seeds every row is used about equally often; non-trivial = some update used fewer rows than it got"
)
STATES = "(rows, sample size, min true samples, merges)"
REAL, STUB = p01.REAL, p01.STUB
SHRINK = [["ops"], ["rows"], ["ops", "*", 2], ["seeds"]]


def plan(rng, tier):
    p = p01.base_plan(rng, tier, 24)
    while len(p["rows"]) < 4:
        p = p01.base_plan(rng, tier, 24)
    p["rows"] = p["rows"][:40]
    n = len(p["rows"])
    for k in list(p["opts"]["set"]):
        if k in ("structured_options.int.is_enabled", "structured_options.float.is_enabled") or k.endswith((".sum.is_enabled", ".variance.is_enabled")):
            del p["opts"]["set"][k]
    p["opts"].pop("nulls", None)
    p["opts"].pop("colnulls", None)
    p["kinds"] = ["pow"] + p["kinds"]
    p["cols"] = ["pow"] + ["k%d" % i for i in range(len(p["cols"]))]
    p["typed"] = {str(int(c) + 1): t for c, t in p["typed"].items()}
    p["rows"] = [[str(2 ** (i + SHIFT))] + r for i, r in enumerate(p["rows"])]
    ids = list(range(n))
    rng.shuffle(ids)
    p["what"] = "uniform" if rng.random() < 0.04 else "history"
    p["ctor"] = {}
    if rng.random() < 0.7:
        p["ctor"]["samples_per_update"] = rng.choice([1, 2, 3, 5, n, n + 3])
    mt = rng.random() < 0.25
    labels = rng.choice(["global", "reset", "str"])
    ops = []
    for b in gen.batches(rng, ids, 4):
        kw = {}
        if rng.random() < 0.4:
            kw["sample_size"] = rng.choice([1, 2, len(b), max(1, len(b) // 2)])
        if mt:
            kw["min_true_samples"] = rng.choice([1, 2, 4, len(b), len(b) + 1])
        ops.append(["deliver", rng.choice(["a", "a", "b"]), b, labels, kw])
    if rng.random() < 0.4:
        ops.insert(rng.randint(1, len(ops)), ["merge", "a", "b", "c"])
    p["ops"] = ops
    p["seeds"] = [rng.randrange(1 << 30)]
    if p["what"] == "uniform":
        p["ops"] = [["deliver", "a", ids[: rng.choice([4, 7, 10])], "global", {}]]
        p["rows"] = [r[:1] for r in p["rows"]]
        p["cols"], p["typed"] = p["cols"][:1], {}
        p["ctor"] = {"samples_per_update": rng.randint(1, 3)}
    return p


# large enough that no identifier looks like a date
SHIFT = 40


def decode(total):
    return [i for i in range(50) if (int(total) >> (i + SHIFT)) & 1]


def one(env, plan):
    fl = fleet.Fleet(env, plan)
    exp, mts = {}, {}
    env.sampled = 0
    for k, op in enumerate(plan["ops"]):
        env.reset_random(k)
        if op[0] == "merge":
            if op[1] in fl.nodes and op[2] in fl.nodes:
                fl.merge(op[1], op[2], op[3])
                exp[op[3]] = exp[op[1]] + exp[op[2]]
                mts[op[3]] = max(mts[op[1]], mts[op[2]])
            continue
        ids, kw = fl.ids(op[2]), dict(op[4])
        if not ids:
            continue
        if op[1] not in fl.nodes:
            kw.pop("sample_size", None)
        s = kw.get("sample_size") or fl.ctor.get("samples_per_update") or len(ids)
        fl.deliver(op[1], ids, op[3], None, **kw)
        if op[1] not in exp:
            exp[op[1]], mts[op[1]] = 0, 0
            if "min_true_samples" in kw:
                # the constructor's minimum stays in force for updates without their own
                fl.nodes[op[1]].saved = kw["min_true_samples"]
        m = kw.get("min_true_samples") or fl.nodes[op[1]].saved or 0
        exp[op[1]] += min(s, len(ids))
        mts[op[1]] = max(mts[op[1]], m)
        env.sampled += s < len(ids)
        env.log(op[1], len(ids), s, m)
    return fl, exp, mts


def run(plan, env):
    if plan["what"] == "uniform":
        return uniform(plan, env)
    fl, exp, mts = one(env, plan)
    for name in sorted(fl.nodes):
        node = fl.nodes[name]
        rep = fl.report(name)
        gs = rep["global_stats"]
        n = len(node.rows)
        label = f"node {name} ({n} rows, {exp[name]} to be sampled, min true {mts[name]})"
        fleet.expect(gs["row_count"] == n, "mismatch:row_count", f"{label}: {gs['row_count']}")
        st = rep["data_stats"][0]["statistics"]
        used = decode(st["sum"])
        if st["sample_size"] != len(used) or st.get("null_count"):
            raise Violation("sample-repeats-row", f"{label}: sample_size {st['sample_size']}, null_count {st.get('null_count')}, but the sum {st['sum']} names rows {used}")
        if not set(used) <= set(node.rows):
            raise Violation("sample-not-from-data", f"{label}: rows {sorted(set(used) - set(node.rows))} were never given")
        if mts[name]:
            # every column goes on sampling until it has enough true values
            fleet.expect(len(used) >= exp[name], "sample-size", f"{label}: {len(used)} rows used")
            for pos, col in enumerate(rep["data_stats"]):
                s = col["statistics"]
                fleet.expect(exp[name] <= s["sample_size"] <= n, "sample-size", f"{label}: column {pos} used {s['sample_size']}")
                if node.batches == 1 and s["sample_size"] < n:
                    fleet.expect(s["sample_size"] - s["null_count"] >= mts[name], "too-few-true-samples", f"{label}: column {pos} used {s['sample_size']} of {n} rows, {s['null_count']} of them null")
                if s["sample_size"] == n:
                    fleet.check_column_exact(col, fl.column_model(node.rows, pos), label, vocab=fl.vocab, off=fl.off)
        else:
            fleet.expect(len(used) == exp[name], "sample-size", f"{label}: {len(used)} rows used")
            fleet.expect(gs["samples_used"] == exp[name], "mismatch:samples_used", f"{label}: samples_used {gs['samples_used']}")
            order = [i for i in node.rows if i in set(used)]
            for pos, col in enumerate(rep["data_stats"]):
                fleet.check_column_exact(col, fl.column_model(order, pos), f"{label} used {order}, column {pos}", vocab=fl.vocab, off=fl.off)
        if gs.get("row_has_null_ratio") is not None and used:
            # the first column never has nulls, so it stops first: its rows are those that every column used
            nul = [[fl.null_test(c)(fl.rows[i][c]) if callable(fl.null_test(c)) else False for c in range(len(fl.cols))] for i in used]
            for f, agg in (("row_has_null_ratio", any), ("row_is_null_ratio", all)):
                want = sum(map(agg, nul)) / len(used)
                fleet.expect(abs(gs[f] - want) < 1e-9, "mismatch:" + f, f"{label}: {f} {gs[f]}, the rows used {used} say {want}")
        env.state_keys.add(f"{n}/{exp[name]}/{mts[name]}/{node.merged}")


def uniform(plan, env):
    ids = plan["ops"][0][2] if plan["ops"] else []
    if len(ids) < 4:
        return
    k = plan["ctor"]["samples_per_update"]
    seen = dict.fromkeys(ids, 0)
    N = 150
    for i in range(N):
        env.seed_int = plan["seeds"][0] + 104729 * i if plan["seeds"] else i
        fl, _, _ = one(env, plan)
        for r in decode(fl.report("a")["data_stats"][0]["statistics"]["sum"]):
            seen[r] = seen.get(r, 0) + 1
    p = min(1, k / len(ids))
    m, sd = N * p, (N * p * (1 - p)) ** 0.5
    for r, v in seen.items():
        if abs(v - m) > 6.5 * sd:
            raise Violation("sample-not-uniform", f"sampling {k} of {len(ids)} rows, {N} seeds: row {r} was used {v} times, expected {m:.0f} +- {sd:.1f}: {seen}")
    env.probe("uniformity_checked")
    env.sampled = 1


def nontrivial(plan, env):
    return getattr(env, "sampled", 0) > 0
