"""P03: row-level statistics for every delivery history."""
from .. import fleet, gen
from ..core import Violation
from ..refmodel import is_null
from . import p01, p02

ID = "P03"
RUNS = {"quick": (1300, 300), "thorough": (20000, 3000)}
RULE = (
    "one run = rows (with duplicates, partly and fully null rows) delivered in batches whose integer row labels continue, restart, overlap or jump, "
    "to nodes that are merged in any order, with exact or HyperLogLog row hashing and with or without a minimum number of true samples; "
    "non-trivial = at least two batches or one merge"
)
STATES = "(hashing, label mode, duplicates?, null rows?, merged?)"
REAL = p01.REAL + ["HyperLogLog C extension"]
STUB = p01.STUB
SHRINK = p01.SHRINK


def plan(rng, tier):
    ncols = rng.choice([1, 2, 2, 3])
    nrows = rng.choice([2, 4, 8, 16, 30])
    ks, rows = gen.table(rng, ncols, nrows, rng.choice([["cat", "int", "nulls"], ["zero", "cat", "const"], None]))
    for _ in range(rng.randint(0, 3)):
        rows[rng.randrange(nrows)] = [rng.choice(gen.NULLS[:3]) for _ in range(ncols)]
    hll = rng.random() < 0.3
    big = rng.random() < 0.02  # batches larger than the counter's own portions
    if big:
        hll = True
        ks, ncols, nrows = ["cat"], 1, rng.choice([2048, 2049, 3000, 4100, 4900])
        kinds = rng.choice([nrows, nrows // 2, nrows - 900])
        rows = [["w%d" % (i % kinds)] for i in range(nrows)]
    opts = {
        "structured_options.datetime.is_enabled": False,
        "structured_options.order.is_enabled": False,
        "structured_options.float.is_enabled": False,
        "structured_options.int.is_enabled": False,
    }
    if hll:
        opts["structured_options.row_statistics.unique_count.hashing_method"] = "hll"
        if rng.random() < 0.5:
            opts["structured_options.row_statistics.unique_count.hll.seed"] = rng.randint(0, 5)
            opts["structured_options.row_statistics.unique_count.hll.register_count"] = rng.choice([12, 15, 16])
    p = {
        "kinds": ks,
        "cols": gen.names(rng, ncols),
        "rows": rows,
        "opts": {"set": opts},
        "hll": hll,
        "ctor": {"min_true_samples": rng.choice([0, 0, 1, 2, 3])},
    }
    ids = list(range(nrows))
    if rng.random() < 0.3:
        rng.shuffle(ids)
    ops, live, nxt = [], [], 0
    bs = gen.batches(rng, ids, 2 if big else 6)
    used = 0
    nodes = rng.choice([1, 1, 2, 3])
    while bs:
        if len(live) < nodes:
            name = f"n{nxt}"
            nxt += 1
            live.append(name)
        else:
            name = rng.choice(live)
        mode = rng.choice(["global", "reset", "global", rng.choice([used, max(0, used - 2), 5, 100, 1000])])
        b = bs.pop(0)
        used += len(b)
        ops.append(["deliver", name, b, mode, gen.perm(rng, ncols, 0.2)])
        if rng.random() < 0.2:
            ops.append(["report", name])
        if len(live) > 1 and rng.random() < 0.3:
            a, c = rng.sample(live, 2)
            ops.append(["merge", a, c, f"n{nxt}"])
            live.append(f"n{nxt}")
            nxt += 1
    if len(live) > 1:
        a, c = rng.sample(live, 2)
        ops.append(["merge", a, c, f"n{nxt}"])
    p["ops"] = ops
    return p


def check(fl, name, env):
    nd = fl.nodes.get(name)
    if nd is None:
        return
    gs = fl.report(name)["global_stats"]
    n = len(nd.rows)
    rows = [tuple(fl.rows[i]) for i in nd.rows]
    uniq = len(set(rows))
    has = sum(1 for r in rows if any(is_null(x) for x in r))
    alln = sum(1 for r in rows if all(is_null(x) for x in r))

    def eq(f, got, want, tol=1e-9):
        if got is None or abs(got - want) > tol:
            raise Violation(f"mismatch:{f}", f"node {name}: {f} reported {got!r}, rows say {want!r} ({n} rows)")

    eq("row_count", gs["row_count"], n)
    eq("row_has_null_ratio", gs["row_has_null_ratio"], has / n)
    eq("row_is_null_ratio", gs["row_is_null_ratio"], alln / n)
    if fl.plan.get("hll"):
        tol = max(1, 0.06 * uniq)
        eq("unique_row_ratio(hll)", gs["unique_row_ratio"], uniq / n, tol / n + 1e-9)
        eq("duplicate_row_count(hll)", gs["duplicate_row_count"], n - uniq, tol)
    else:
        eq("unique_row_ratio", gs["unique_row_ratio"], uniq / n)
        eq("duplicate_row_count", gs["duplicate_row_count"], n - uniq)
    env.state_keys.add(f"{bool(fl.plan.get('hll'))}/{uniq < n}/{bool(has)}/{bool(alln)}/{nd.merged}/{nd.batches}")
    # the row labels kept per null value: never lost, never colliding
    for pos, col in enumerate(fl.report(name, None)["data_stats"]):
        c = nd.order[pos]
        st = col["statistics"]
        m = fl.column_model(nd.rows, c)
        got = {k: len(set(v)) for k, v in st["null_types_index"].items()}
        if got != dict(m.nulls):
            raise Violation("mismatch:null_types_index", f"node {name} column {c}: rows per null value {got!r}, rows say {dict(m.nulls)!r}")
        if st["null_count"] != sum(m.nulls.values()):
            raise Violation("mismatch:null_count", f"node {name} column {c}")
        if not nd.merged and no_overlap(nd.labels):
            labels = [x for b in nd.labels for x in b]
            want = {}
            for lab, cell in zip(labels, m.cells):
                if is_null(cell):
                    want.setdefault(cell, set()).add(lab)
            have = {k: set(v) for k, v in st["null_types_index"].items()}
            if have != want:
                raise Violation("mismatch:null_labels", f"node {name} column {c}: {have!r} vs {want!r}")


def no_overlap(batches):
    seen = []
    for b in batches:
        lo, hi = min(b), max(b)
        if any(not (hi < a or lo > z) for a, z in seen):
            return False
        if seen:
            A, Z = min(a for a, _ in seen), max(z for _, z in seen)
            if not (hi < A or lo > Z):
                return False
        seen.append((lo, hi))
    return True


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    for op in plan["ops"]:
        env.log(op[0], op[1], op[3] if len(op) > 3 else None, len(op[2]) if op[0] == "deliver" else None)
        if op[0] == "deliver":
            fl.deliver(op[1], op[2], op[3], op[4])
        elif op[0] == "merge":
            fl.merge(op[1], op[2], op[3])
        else:
            check(fl, op[1], env)
    for n in sorted(fl.nodes):
        check(fl, n, env)


def nontrivial(plan, env):
    return env.steps >= 2
