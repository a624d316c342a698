"""P06: cross-column statistics over any batch and merge history."""
import math

from .. import fleet, gen, refmodel
from ..core import Violation
from . import p01

ID = "P06"
RUNS = {"quick": (1200, 300), "thorough": (16000, 3000)}
RULE = (
    "one run = a table streamed in batches to nodes that are merged in any tree and updated further, with one of correlation, chi-squared homogeneity or "
    "null-replication metrics switched on; the oracle recomputes the statistic from the delivered rows; non-trivial = at least two batches or one merge"
)
STATES = "(mode, merged?, batches)"
REAL = p01.REAL
STUB = p01.STUB
SHRINK = p01.SHRINK


def plan(rng, tier):
    mode = rng.choice(["corr", "chi2", "nullrep"])
    ncols = rng.choice([2, 2, 3, 4])
    nrows = rng.choice([6, 9, 14, 24, 40])
    opts = {"structured_options.datetime.is_enabled": False, "structured_options.order.is_enabled": False}
    kinds = []
    rows = [[None] * ncols for _ in range(nrows)]
    for c in range(ncols):
        st = {}
        if mode == "corr":
            k = rng.choice(["float", "int2", "derived", "text"] if c else ["float", "int2"])
            if k == "derived" and kinds[0] == "text":
                k = "float"
        elif mode == "chi2":
            k = rng.choice(["cat", "cat", "cat2", "float"])
        else:
            k = rng.choice(["float", "int2", "int2", "text"])
        kinds.append(k)
        sc = rng.choice([1, 10, 1000])
        off = rng.choice([0, 0, 0, 50, -7])
        pool = rng.sample(["x", "yy", "zz", "Q", "w"], rng.randint(1, 4))
        pn = rng.choice([0.0, 0.15, 0.4]) if mode != "corr" else 0.0
        for r in range(nrows):
            if k == "float":
                v = "%.3f" % (rng.uniform(-sc, sc) + off)
            elif k == "int2":
                v = str(rng.randint(-20, 40) + off)
            elif k == "derived":
                v = "%.3f" % (float(rows[r][0]) * rng.choice([1, 1, 1, -1]) + rng.uniform(-2, 2))
            elif k == "cat2":
                v = rng.choice(["x", "yy"])
            elif k == "cat":
                v = rng.choice(pool)
            else:
                v = rng.choice(["aa", "b", "cdef"])
            rows[r][c] = "" if rng.random() < pn else v
    flag = {"corr": "correlation", "chi2": "chi2_homogeneity", "nullrep": "null_replication_metrics"}[mode]
    opts[f"structured_options.{flag}.is_enabled"] = True
    if rng.random() < 0.3:  # the three must not disturb each other
        opts["structured_options.chi2_homogeneity.is_enabled"] = True
        opts["structured_options.null_replication_metrics.is_enabled"] = True
        opts["structured_options.correlation.is_enabled"] = True
    p = {"mode": mode, "kinds": kinds, "cols": gen.names(rng, ncols), "rows": rows, "opts": {"set": opts}}
    ids = list(range(nrows))
    if rng.random() < 0.5:
        rng.shuffle(ids)
    lo = rng.choice([1, 2, 3]) if mode == "corr" else 1
    bs = []
    while ids:
        k = rng.randint(lo, max(lo, len(ids) // 2))
        if len(ids) - k < lo:
            k = len(ids)
        bs.append(ids[:k])
        ids = ids[k:]
    pc = rng.choice([0, 0, 0.4])
    idx = rng.choice(["global", "reset", "global"])
    ops, live, nxt = [], [], 0
    nodes = rng.choice([1, 1, 2, 3])
    while bs:
        if len(live) < nodes:
            name = f"n{nxt}"
            nxt += 1
            live.append(name)
        else:
            name = rng.choice(live)
        ops.append(["deliver", name, bs.pop(0), idx, gen.perm(rng, ncols, pc)])
        if rng.random() < 0.2:
            ops.append(["report", name])
        if len(live) > 1 and rng.random() < 0.35:
            a, c = rng.sample(live, 2)
            ops.append(["merge", a, c, f"n{nxt}"])
            live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
            nodes = max(1, nodes - 1)
            nxt += 1
    while len(live) > 1:
        a, c = rng.sample(live, 2)
        ops.append(["merge", a, c, f"n{nxt}"])
        live = [x for x in live if x not in (a, c)] + [f"n{nxt}"]
        nxt += 1
    p["ops"] = ops
    return p


def num(fl, i, c):
    s = fl.rows[i][c]
    return None if s == "" else refmodel.as_float(s)


def pearson(xs, ys):
    n = len(xs)
    mx, my = math.fsum(xs) / n, math.fsum(ys) / n
    sxx = math.fsum((x - mx) ** 2 for x in xs)
    syy = math.fsum((y - my) ** 2 for y in ys)
    if sxx == 0 or syy == 0:
        return None
    return math.fsum((x - mx) * (y - my) for x, y in zip(xs, ys)) / math.sqrt(sxx * syy)


def flat_shard(fl, name, skip):
    """A shard in which some numeric column does not vary has no correlation to merge."""
    rows = fl.nodes[name].rows
    return name in skip or any(len({fl.rows[r][c] for r in rows}) < 2 for c in range(len(fl.cols)) if fl.plan["kinds"][c] != "text")


def check(fl, name, env):
    node = fl.nodes.get(name)
    if node is None:
        return
    mode = fl.plan["mode"]
    rep = fl.report(name)
    gs = rep["global_stats"]
    n = len(fl.cols)
    od = node.order
    env.state_keys.add(f"{mode}/{node.merged}/{node.batches}")
    lab = f"node {name} ({len(node.rows)} rows, {node.batches} batches, merged={node.merged})"
    if mode == "corr":
        if name in fl.skip:
            return
        mat = gs["correlation_matrix"]
        ms = [fl.column_model(node.rows, od[c]) for c in range(n)]
        numeric = [c for c in range(n) if ms[c].data_type() in ("int", "float")]
        if len(numeric) < 2:
            return  # nothing to correlate
        if mat is None:
            raise Violation("corr:missing", f"{lab}: no correlation although columns {numeric} are numeric")
        for i in range(n):
            for j in range(n):
                g = mat[i][j]
                if i in numeric and j in numeric:
                    w = 1.0 if i == j else pearson([num(fl, r, od[i]) for r in node.rows], [num(fl, r, od[j]) for r in node.rows])
                    if w is None or (i == j and len(set(num(fl, r, od[i]) for r in node.rows)) == 1):
                        continue
                    env.probe("corr_checked")
                    if not fleet.near(g, w, 1e-6, 1e-6):
                        raise Violation("corr:value", f"{lab}: correlation of {i},{j} reported {g}, rows say {w}")
                elif g is not None and not math.isnan(g):
                    raise Violation("corr:non-numeric", f"{lab}: correlation {i},{j} reported {g} for a non-numeric column")
    elif mode == "chi2":
        mat = gs["chi2_matrix"]
        import scipy.stats

        for i in range(n):
            for j in range(n):
                a, b = fl.column_model(node.rows, od[i]), fl.column_model(node.rows, od[j])
                ca, cb = rep["data_stats"][i]["categorical"], rep["data_stats"][j]["categorical"]
                g = mat[i][j]
                if not ca or not cb:
                    if g is not None and not math.isnan(g):
                        raise Violation("chi2:non-categorical", f"{lab}: p-value {i},{j} reported {g}")
                    continue
                A, B = fleet._counter(a.values), fleet._counter(b.values)
                cats = set(A) | set(B)
                if i == j:
                    w = 1.0
                elif len(cats) <= 1:
                    w = float("nan")
                elif not A or not B:
                    w = 0.0
                else:
                    ks = sorted(cats)
                    w = scipy.stats.chi2_contingency([[A.get(k, 0) for k in ks], [B.get(k, 0) for k in ks]], correction=False)[1]
                env.probe("chi2_checked")
                g = float("nan") if g is None else g
                if not (math.isnan(g) and math.isnan(w)) and not fleet.near(g, w, 1e-6, 1e-9):
                    raise Violation("chi2:value", f"{lab}: p-value {i},{j} reported {g}, rows say {w}")
    else:
        for c in range(n):
            got = rep["data_stats"][c].get("null_replication_metrics")
            isnull = [fl.rows[r][od[c]] == "" for r in node.rows]
            k = sum(isnull)
            if k == 0:
                if got:
                    raise Violation("nullrep:no-nulls", f"{lab}: metrics for column {c} without nulls: {got}")
                continue
            if not got:
                raise Violation("nullrep:missing", f"{lab}: column {c} has {k} nulls, no metrics")
            others = [d for d in range(n) if d != c]
            tot = len(node.rows)
            if not fleet.near(got["class_prior"][1], k / tot) or not fleet.near(got["class_prior"][0], 1 - k / tot):
                raise Violation("nullrep:prior", f"{lab}: column {c} priors {got['class_prior']}, rows say {k}/{tot}")
            for pos, d in enumerate(others):
                md = fl.column_model(node.rows, od[d])
                if md.data_type() not in ("int", "float"):
                    continue
                s1 = math.fsum(num(fl, r, od[d]) or 0 for r, z in zip(node.rows, isnull) if z)
                s0 = math.fsum(num(fl, r, od[d]) or 0 for r, z in zip(node.rows, isnull) if not z)
                env.probe("nullrep_checked")
                for f, w in (("class_sum", (s0, s1)), ("class_mean", (s0 / (tot - k) if tot > k else None, s1 / k))):
                    for cl in (0, 1):
                        if tot == k and cl == 0:
                            continue
                        if not fleet.near(got[f][cl][pos], w[cl], 1e-7, 1e-6):
                            raise Violation(f"nullrep:{f}", f"{lab}: column {c} {f}[{cl}] of column {d} reported {got[f][cl][pos]}, rows say {w[cl]}")


def run(plan, env):
    fl = fleet.Fleet(env, plan)
    skip = fl.skip = set()
    for op in plan["ops"]:
        env.log(op[0], op[1], op[2] if op[0] == "merge" else len(op[2]) if op[0] == "deliver" else None)
        if op[0] == "deliver":
            fl.deliver(op[1], op[2], op[3], op[4])
        elif op[0] == "merge":
            if fl.merge(op[1], op[2], op[3]) and (flat_shard(fl, op[1], skip) or flat_shard(fl, op[2], skip)):
                skip.add(op[3])
        else:
            check(fl, op[1], env)
    for n in sorted(fl.nodes):
        check(fl, n, env)


def nontrivial(plan, env):
    return env.steps >= 2
